"""numpy semantics for arrays with symbolic entries (object arrays wrapped in SA)"""
import builtins
import itertools
import math
import cmath
import numpy as np
from .poly import (Sym, SymBool, Unsupported, _isnum, _isbool, band, bor, bnot, compare, ite, smax, smin, sabs, ssqrt,
                   sexp, slog, scos, ssin, stan, sfn, sfloor, sround, ssign, inv, CTX, strunc, _tb)


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def has_sym(x):
    """does a (nested) object contain symbolic entries"""
    if is_sym(x):
        return True
    if isinstance(x, SA):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def entries_sym(a):
    return any(is_sym(x) for x in a.flat)


def _real_part(x):
    if isinstance(x, Sym):
        return x if x.is_real() else x.real
    return x.real if isinstance(x, complex) else x


def _nonreal(x):
    return (isinstance(x, Sym) and not x.is_real()) or (isinstance(x, complex) and x.imag != 0)


def mark(x):
    """the array is known to have a real floating point dtype: storing complex numbers drops the imaginary part"""
    if isinstance(x, SA):
        x.fk = True
    return x


class SA(np.ndarray):
    """object array holding python numbers / Sym / SymBool"""
    fk = False      # True: surely a float64 array

    def __array_finalize__(self, obj):
        pass

    # --- conversion ----------------------------------------------------------------------------------------------
    @property
    def real(self):
        return emap(lambda x: x.real, self)

    @real.setter
    def real(self, v):
        self[...] = self.real * 0 + v + 1j * self.imag

    @property
    def imag(self):
        return emap(lambda x: x.imag, self)

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * np.asarray(v)

    @property
    def dtype(self):
        return np.dtype(float) if self.fk else np.dtype(object)

    def conj(self):
        return emap(_conj, self)

    def __repr__(self):
        def src(a):
            from .poly import source
            return "[" + ", ".join(src(b) for b in a) + "]" if isinstance(a, list) else source(a)
        try:
            return "array(" + src(raw(self).tolist()) + ")"
        except (TypeError, ValueError):
            return object.__repr__(self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        return astype_arr(self, dtype)

    def copy(self, *a, **k):
        r = wrap(np.array(raw(self), dtype=object, copy=True))
        r.fk = self.fk
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return raw(self).tolist()

    def __getitem__(self, idx):
        r = wrap(np.ndarray.__getitem__(raw(self), fix_index(idx)))
        if self.fk and isinstance(r, SA):
            r.fk = True
        return r

    def __setitem__(self, idx, val):
        base = raw(self)
        # conditional assignment through a symbolic mask: merge instead of forking
        mask = idx[0] if isinstance(idx, tuple) and len(idx) == 1 else idx
        if isinstance(mask, SymBool) or (isinstance(mask, SA) and any(isinstance(x, SymBool) for x in mask.flat)):
            if isinstance(mask, SymBool):
                mask = wrap(np.array(mask, dtype=object))
            v = np.asarray(raw(val) if isinstance(val, np.ndarray) else val, dtype=object) if not is_sym(val) else val
            scalar = is_sym(v) or v.shape == ()
            if scalar and mask.shape == base.shape:
                vv = v if is_sym(v) else v.item()
                for i in np.ndindex(base.shape):
                    base[i] = ite(raw(mask)[i], vv, base[i]) if not _isbool(raw(mask)[i]) else (vv if raw(mask)[i] else base[i])
                return
        if isinstance(val, np.ndarray):
            val = raw(val)
            if val.dtype != object:
                val = val.astype(object)
        elif isinstance(val, (list, tuple)):
            val = raw(to_obj(val))
        if self.fk:
            if isinstance(val, np.ndarray):
                if any(_nonreal(x) for x in val.flat):
                    v = np.empty(val.shape, dtype=object)
                    for i in np.ndindex(val.shape):
                        v[i] = _real_part(val[i])
                    val = v
            elif _nonreal(val):
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
        np.ndarray.__setitem__(base, fix_index(idx), val)

    def _red(self, func, axis=None, keepdims=False, out=None, **k):
        return func(self, axis=axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.mean(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.max(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.min(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.all(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.any(self, axis=axis, keepdims=keepdims)

    def std(self, *a, **k):
        return np.std(self, *a, **k)

    def var(self, *a, **k):
        return np.var(self, *a, **k)

    def argmin(self, axis=None, out=None, **k):
        return np.argmin(self, axis=axis)

    def argmax(self, axis=None, out=None, **k):
        return np.argmax(self, axis=axis)

    def argsort(self, axis=-1, **k):
        return np.argsort(self, axis=axis)

    def sort(self, axis=-1, **k):
        self[...] = np.sort(self, axis=axis)

    def round(self, decimals=0, out=None):
        return np.round(self, decimals)

    def dot(self, b, out=None):
        return np.dot(self, b)

    def trace(self, *a, **k):
        return np.trace(self, *a, **k)

    def cumsum(self, *a, **k):
        return np.cumsum(self, *a, **k)

    def nonzero(self):
        return np.nonzero(self)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(raw(self).flat[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(raw(self).flat[0])

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(np.any(self == x))

    def __pow__(self, e):
        return np.power(self, e)

    def __ipow__(self, e):
        self[...] = np.power(self, e)
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, types, args, kwargs)

    def __reduce__(self):
        raise Unsupported("pickling symbolic arrays")


def raw(x):
    """base ndarray view"""
    if isinstance(x, SA):
        return x.view(np.ndarray)
    return x


def wrap(x):
    if isinstance(x, SA):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(SA)
    return x


def fix_index(idx):
    """make concrete integer/boolean index arrays out of SA indices (forks on symbolic masks)"""
    if isinstance(idx, tuple):
        return tuple(fix_index(i) for i in idx)
    if isinstance(idx, list):
        return [fix_index(i) for i in idx]
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, Sym):
        return int(idx)
    if isinstance(idx, SA):
        if idx.size == 0:
            return np.zeros(idx.shape, dtype=int)
        if any(isinstance(x, SymBool) or _isbool(x) for x in idx.flat):
            return force_bool(idx)
        return np.array([int(x) for x in raw(idx).flat], dtype=int).reshape(idx.shape)
    return idx


def force_bool(a):
    """concrete boolean array (each symbolic entry forks)"""
    if isinstance(a, SymBool):
        return bool(a)
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return np.asarray(a, dtype=bool)
        return np.array([bool(x) for x in raw(a).flat], dtype=bool).reshape(a.shape)
    return a


def to_obj(x):
    """nested sequence -> SA (object array of numbers)"""
    if isinstance(x, SA):
        return x
    if is_sym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return wrap(r)
    if isinstance(x, np.ndarray):
        return wrap(x.astype(object))
    if isinstance(x, (list, tuple)):
        parts = [to_obj(y) for y in x]
        if not parts:
            return wrap(np.zeros((0,), dtype=object))
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("inhomogeneous shape")
        r = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            r[i] = raw(p) if p.shape else raw(p)[()]
        return wrap(r)
    if hasattr(x, "__array__"):
        return to_obj(np.asarray(x))
    if hasattr(x, "__len__") and hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
        return to_obj(list(x))
    r = np.empty((), dtype=object)
    r[()] = x
    return wrap(r)


def demote(a):
    """SA with only concrete entries -> numeric ndarray (None if symbolic)"""
    if is_sym(a):
        return None
    if not isinstance(a, SA):
        return a
    kind = "b"
    for x in raw(a).flat:
        if is_sym(x):
            return None
        if _isbool(x):
            k = "b"
        elif isinstance(x, (int, np.integer)):
            k = "i"
        elif isinstance(x, (float, np.floating)):
            k = "f"
        elif isinstance(x, (complex, np.complexfloating)):
            k = "c"
        else:
            return None
        if "bifc".index(k) > "bifc".index(kind):
            kind = k
    if a.size == 0:
        kind = "f"
    dt = {"b": bool, "i": int, "f": float, "c": complex}[kind]
    return np.array(raw(a).tolist(), dtype=dt).reshape(a.shape)


def promote(r):
    """float/complex results of concrete computations on SA stay SA so that symbolic values can be stored later"""
    if isinstance(r, np.ndarray) and not isinstance(r, SA):
        if r.dtype.kind in "fc" and r.shape != ():
            return wrap(r.astype(object))
        if r.dtype == object:
            return wrap(r)
    if isinstance(r, tuple):
        t = [promote(x) for x in r]
        return type(r)(*t) if hasattr(r, "_fields") else tuple(t)
    if isinstance(r, list):
        return [promote(x) for x in r]
    return r


def _conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else x


def emap(f, a):
    a = raw(a)
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        r[i] = f(a[i])
    if a.shape == ():
        return r[()]
    return wrap(r)


def _kind(dtype):
    if isinstance(dtype, type) and not issubclass(dtype, np.generic):
        for t, k in ((bool, "b"), (int, "i"), (float, "f"), (complex, "c")):
            if issubclass(dtype, t):
                return k
    return np.dtype(dtype).kind


_NPT = {"b": bool, "i": np.int64, "u": np.int64, "f": np.float64, "c": np.complex128}


def astype_elem(x, dtype):
    if dtype is None:
        return x
    kind = _kind(dtype)
    if kind in "iu":
        if isinstance(x, Sym):
            return strunc(x.real if isinstance(x, Sym) else x)
        if isinstance(x, SymBool):
            return x.as_num()
        return int(x.real) if isinstance(x, complex) else int(x)
    if kind == "f":
        if isinstance(x, Sym):
            return x.real
        if isinstance(x, SymBool):
            return x.as_num()
        return float(x.real)
    if kind == "c":
        if isinstance(x, SymBool):
            return x.as_num()
        return x if isinstance(x, Sym) else (complex(x) if isinstance(x, complex) else x)
    if kind == "b":
        return _tb(x)
    return x


def astype_arr(a, dtype):
    r = emap(lambda x: astype_elem(x, dtype), a)
    kind = _kind(dtype)
    if kind in "iub" and isinstance(r, SA):
        d = demote(r)
        if d is not None:
            return d.astype(_NPT[kind])
    if kind == "f":
        mark(r)
    return r


# ---------------------------------------------------------------------------------------------------------------------
# ufuncs

def _pow(a, b):
    if is_sym(b) and not b.is_const():
        raise Unsupported("symbolic exponent")
    if isinstance(a, SymBool):
        a = a.as_num()
    if isinstance(a, Sym):
        return a ** b
    return a ** b


def _div(a, b):
    if _isnum(b) and b == 0:
        if _isnum(a):
            with np.errstate(all="ignore"):
                return np.true_divide(a, b)
        raise Unsupported("symbolic value divided by concrete zero")
    return a / b


def _num(f):
    def g(x):
        if isinstance(x, SymBool):
            x = x.as_num()
        return f(x)
    return g


def _np1(name, symf):
    real = getattr(np, name)

    def g(x):
        if isinstance(x, SymBool):
            x = x.as_num()
        if isinstance(x, Sym):
            return symf(x)
        with np.errstate(all="ignore"):
            r = real(x)
        return r.item() if hasattr(r, "item") else r
    return g


def _cosh(x):
    e = sexp(x)
    return (e + inv(e)) * 0.5


def _sinh(x):
    e = sexp(x)
    return (e - inv(e)) * 0.5


def _tanh(x):
    e = sexp(2 * x)
    return (e - 1) * inv(e + 1)


UNARY = {
    "negative": lambda x: -x, "positive": lambda x: x, "absolute": sabs, "fabs": sabs, "conjugate": _conj,
    "sqrt": _np1("sqrt", ssqrt), "square": lambda x: x * x, "exp": _np1("exp", sexp), "log": _np1("log", slog),
    "cos": _np1("cos", scos), "sin": _np1("sin", ssin), "tan": _np1("tan", stan),
    "arccos": _np1("arccos", lambda x: sfn("arccos", x)), "arcsin": _np1("arcsin", lambda x: sfn("arcsin", x)),
    "arctan": _np1("arctan", lambda x: sfn("arctan", x)),
    "cosh": _np1("cosh", _cosh), "sinh": _np1("sinh", _sinh), "tanh": _np1("tanh", _tanh),
    "log1p": _np1("log1p", lambda x: slog(1 + x)), "expm1": _np1("expm1", lambda x: sexp(x) - 1),
    "cbrt": _np1("cbrt", lambda x: sfn("cbrt", x)),
    "rint": _np1("rint", sround), "floor": _np1("floor", sfloor), "ceil": _np1("ceil", lambda x: -Sym.of(sfloor(-x))),
    "trunc": _np1("trunc", strunc), "sign": _np1("sign", ssign), "reciprocal": lambda x: 1.0 / x,
    "isfinite": lambda x: True if is_sym(x) else bool(np.isfinite(x)),
    "isnan": lambda x: False if is_sym(x) else bool(np.isnan(x)),
    "isinf": lambda x: False if is_sym(x) else bool(np.isinf(x)),
    "logical_not": bnot, "invert": lambda x: bnot(x) if (isinstance(x, SymBool) or _isbool(x)) else ~x,
    "deg2rad": lambda x: x * (math.pi / 180), "rad2deg": lambda x: x * (180 / math.pi),
    "exp2": lambda x: sexp(x * math.log(2)),
}

BINARY = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "true_divide": _div, "divide": _div, "power": _pow, "float_power": _pow,
    "floor_divide": lambda a, b: a // b, "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b,
    "maximum": smax, "minimum": smin, "fmax": smax, "fmin": smin,
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "logical_and": band, "logical_or": bor, "logical_xor": lambda a, b: bnot(_eqb(a, b)),
    "bitwise_and": lambda a, b: band(a, b) if _bl(a, b) else a & b,
    "bitwise_or": lambda a, b: bor(a, b) if _bl(a, b) else a | b,
    "bitwise_xor": lambda a, b: bnot(_eqb(a, b)) if _bl(a, b) else a ^ b,
    "hypot": lambda a, b: ssqrt(a * a + b * b), "arctan2": lambda a, b: sfn("arctan2", a, b),
    "copysign": lambda a, b: sabs(a) * (1 if ssign(b) >= 0 else -1),
}


def _bl(a, b):
    return any(isinstance(x, SymBool) or _isbool(x) for x in (a, b))


def _eqb(a, b):
    a, b = _tb(a), _tb(b)
    return bor(band(a, b), band(bnot(a), bnot(b)))


BOOLISH = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
           "logical_not", "isfinite", "isnan", "isinf", "logical_xor"}


def _pyel(x):
    """numpy scalar -> python scalar"""
    if isinstance(x, np.generic):
        return x.item()
    return x


def elementwise(name, f, args):
    arrs = [raw(to_obj(a)) for a in args]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    bs = [np.broadcast_to(a, shape) for a in arrs]
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        v = f(*[_pyel(b[i]) for b in bs])
        if isinstance(v, Sym) and v.is_const():
            v = v.value()
        r[i] = v
    if shape == ():
        return r[()]
    if name in BOOLISH or name in ("bitwise_and", "bitwise_or", "invert", "bitwise_xor"):
        if all(_isbool(x) for x in r.flat):
            return r.astype(bool)
    return wrap(r)


REDUCE_ID = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False}


def _out(res, kw):
    out = kw.get("out")
    if out is None:
        return res
    if isinstance(out, tuple):
        out = out[0]
    if not isinstance(out, SA):
        if isinstance(out, np.ndarray):
            d = demote(to_obj(res))
            if d is None:
                raise Unsupported("in-place operation of symbolic values into a numeric array")
            out[...] = d
            return out
    if out.fk and any(_nonreal(x) for x in raw(to_obj(res)).flat):
        raise TypeError("Cannot cast ufunc output from dtype('complex128') to dtype('float64') with casting rule 'same_kind'")
    out[...] = res
    return out


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    where = kw.pop("where", True)
    if where is not True:
        if method == "__call__":
            base = ufunc_dispatch(ufunc, method, inputs, {k: v for k, v in kw.items() if k != "out"})
            out = kw.get("out")
            out = out[0] if isinstance(out, tuple) else out
            if out is None:
                raise Unsupported("ufunc where= without out")
            return _out(sym_where(where, base, out), kw)
        raise Unsupported("where= in reduction")
    dem = [demote(i) for i in inputs]
    if all(d is not None for d in dem):
        k = {a: b for a, b in kw.items() if a not in ("out",)}
        if method == "at":
            a = inputs[0]
            idx = fix_index(inputs[1])
            return scatter(name, a, idx, inputs[2] if len(inputs) > 2 else None)
        r = getattr(ufunc, method)(*dem, **k)
        return _out(promote(r), kw)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("subok", None)
    kw.pop("order", None)
    if name == "matmul" or name == "vecdot" or name == "matvec" or name == "vecmat":
        return _out(matmul(*inputs), kw)
    if method == "__call__":
        if name in UNARY:
            return _out(elementwise(name, _num(UNARY[name]) if name not in ("logical_not", "invert") else UNARY[name], inputs), kw)
        if name in BINARY:
            return _out(elementwise(name, BINARY[name], inputs), kw)
        if name == "divmod":
            return elementwise("floor_divide", BINARY["floor_divide"], inputs), elementwise("remainder", BINARY["remainder"], inputs)
        if name in SCIPY_UFUNC:
            return _out(elementwise(name, SCIPY_UFUNC[name], inputs), kw)
        raise Unsupported(f"ufunc {name}")
    if method == "outer":
        a, b = [to_obj(i) for i in inputs]
        return elementwise(name, BINARY[name], (a.reshape(a.shape + (1,) * b.ndim), b))
    if method == "reduce":
        a = to_obj(inputs[0])
        axis = kw.get("axis", 0)
        return _out(reduce_axis(BINARY[name], a, axis, kw.get("keepdims", False), kw.get("initial", REDUCE_ID.get(name))), kw)
    if method == "accumulate":
        a = to_obj(inputs[0])
        axis = kw.get("axis", 0)
        r = np.moveaxis(raw(a), axis, 0).copy()
        for i in range(1, len(r)):
            r[i] = raw(to_obj(elementwise(name, BINARY[name], (wrap(r[i - 1]) if isinstance(r[i - 1], np.ndarray) else r[i - 1],
                                                              wrap(r[i]) if isinstance(r[i], np.ndarray) else r[i]))))
        return wrap(np.moveaxis(r, 0, axis))
    if method == "at":
        return scatter(name, inputs[0], fix_index(inputs[1]), inputs[2] if len(inputs) > 2 else None)
    raise Unsupported(f"ufunc {name}.{method}")


SCIPY_UFUNC = {}


def scatter(name, a, idx, b):
    if not isinstance(a, SA):
        raise Unsupported("ufunc.at into a numeric array")
    f = BINARY[name]
    lin = np.arange(a.size).reshape(a.shape)[idx]
    bb = np.broadcast_to(raw(to_obj(b)), np.shape(lin))
    flat = raw(a)
    for n, i in enumerate(np.ravel(lin)):
        m = np.unravel_index(i, a.shape)
        flat[m] = f(flat[m], bb.flat[n])


def reduce_axis(f, a, axis, keepdims=False, initial=None):
    a = raw(to_obj(a))
    if axis is None:
        axis = tuple(range(a.ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    axis = tuple(x % a.ndim for x in axis) if a.ndim else ()
    rest = tuple(i for i in range(a.ndim) if i not in axis)
    t = np.transpose(a, rest + axis).reshape(tuple(a.shape[i] for i in rest) + (-1,)) if axis else a[..., None]
    out = np.empty(t.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        row = t[i]
        if len(row) == 0:
            if initial is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            out[i] = initial
            continue
        v = _pyel(row[0])
        for x in row[1:]:
            v = f(v, _pyel(x))
        out[i] = v
    if keepdims:
        out = out.reshape(tuple(1 if i in axis else s for i, s in enumerate(a.shape)))
    if out.shape == ():
        return out[()]
    return wrap(out)


def matmul(a, b):
    a, b = raw(to_obj(a)), raw(to_obj(b))
    a1 = a[None, :] if a.ndim == 1 else a
    b1 = b[:, None] if b.ndim == 1 else b
    if a1.shape[-1] != b1.shape[-2]:
        raise ValueError(f"matmul: mismatch in core dimension {a.shape} {b.shape}")
    sh = np.broadcast_shapes(a1.shape[:-2], b1.shape[:-2])
    aa = np.broadcast_to(a1, sh + a1.shape[-2:])
    bb = np.broadcast_to(b1, sh + b1.shape[-2:])
    r = np.empty(sh + (a1.shape[-2], b1.shape[-1]), dtype=object)
    n = a1.shape[-1]
    for s in np.ndindex(sh):
        x, y = aa[s], bb[s]
        for i in range(x.shape[0]):
            for j in range(y.shape[1]):
                v = 0.0
                for k in range(n):
                    p, q = x[i, k], y[k, j]
                    if _isnum(p) and p == 0 or _isnum(q) and q == 0:
                        continue
                    v = v + _pyel(p) * _pyel(q)
                r[s + (i, j)] = v
    if a.ndim == 1:
        r = r[..., 0, :]
    if b.ndim == 1:
        r = r[..., 0]
    if isinstance(r, np.ndarray):
        return wrap(r) if r.shape != () else r[()]
    return r


# ---------------------------------------------------------------------------------------------------------------------
# array functions

HANDLERS = {}


def handles(*funcs):
    def deco(f):
        for g in funcs:
            HANDLERS[g] = f
        return f
    return deco


def deep_demote(x):
    """returns (ok, value)"""
    if is_sym(x):
        return False, None
    if isinstance(x, SA):
        d = demote(x)
        return d is not None, d
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            ok, d = deep_demote(y)
            if not ok:
                return False, None
            out.append(d)
        return True, (type(x)(out) if not hasattr(x, "_fields") else x)
    if isinstance(x, dict):
        out = {}
        for k, y in x.items():
            ok, d = deep_demote(y)
            if not ok:
                return False, None
            out[k] = d
        return True, out
    return True, x


def deep_raw(x):
    if isinstance(x, SA):
        return raw(x)
    if is_sym(x):
        return raw(to_obj(x))
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        return type(x)(deep_raw(y) for y in x)
    if isinstance(x, dict):
        return {k: deep_raw(v) for k, v in x.items()}
    return x


STRUCTURAL = {np.concatenate, np.stack, np.vstack, np.hstack, np.dstack, np.column_stack, np.transpose, np.reshape,
              np.swapaxes, np.moveaxis, np.rollaxis, np.roll, np.tile, np.repeat, np.ravel, np.squeeze,
              np.expand_dims, np.broadcast_to, np.broadcast_arrays, np.diagonal, np.flip, np.fliplr, np.flipud, np.rot90,
              np.atleast_1d, np.atleast_2d, np.atleast_3d, np.split, np.array_split, np.delete, np.insert, np.append,
              np.shape, np.ndim, np.size, np.take_along_axis, np.meshgrid, np.copy, np.block, np.ix_, np.array_equiv,
              np.put_along_axis, np.triu, np.tril, np.diag, np.diagflat, np.pad, np.resize}


def function_dispatch(func, types, args, kwargs):
    ok, dargs = deep_demote(args)
    ok2, dk = deep_demote(kwargs)
    inplace = func in INPLACE
    if ok and ok2 and not inplace:
        dk.pop("out", None) if "out" in kwargs else None
        if func in RESULT_TYPE:
            return RESULT_TYPE[func](*args, **kwargs)
        return promote(func(*dargs, **dk))
    h = HANDLERS.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func in STRUCTURAL:
        args = deep_fixidx(func, args)
        r = func(*deep_raw(args), **deep_raw(kwargs))
        return promote(r)
    raise Unsupported(f"numpy function {getattr(func, '__name__', func)} on symbolic arguments")


def deep_fixidx(func, args):
    if func in (np.take_along_axis, np.delete, np.insert, np.put_along_axis) and len(args) > 1:
        return (args[0], fix_index(args[1])) + tuple(args[2:])
    return args


def _result_type(*a, **k):
    return np.dtype(object)


RESULT_TYPE = {np.result_type: _result_type}
HANDLERS[np.result_type] = _result_type
if hasattr(np, "common_type"):
    HANDLERS[np.common_type] = _result_type
INPLACE = {np.fill_diagonal, np.copyto, np.put, np.putmask, np.place, np.put_along_axis}


@handles(np.fill_diagonal)
def _fill_diagonal(a, val, wrap_=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val if np.ndim(val) == 0 else val[i]


@handles(np.copyto)
def _copyto(dst, src, casting=None, where=True):
    dst[...] = src if where is True else sym_where(where, src, dst)


@handles(np.take)
def _take(a, indices, axis=None, out=None, mode="raise"):
    return wrap(np.take(raw(to_obj(a)), fix_index(indices), axis=axis))


@handles(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0.0, where=True):
    r = reduce_axis(lambda x, y: x + y, _nobool(a), axis, keepdims is True, 0.0)
    return r


def _nobool(a):
    a = to_obj(a)
    if any(isinstance(x, SymBool) or _isbool(x) for x in a.flat):
        return emap(lambda x: x.as_num() if isinstance(x, SymBool) else (int(x) if _isbool(x) else x), a)
    return a


@handles(np.prod)
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=1.0, where=True):
    return reduce_axis(lambda x, y: x * y, _nobool(a), axis, keepdims is True, 1.0)


@handles(np.count_nonzero)
def _count_nonzero(a, axis=None, keepdims=False):
    b = emap(lambda x: int(bool(x)), to_obj(a))
    return reduce_axis(lambda x, y: x + y, b, axis, keepdims, 0)


@handles(np.mean, np.average)
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, weights=None, **k):
    a = to_obj(a)
    if weights is not None:
        return _sum(a * weights, axis) / _sum(np.broadcast_to(to_obj(weights), a.shape), axis)
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in ((axis,) if isinstance(axis, (int, np.integer)) else axis)]))
    return _sum(a, axis, keepdims=keepdims) / n


@handles(np.var)
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = to_obj(a)
    m = _mean(a, axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    return _sum((d * np.conj(d)).real, axis, keepdims=keepdims) / (n - ddof)


@handles(np.std)
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(_var(a, axis, ddof=ddof, keepdims=keepdims))


@handles(np.max)
def _max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if initial is not None:
        r = reduce_axis(smax, a, axis, keepdims is True, initial)
        return elementwise("maximum", smax, (r, initial))
    return reduce_axis(smax, a, axis, keepdims is True)


@handles(np.min)
def _min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if initial is not None:
        r = reduce_axis(smin, a, axis, keepdims is True, initial)
        return elementwise("minimum", smin, (r, initial))
    return reduce_axis(smin, a, axis, keepdims is True)


HANDLERS[np.nanmax] = _max
HANDLERS[np.nanmin] = _min


@handles(np.ptp)
def _ptp(a, axis=None, out=None, keepdims=False):
    return _max(a, axis, keepdims=keepdims) - _min(a, axis, keepdims=keepdims)


@handles(np.all)
def _all(a, axis=None, out=None, keepdims=False, where=True):
    return _simpb(reduce_axis(band, emap0(_tb, a), axis, keepdims is True, True))


@handles(np.any)
def _any(a, axis=None, out=None, keepdims=False, where=True):
    return _simpb(reduce_axis(bor, emap0(_tb, a), axis, keepdims is True, False))


def _simpb(r):
    if isinstance(r, SA) and all(_isbool(x) for x in r.flat):
        return np.array(raw(r).tolist(), dtype=bool).reshape(r.shape)
    return r


def emap0(f, a):
    a = to_obj(a)
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        r[i] = f(_pyel(raw(a)[i]))
    return wrap(r)


def _argext(a, axis, better):
    a = to_obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    t = np.moveaxis(raw(a), axis, -1)
    out = np.empty(t.shape[:-1], dtype=int)
    for i in np.ndindex(out.shape):
        row = t[i]
        best = 0
        for j in range(1, len(row)):
            if bool(better(row[j], row[best])):
                best = j
        out[i] = best
    return out if out.shape != () else int(out)


def _lt(a, b):
    if isinstance(a, SymBool):
        a = a.as_num()
    if isinstance(b, SymBool):
        b = b.as_num()
    return a < b


@handles(np.argmin)
def _argmin(a, axis=None, out=None, keepdims=False):
    r = _argext(a, axis, lambda x, y: _lt(x, y))
    return np.expand_dims(r, axis) if keepdims is True else r


@handles(np.argmax)
def _argmax(a, axis=None, out=None, keepdims=False):
    r = _argext(a, axis, lambda x, y: _lt(y, x))
    return np.expand_dims(r, axis) if keepdims is True else r


def _eq(a, b):
    return compare("eq", a, b)


def _sorted_idx(row):
    """stable insertion sort by symbolic comparison (forks)"""
    idx = []
    for j in range(len(row)):
        p = len(idx)
        while p > 0 and bool(_lt(row[j], row[idx[p - 1]])):
            p -= 1
        idx.insert(p, j)
    return idx


@handles(np.argsort)
def _argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = to_obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    t = np.moveaxis(raw(a), axis, -1)
    out = np.empty(t.shape, dtype=int)
    for i in np.ndindex(t.shape[:-1]):
        out[i] = _sorted_idx(list(t[i]))
    return np.moveaxis(out, -1, axis)


@handles(np.sort)
def _sort(a, axis=-1, kind=None, order=None, stable=None):
    a = to_obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    t = np.moveaxis(raw(a), axis, -1)
    out = np.empty(t.shape, dtype=object)
    for i in np.ndindex(t.shape[:-1]):
        row = list(t[i])
        if CTX[0] is not None and CTX[0].merge:
            # sorting network with min/max merging
            row = list(row)
            for x in range(len(row)):
                for y in range(len(row) - 1 - x):
                    lo, hi = smin(row[y], row[y + 1]), smax(row[y], row[y + 1])
                    row[y], row[y + 1] = lo, hi
            for n, v in enumerate(row):
                out[i + (n,)] = v
        else:
            for n, j in enumerate(_sorted_idx(row)):
                out[i + (n,)] = row[j]
    return wrap(np.moveaxis(out, -1, axis))


def sym_where(c, x=None, y=None):
    if x is None:
        return np.nonzero(c)
    if not has_sym(c):
        c = np.asarray(c)
        xx, yy = raw(to_obj(x)), raw(to_obj(y))
        return wrap(np.where(c, xx, yy)) if np.broadcast_shapes(c.shape, xx.shape, yy.shape) != () else (x if bool(c) else y)
    return elementwise("where", lambda c, a, b: _w(c, a, b), (c, x, y))


def _w(c, a, b):
    c = _tb(c)
    if _isbool(c):
        return a if c else b
    if CTX[0] is not None and not CTX[0].merge:
        return a if bool(c) else b
    return ite(c, a, b)


@handles(np.where)
def _where(c, x=None, y=None):
    return sym_where(c, x, y)


@handles(np.nonzero, np.flatnonzero, np.argwhere)
def _nonzero(a):
    return np.nonzero(force_bool(emap0(_tb, a)))


HANDLERS[np.flatnonzero] = lambda a: np.flatnonzero(force_bool(emap0(_tb, a)))
HANDLERS[np.argwhere] = lambda a: np.argwhere(force_bool(emap0(_tb, a)))


@handles(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    if a_min is not None:
        a = np.maximum(to_obj(a), a_min)
    if a_max is not None:
        a = np.minimum(to_obj(a), a_max)
    return a


@handles(np.real)
def _real(a):
    return a.real if is_sym(a) else to_obj(a).real


@handles(np.imag)
def _imag(a):
    return a.imag if is_sym(a) else to_obj(a).imag


@handles(np.round, np.around)
def _round(a, decimals=0, out=None):
    if decimals:
        return emap(lambda x: sround(x * 10**decimals) / 10**decimals, to_obj(a))
    return emap(sround, to_obj(a))


@handles(np.cumsum)
def _cumsum(a, axis=None, dtype=None, out=None):
    a = to_obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return np.add.accumulate(a, axis=axis)


@handles(np.cumprod)
def _cumprod(a, axis=None, dtype=None, out=None):
    a = to_obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return np.multiply.accumulate(a, axis=axis)


@handles(np.diff)
def _diff(a, n=1, axis=-1, **k):
    a = to_obj(a)
    for _ in range(n):
        t = np.moveaxis(raw(a), axis, 0)
        a = wrap(np.moveaxis(raw(to_obj(wrap(t[1:]) - wrap(t[:-1]))), 0, axis))
    return a


@handles(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.abs(to_obj(a) - to_obj(b)) <= atol + rtol * np.abs(to_obj(b))


@handles(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _all(_isclose(a, b, rtol, atol))


@handles(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    return _all(a == b)


@handles(np.dot)
def _dot(a, b, out=None):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        return matmul(a, b)
    if a.ndim <= 2 and b.ndim == 2:
        return matmul(a, b)
    return _tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 2]))


@handles(np.vdot)
def _vdot(a, b):
    return matmul(to_obj(a).reshape(-1).conj(), to_obj(b).reshape(-1))


@handles(np.inner)
def _inner(a, b):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return _tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 1]))


@handles(np.outer)
def _outer(a, b, out=None):
    a, b = to_obj(a).reshape(-1), to_obj(b).reshape(-1)
    return a[:, None] * b[None, :]


@handles(np.cross)
def _cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = np.moveaxis(to_obj(a), axisa, -1), np.moveaxis(to_obj(b), axisb, -1)
    a, b = to_obj(a), to_obj(b)
    r = np.stack([to_obj(a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]),
                  to_obj(a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2]),
                  to_obj(a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0])], axis=-1)
    return np.moveaxis(r, -1, axisc)


@handles(np.kron)
def _kron(a, b):
    a, b = to_obj(a), to_obj(b)
    nd = max(a.ndim, b.ndim)
    a = a.reshape((1,) * (nd - a.ndim) + a.shape)
    b = b.reshape((1,) * (nd - b.ndim) + b.shape)
    sa = sum(((s, 1) for s in a.shape), ())
    sb = sum(((1, s) for s in b.shape), ())
    r = to_obj(a.reshape(sa) * b.reshape(sb))
    return r.reshape(tuple(x * y for x, y in zip(a.shape, b.shape)))


@handles(np.tensordot)
def _tensordot(a, b, axes=2):
    a, b = to_obj(a), to_obj(b)
    if isinstance(axes, (int, np.integer)):
        ax = list(range(a.ndim - axes, a.ndim))
        bx = list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, (int, np.integer)) else list(ax)
        bx = [bx] if isinstance(bx, (int, np.integer)) else list(bx)
    ax = [x % a.ndim for x in ax]
    bx = [x % b.ndim for x in bx]
    fa = [i for i in range(a.ndim) if i not in ax]
    fb = [i for i in range(b.ndim) if i not in bx]
    n = int(np.prod([a.shape[i] for i in ax])) if ax else 1
    A = np.transpose(raw(a), fa + ax).reshape(-1, n)
    B = np.transpose(raw(b), bx + fb).reshape(n, -1)
    r = raw(to_obj(matmul(wrap(A), wrap(B)))).reshape([a.shape[i] for i in fa] + [b.shape[i] for i in fb])
    return wrap(r) if r.shape != () else r[()]


@handles(np.trace)
def _trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    return _sum(wrap(np.diagonal(raw(to_obj(a)), offset, axis1, axis2)), axis=-1)


@handles(np.einsum_path)
def _einsum_path(*a, **k):
    return ["einsum_path"], ""


@handles(np.einsum)
def _einsum(sub, *ops, out=None, optimize=False, **k):
    if not isinstance(sub, str):
        raise Unsupported("einsum sublist format")
    r = einsum(sub, *ops)
    if out is not None:
        out[...] = r
        return out
    return r


def einsum(sub, *ops):
    ops = [to_obj(o) for o in ops]
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, outs = sub.split("->")
    else:
        ins, outs = sub, None
    ins = ins.split(",")
    assert len(ins) == len(ops)
    # ellipsis -> upper case fresh labels (right aligned)
    nell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            nell = max(nell, o.ndim - len(s.replace("...", "")))
    fresh = [chr(0x100 + i) for i in range(nell)]
    lab = []
    for s, o in zip(ins, ops):
        if "..." in s:
            k = o.ndim - len(s.replace("...", ""))
            s = s.replace("...", "".join(fresh[nell - k:]))
        if len(s) != o.ndim:
            raise ValueError(f"einsum: operand has {o.ndim} dimensions, subscripts {s}")
        lab.append(s)
    if outs is None:
        allc = "".join(lab)
        outs = "".join(fresh) + "".join(sorted(c for c in set(allc) if allc.count(c) == 1 and c not in fresh))
    else:
        outs = outs.replace("...", "".join(fresh))
    dim = {}
    for s, o in zip(lab, ops):
        for c, d in zip(s, o.shape):
            if c in dim and dim[c] != d and 1 not in (dim[c], d):
                raise ValueError("einsum: dimension mismatch")
            dim[c] = max(dim.get(c, 1), d)

    def diagonalise(s, o):
        o = raw(o)
        for c in set(s):
            while s.count(c) > 1:
                i = s.index(c)
                j = s.index(c, i + 1)
                o = np.diagonal(o, axis1=i, axis2=j)
                s = s[:i] + s[i + 1:j] + s[j + 1:] + c
        return s, o

    terms = [diagonalise(s, o) for s, o in zip(lab, ops)]
    cur_s, cur = terms[0]
    rest = terms[1:]
    while rest:
        s2, o2 = rest.pop(0)
        later = set("".join(s for s, _ in rest)) | set(outs)
        res_s = "".join(dict.fromkeys(c for c in cur_s + s2 if c in later))
        con = [c for c in dict.fromkeys(cur_s + s2) if c not in later]
        cur = _contract(cur_s, cur, s2, o2, res_s, con, dim)
        cur_s = res_s
    # final sum/permutation
    con = tuple(i for i, c in enumerate(cur_s) if c not in outs)
    if con:
        cur = raw(to_obj(_sum(wrap(cur), axis=con)))
        cur_s = "".join(c for c in cur_s if c in outs)
    cur = np.transpose(cur, [cur_s.index(c) for c in outs])
    cur = np.array(cur, dtype=object)
    return wrap(cur) if cur.shape != () else cur[()]


def _contract(s1, a, s2, b, out, con, dim):
    """sum over `con` of a*b with output labels `out` (skips zeros)"""
    lab = list(out) + list(con)

    def expand(s, x):
        order = [c for c in lab if c in s]
        x = np.transpose(x, [s.index(c) for c in order])
        sh = [x.shape[order.index(c)] if c in order else 1 for c in lab]
        return x.reshape(sh)
    A, B = expand(s1, a), expand(s2, b)
    sh = tuple(dim[c] for c in out)
    csh = tuple(dim[c] for c in con)
    A = np.broadcast_to(A, sh + csh).reshape(sh + (-1,))
    B = np.broadcast_to(B, sh + csh).reshape(sh + (-1,))
    r = np.empty(sh, dtype=object)
    for i in np.ndindex(sh):
        v = 0.0
        x, y = A[i], B[i]
        for p, q in zip(x, y):
            if _isnum(p) and p == 0 or _isnum(q) and q == 0:
                continue
            v = v + _pyel(p) * _pyel(q)
        r[i] = v
    return r


@handles(np.unique)
def _unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = to_obj(ar)
    if axis is None:
        rows = [(x,) for x in raw(a).reshape(-1)]
    else:
        t = np.moveaxis(raw(a), axis, 0)
        rows = [tuple(x.reshape(-1)) for x in t]

    def lt(x, y):
        for p, q in zip(x, y):
            if bool(_lt(p, q)):
                return True
            if not bool(_eq(p, q)):
                return False
        return False
    idx = []
    for j in range(len(rows)):
        p = len(idx)
        while p > 0 and lt(rows[j], rows[idx[p - 1]]):
            p -= 1
        idx.insert(p, j)
    first, inverse, counts = [], np.zeros(len(rows), dtype=int), []
    for j in idx:
        # stable order: the first one of equal values has the lowest index
        if not first or not all(bool(_eq(x, y)) for x, y in zip(rows[j], rows[first[-1]])):
            first.append(j)
            counts.append(0)
        inverse[j] = len(first) - 1
        counts[-1] += 1
    if axis is None:
        r = np.empty(len(first), dtype=object)
        for i, j in enumerate(first):
            r[i] = rows[j][0]
    else:
        r = np.moveaxis(t[first], 0, axis)
    r = wrap(r)
    if not (return_index or return_inverse or return_counts):
        return r
    return (r,) + ((np.array(first, dtype=int),) if return_index else ()) + ((inverse,) if return_inverse else ()) + ((np.array(counts),) if return_counts else ())


@handles(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("np.interp(period)")
    xp, fp = to_obj(xp), to_obj(fp)
    n = len(xp)

    def one(v):
        if bool(v <= xp[0]):
            return fp[0] if left is None or not bool(v < xp[0]) else left
        if bool(v >= xp[n - 1]):
            return fp[n - 1] if right is None or not bool(v > xp[n - 1]) else right
        for i in range(n - 1):
            if i == n - 2 or bool(v < xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
    return emap(one, to_obj(x))


@handles(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    a = to_obj(a)
    if sorter is not None:
        a = a[sorter]

    def one(x):
        i = 0
        while i < len(a) and bool(a[i] < x if side == "left" else a[i] <= x):
            i += 1
        return i
    r = emap(one, to_obj(v))
    return r if not isinstance(r, SA) else demote(r)


@handles(np.digitize)
def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, "left" if right else "right")


@handles(np.trapezoid)
def _trapezoid(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(to_obj(y), axis, -1)
    d = dx if x is None else np.diff(x)
    return _sum(d * (y[..., 1:] + y[..., :-1]) * 0.5, axis=-1)


@handles(np.zeros_like)
def _zeros_like(a, dtype=None, order=None, subok=None, shape=None, **k):
    sh = np.shape(raw(to_obj(a))) if shape is None else shape
    return full(sh, 0.0, dtype if dtype is not None or not isinstance(a, SA) or not a.fk else float)


@handles(np.ones_like)
def _ones_like(a, dtype=None, order=None, subok=None, shape=None, **k):
    sh = np.shape(raw(to_obj(a))) if shape is None else shape
    return full(sh, 1.0, dtype if dtype is not None or not isinstance(a, SA) or not a.fk else float)


@handles(np.empty_like)
def _empty_like(a, dtype=None, order=None, subok=None, shape=None, **k):
    return _zeros_like(a, dtype, shape=shape)


@handles(np.full_like)
def _full_like(a, fill_value, dtype=None, order=None, subok=None, shape=None, **k):
    sh = np.shape(raw(to_obj(a))) if shape is None else shape
    return full(sh, fill_value, dtype)


RESULT_TYPE[np.zeros_like] = _zeros_like
RESULT_TYPE[np.ones_like] = _ones_like
RESULT_TYPE[np.empty_like] = _empty_like
RESULT_TYPE[np.full_like] = _full_like


def full(shape, val, dtype=None):
    """numeric kinds other than float/complex stay numeric"""
    if dtype is not None and np.dtype(dtype).kind in "iub":
        if is_sym(val):
            val = val
        else:
            return np.full(shape, val, dtype=dtype)
    r = np.empty(shape, dtype=object)
    if isinstance(val, np.ndarray):
        r[...] = raw(val)
    else:
        r[...] = val
    r = wrap(r)
    if dtype is not None and np.dtype(dtype).kind == "f":
        mark(r)
    return r


@handles(np.linspace)
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    start, stop = to_obj(start), to_obj(stop)
    div = (num - 1) if endpoint else num
    d = stop - start
    t = [start + d * (i / div if div else 0.0) for i in range(num)]
    if endpoint and num > 1:
        t[-1] = stop + (start * 0)
    r = np.stack([to_obj(x) for x in t], axis=axis) if num else wrap(np.zeros((0,), dtype=object))
    if retstep:
        return r, d / div
    return r


@handles(np.polyval)
def _polyval(p, x):
    y = 0.0
    for c in p:
        y = y * x + c
    return y


# --- linalg ------------------------------------------------------------------------------------------------------------

@handles(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    x = to_obj(x)
    if axis is None and ord is None:
        s = _sum(_abs2(x))
        return ssqrt_e(s)
    if ord in (None, 2, "fro") and (axis is not None or x.ndim == 1):
        return elementwise("sqrt", _num(UNARY["sqrt"]), (_sum(_abs2(x), axis=axis, keepdims=keepdims),))
    if ord in (np.inf,) and x.ndim == 1:
        return _max(np.abs(x))
    if ord == 1 and x.ndim == 1:
        return _sum(np.abs(x))
    if ord == "fro":
        return ssqrt_e(_sum(_abs2(x)))
    raise Unsupported(f"norm ord={ord}")


def _abs2(x):
    return emap0(lambda v: (v * v.conjugate()).real if isinstance(v, (Sym, complex)) else v * v, x)


def ssqrt_e(s):
    return UNARY["sqrt"](s)


def det_rec(m):
    n = len(m)
    if n == 0:
        return 1.0
    if n == 1:
        return m[0][0]
    r = 0.0
    for j in range(n):
        if _isnum(m[0][j]) and m[0][j] == 0:
            continue
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        r = r + (-1)**j * m[0][j] * det_rec(minor)
    return r


@handles(np.linalg.det)
def _det(a):
    a = raw(to_obj(a))
    out = np.empty(a.shape[:-2], dtype=object)
    for i in np.ndindex(out.shape):
        if a.shape[-1] > 5:
            raise Unsupported("symbolic determinant larger than 5x5")
        out[i] = det_rec([[_pyel(v) for v in row] for row in a[i].tolist()])
    return wrap(out) if out.shape != () else out[()]


def inv_mat(m):
    n = len(m)
    d = det_rec(m)
    if n == 1:
        return [[_div(1.0, d)]]
    di = _div(1.0, d)
    res = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
            res[j][i] = (-1)**(i + j) * det_rec(minor) * di
    return res


@handles(np.linalg.inv)
def _inv(a):
    a = raw(to_obj(a))
    if a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape[:-2]):
        if a.shape[-1] > 4:
            raise Unsupported("symbolic inverse larger than 4x4")
        r = inv_mat([[_pyel(v) for v in row] for row in a[i].tolist()])
        for p in range(len(r)):
            for q in range(len(r)):
                out[i + (p, q)] = r[p][q]
    return wrap(out)


@handles(np.linalg.solve)
def _solve(a, b):
    b = to_obj(b)
    ai = _inv(a)
    if b.ndim == 1:
        return matmul(ai, b)
    return matmul(ai, b)


@handles(np.linalg.pinv)
def _pinv(a, rcond=None, hermitian=False, **k):
    a = to_obj(a)
    if a.shape[-1] == a.shape[-2]:
        return _inv(a)
    at = np.conj(np.swapaxes(a, -1, -2))
    if a.shape[-2] > a.shape[-1]:
        return matmul(_inv(matmul(at, a)), at)
    return matmul(at, _inv(matmul(a, at)))


@handles(np.linalg.matrix_power)
def _matrix_power(a, n):
    if n < 0:
        a, n = _inv(a), -n
    r = full((a.shape[-1],) * 2, 0.0)
    for i in range(a.shape[-1]):
        r[i, i] = 1.0
    for _ in range(n):
        r = matmul(r, a)
    return r


def _lstsq(a, b, rcond=None):
    """solution of full rank systems"""
    if "lstsq" in HOOKS:
        return HOOKS["lstsq"](a, b, rcond)
    a, b = wrap(to_obj(a)), wrap(to_obj(b))
    at = np.swapaxes(a, -1, -2).conj()
    if a.shape[0] == a.shape[1]:
        x = np.linalg.solve(a, b)
    elif a.shape[0] > a.shape[1]:
        x = matmul(_inv(matmul(at, a)), matmul(at, b))
    else:
        x = matmul(at, matmul(_inv(matmul(a, at)), b))
    return x, None, min(a.shape), None


HANDLERS[np.linalg.lstsq] = _lstsq
HOOKS = {}          # contract stubs installed by a harness: eigh, eigvalsh, qr, svd, cholesky, lstsq ...


def _hook(name):
    def f(*a, **k):
        if name in HOOKS:
            return HOOKS[name](*a, **k)
        raise Unsupported(f"np.linalg.{name} on symbolic values without a contract")
    return f


for _n in ("eigh", "eigvalsh", "qr", "svd", "cholesky", "eig", "eigvals", "matrix_rank"):
    HANDLERS[getattr(np.linalg, _n)] = _hook(_n)
