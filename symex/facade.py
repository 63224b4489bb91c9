"""stand-ins for numpy / scipy / math / builtins seen by the symbolically executed modules"""
import builtins
import collections.abc
import math
import types
import cmath
import numpy as np
import scipy
import scipy.special
import scipy.linalg
import scipy.optimize
import scipy.spatial
import scipy.interpolate
from .poly import (Sym, SymBool, Unsupported, _isnum, _isbool, CTX, smax, smin, sabs, ssqrt, sexp, slog, scos, ssin,
                   stan, sfn, sfloor, sround, compare, bnot, strunc, inv)
from . import sarr, poly
from .sarr import SA, is_sym, has_sym, to_obj, raw, wrap, demote, full, promote, emap


def _kind(dtype):
    if dtype is None:
        return None
    if dtype in (real_float, float):
        return "f"
    if dtype in (real_int,):
        return "i"
    if dtype in (real_complex,):
        return "c"
    return np.dtype(dtype).kind


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class real_float(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SA):
            x = x.item()
        if isinstance(x, SymBool):
            return x.as_num()
        if isinstance(x, Sym):
            if x.is_const():
                return builtins.float(x)
            if not x.is_real():
                raise TypeError("can't convert complex to float")
            return Sym.of(x.real)
        if isinstance(x, str):
            t = poly.untoken(x)
            if t is not None:
                return t
        return builtins.float(x)


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.complex)

    def __eq__(cls, o):
        return o is cls or o is builtins.complex

    def __hash__(cls):
        return hash(builtins.complex)


class real_complex(builtins.complex, metaclass=_ComplexMeta):
    def __new__(cls, re=0.0, im=0.0):
        if is_sym(re) or is_sym(im):
            return re + 1j * im
        return builtins.complex(re, im) if not isinstance(re, builtins.str) else builtins.complex(re)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class real_int(builtins.int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        tok = getattr(x, "__sym_int__", None)
        if tok is not None:
            return tok()
        return builtins.int(x, *a)


def _fixdtype(dtype):
    if dtype is real_float:
        return builtins.float
    if dtype is real_complex:
        return builtins.complex
    if dtype is real_int:
        return builtins.int
    return dtype


class Facade(types.ModuleType):
    """module look-alike that falls back to the wrapped module"""

    def __init__(self, name, base, over):
        super().__init__(name)
        self.__dict__["_base"] = base
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_base"], name)


# --- numpy -------------------------------------------------------------------------------------------------------------

def zeros(shape, dtype=None, order="C", **k):
    return full(_shape(shape), 0.0, builtins.float if dtype is None else _fixdtype(dtype)) if _fk(dtype) else np.zeros(shape, _fixdtype(dtype))


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(builtins.int(x) for x in s)
    return (builtins.int(s),)


def _fk(dtype):
    return dtype is None or _kind(dtype) in "fcO"


def ones(shape, dtype=None, order="C", **k):
    return full(_shape(shape), 1.0, builtins.float if dtype is None else _fixdtype(dtype)) if _fk(dtype) else np.ones(shape, _fixdtype(dtype))


def empty(shape, dtype=None, order="C", **k):
    return full(_shape(shape), 0.0, builtins.float if dtype is None else _fixdtype(dtype)) if _fk(dtype) else np.zeros(shape, _fixdtype(dtype))


def np_full(shape, fill_value, dtype=None, order="C", **k):
    dt = _fixdtype(dtype)
    if dt is None:
        if is_sym(fill_value) or isinstance(fill_value, SA):
            return full(_shape(shape), fill_value)
        r = np.full(shape, fill_value)
        return promote(r)
    return full(_shape(shape), fill_value, dt)


def eye(N, M=None, k=0, dtype=None, order="C", **kw):
    r = np.eye(N, M, k)
    return (sarr.mark(to_obj(r)) if dtype is None or _kind(dtype) == "f" else to_obj(r)) if _fk(dtype) else r.astype(_fixdtype(dtype))


def array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    dtype = _fixdtype(dtype)
    if isinstance(obj, collections.abc.Sequence) and not isinstance(obj, (list, tuple, str, bytes, range)):
        # numpy reads sequences like lists
        obj = [obj[i] for i in builtins.range(len(obj))]
    if is_sym(obj) or has_sym(obj):
        obj2 = to_obj(obj)
        if obj2 is obj:
            obj2 = obj.copy()
        while obj2.ndim < ndmin:
            obj2 = obj2[None]
        if dtype is not None:
            return sarr.astype_arr(obj2, dtype)
        d = None
        if obj2.size and all(isinstance(x, (builtins.int, np.integer)) for x in raw(obj2).flat):
            d = demote(obj2)
        if obj2.size and all(_isbool(x) for x in raw(obj2).flat):
            d = demote(obj2)
        return obj2 if d is None else d
    r = np.array(obj, dtype=dtype, ndmin=ndmin) if copy is None else np.array(obj, dtype=dtype, ndmin=ndmin)
    return _pr(r)


PROMOTE_ALL = [True]


def _pr(r):
    """float arrays become SA so that symbolic values can be stored in them"""
    if PROMOTE_ALL[0] and isinstance(r, np.ndarray) and not isinstance(r, SA) and r.dtype.kind in "fc" and r.shape != ():
        return to_obj(r)
    return r


def asarray(obj, dtype=None, order=None, **k):
    if isinstance(obj, SA) and dtype is None:
        return obj
    if isinstance(obj, np.ndarray) and not isinstance(obj, SA) and dtype is None:
        return obj
    return array(obj, dtype)


def _sa_out(f):
    def g(*a, **k):
        for kk in ("dtype",):
            if kk in k:
                k[kk] = _fixdtype(k[kk])
        if any(is_sym(x) or isinstance(x, SA) or has_sym(x) for x in a):
            r = f(*[to_obj(x) if isinstance(x, (list, tuple)) and has_sym(x) and f not in LISTARG else x for x in a], **k)
        else:
            r = f(*a, **k)
        return _prt(r)
    g.__name__ = getattr(f, "__name__", "f")
    return g


def _prt(r):
    if isinstance(r, np.ndarray):
        return _pr(r)
    return r


def arange(*a, dtype=None, **k):
    if any(is_sym(x) for x in a):
        a = [builtins.float(x) if is_sym(x) and x.is_const() else x for x in a]
        if any(is_sym(x) for x in a):
            raise Unsupported("arange with symbolic bounds")
    return _pr(np.arange(*a, dtype=_fixdtype(dtype)))


def linspace(start, stop, num=50, *a, **k):
    if has_sym(start) or has_sym(stop):
        return sarr._linspace(start, stop, num, *a, **k)
    return _pr(np.linspace(start, stop, num, *a, **k))


def np_block(x):
    if has_sym(x):
        return _block(x)
    return _pr(np.block(x))


def _block(x):
    if isinstance(x, list):
        depth = 0
        y = x
        while isinstance(y, list):
            depth += 1
            y = y[0]

        def rec(z, d):
            if isinstance(z, list):
                parts = [rec(w, d - 1) for w in z]
                return wrap(np.concatenate([raw(p) for p in parts], axis=-d))
            z = to_obj(z)
            while z.ndim < max(depth, 1):
                z = z[None]
            return z
        return rec(x, depth)
    return to_obj(x)


def finfo(x):
    return np.finfo(_fixdtype(x))


def promote_types(a, b):
    return np.promote_types(_fixdtype(a), _fixdtype(b))


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def iscomplexobj(x):
    if is_sym(x) or isinstance(x, SA):
        return any(isinstance(v, builtins.complex) or (isinstance(v, Sym) and not v.is_real()) for v in raw(to_obj(x)).flat)
    return np.iscomplexobj(x)


def np_float64(x=0.0):
    return real_float(x)


class _F64Meta(type(np.float64)):
    pass


def ascontig(x, dtype=None, **k):
    return asarray(x, dtype)


def fft_unsupported(*a, **k):
    raise Unsupported("fft")


def frompyfunc(f, nin, nout):
    return np.frompyfunc(f, nin, nout)


def vectorize(f, *a, **k):
    def g(*args):
        return sarr.elementwise("vec", f, args)
    return g


def apply_along_axis(f, axis, arr, *a, **k):
    arr = np.moveaxis(to_obj(arr), axis, -1)
    out = [f(arr[i], *a, **k) for i in np.ndindex(arr.shape[:-1])]
    r = to_obj(out)
    r = r.reshape(arr.shape[:-1] + r.shape[1:])
    return np.moveaxis(r, -1, axis) if r.ndim == arr.ndim else r


def np_fromiter(it, dtype=None, count=-1, **k):
    return array(list(it), dtype)


def _list2obj(f):
    """numpy array-function called with lists containing symbolic scalars: __array_function__ is only triggered for
    array-likes, lists have to be converted first"""
    def g(*a, **k):
        a = [to_obj(x) if isinstance(x, (list, tuple)) and x and has_sym(x) and not any(isinstance(y, (list, tuple, np.ndarray)) for y in x) else
             (to_obj(x) if isinstance(x, (list, tuple)) and (_nested_sym_scalars(x) or _list_of_sa(f, x)) else x) for x in a]
        if "dtype" in k:
            k["dtype"] = _fixdtype(k["dtype"])
        r = _prt(f(*a, **k))
        return np.float64(r) if type(r) is float else r # inf instead of ZeroDivisionError, as in numpy
    g.__name__ = f.__name__
    return g


def _nested_sym_scalars(x):
    if isinstance(x, (list, tuple)):
        return any(_nested_sym_scalars(y) or is_sym(y) for y in x)
    return False


def _list_of_sa(f, x):
    """list of symbolic arrays of the same shape used as one array"""
    return f is not np.linalg.multi_dot and isinstance(x, (list, tuple)) and any(isinstance(y, SA) for y in x) \
        and len({np.shape(y) for y in x}) == 1


LISTARG = {np.concatenate, np.stack, np.vstack, np.hstack, np.meshgrid, np.block, np.column_stack}


def _seqarg(f):
    """functions that take a sequence of arrays"""
    def g(seq, *a, **k):
        if "dtype" in k:
            k["dtype"] = _fixdtype(k["dtype"])
        if isinstance(seq, np.ndarray):
            seq2 = seq
        else:
            seq2 = [to_obj(x) if has_sym(x) and not isinstance(x, SA) else x for x in seq]
        if isinstance(seq2, SA):
            seq2 = [seq2[i] for i in range(len(seq2))]
            seq2 = [to_obj(x) for x in seq2]
        r = f(seq2, *a, **k)
        return _prt(r)
    g.__name__ = f.__name__
    return g


def np_round(x, decimals=0, out=None):
    if is_sym(x) or isinstance(x, SA) or has_sym(x):
        return sarr._round(to_obj(x), decimals) if not is_sym(x) else sround(x)
    return np.round(x, decimals)


class _RandomFacade(types.ModuleType):
    pass


def make_numpy():
    over = dict(zeros=zeros, ones=ones, empty=empty, full=np_full, eye=eye, identity=eye, array=array, asarray=asarray,
                asanyarray=asarray, ascontiguousarray=ascontig, asfarray=asarray, arange=arange, linspace=linspace,
                block=np_block, finfo=finfo, promote_types=promote_types, isscalar=isscalar, iscomplexobj=iscomplexobj,
                vectorize=vectorize, apply_along_axis=apply_along_axis, fromiter=np_fromiter, round=np_round,
                around=np_round)
    over["isrealobj"] = lambda x: not iscomplexobj(x)
    for name in ("concatenate", "stack", "vstack", "hstack", "column_stack", "dstack"):
        over[name] = _seqarg(getattr(np, name))
    lin_over = {}
    handled = ["sum", "prod", "mean", "average", "var", "std", "max", "min", "amax", "amin", "nanmax", "nanmin", "ptp",
               "all", "any", "argmin", "argmax", "argsort", "sort", "where", "nonzero", "flatnonzero", "argwhere",
               "clip", "real", "imag", "cumsum", "cumprod", "diff", "isclose", "allclose", "array_equal", "dot", "vdot",
               "inner", "outer", "cross", "kron", "tensordot", "trace", "einsum", "unique", "interp", "searchsorted",
               "digitize", "trapezoid", "zeros_like", "ones_like", "empty_like", "full_like", "transpose", "reshape",
               "swapaxes", "moveaxis", "roll", "tile", "repeat", "ravel", "squeeze", "expand_dims", "broadcast_to",
               "diagonal", "flip", "fliplr", "flipud", "atleast_1d", "atleast_2d", "atleast_3d", "delete", "insert",
               "append", "take_along_axis", "copy", "triu", "tril", "diag", "diagflat", "pad", "count_nonzero", "take",
               "shape", "ndim", "size", "iscomplex", "isreal"]
    for name in handled:
        if hasattr(np, name):
            over[name] = _list2obj(getattr(np, name))
    for name in ("norm", "det", "inv", "solve", "pinv", "eigh", "eigvalsh", "qr", "svd", "cholesky", "lstsq",
                 "matrix_power", "eig", "eigvals", "multi_dot"):
        lin_over[name] = _list2obj(getattr(np.linalg, name))
    over["linalg"] = Facade("numpy.linalg", np.linalg, lin_over)
    # ufuncs on lists of symbolic values
    for name in dir(np):
        f = getattr(np, name)
        if isinstance(f, np.ufunc) and name not in over:
            over[name] = UfuncFacade(f)
    over["abs"] = over["absolute"]
    over["conj"] = over["conjugate"]
    rnd = Facade("numpy.random", np.random, {})
    over["random"] = rnd
    over["savetxt"] = _nofile
    return Facade("numpy", np, over)


def _nofile(*a, **k):
    raise Unsupported("file access")


class UfuncFacade:
    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        a = [to_obj(x) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a]
        if "dtype" in k:
            k["dtype"] = _fixdtype(k["dtype"])
        return _prt(self._f(*a, **k))

    def __getattr__(self, name):
        return getattr(self._f, name)

    def at(self, a, idx, b=None):
        if isinstance(a, SA):
            return sarr.scatter(self._f.__name__, a, sarr.fix_index(idx), b)
        return self._f.at(a, sarr.fix_index(idx), b)

    def outer(self, a, b, **k):
        return self._f.outer(to_obj(a) if has_sym(a) else a, to_obj(b) if has_sym(b) else b, **k)


# --- math -------------------------------------------------------------------------------------------------------------

def _m(name, sf):
    real = getattr(math, name)

    def f(x, *a):
        if isinstance(x, SA):
            x = x.item()
        if isinstance(x, SymBool):
            x = x.as_num()
        if isinstance(x, Sym):
            return sf(x)
        return real(x, *a)
    return f


def make_math():
    over = {n: _m(n, s) for n, s in dict(sqrt=ssqrt, exp=sexp, log=slog, cos=scos, sin=ssin, tan=stan, floor=sfloor,
            ceil=lambda x: -Sym.of(sfloor(-x)), fabs=sabs, trunc=strunc,
            acos=lambda x: sfn("arccos", x), asin=lambda x: sfn("arcsin", x), atan=lambda x: sfn("arctan", x),
            isfinite=lambda x: True, isnan=lambda x: False, isinf=lambda x: False, cbrt=lambda x: sfn("cbrt", x),
            tanh=lambda x: sarr._tanh(x)).items()}

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            return sabs(a - b) <= smax(rel_tol * smax(sabs(a), sabs(b)), abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def prod(it, start=1):
        for x in it:
            start = start * x
        return start

    def hypot(*a):
        if any(is_sym(x) for x in a):
            return ssqrt(builtins.sum(x * x for x in a))
        return math.hypot(*a)

    def fsum(it):
        return builtins.sum(it)
    over.update(isclose=isclose, prod=prod, hypot=hypot, fsum=fsum)
    return Facade("math", math, over)


# --- scipy ------------------------------------------------------------------------------------------------------------

class KDTreeFacade:
    """concrete point sets only"""

    def __init__(self, data, *a, **k):
        d = demote(data) if isinstance(data, SA) else data
        if isinstance(data, (list, tuple)):
            d = demote(to_obj(data))
        if d is None:
            return self._sym_init(data, *a, **k)
        self._t = scipy.spatial.KDTree(d, *a, **k)

    def _sym_init(self, data, *a, **k):
        raise Unsupported("KDTree over symbolic points")

    def __getattr__(self, name):
        if name == "_t":
            raise AttributeError(name)
        f = getattr(self._t, name)
        if callable(f):
            def g(*a, **k):
                a2 = []
                for x in a:
                    y = x
                    if isinstance(x, KDTreeFacade):
                        y = x._t
                    elif isinstance(x, SA) or has_sym(x):
                        y = demote(to_obj(x))
                        if y is None:
                            raise Unsupported("KDTree query with a symbolic point")
                    a2.append(y)
                return f(*a2, **k)
            return g
        return f


def _sci_linalg(name):
    real = getattr(scipy.linalg, name)

    def f(*a, **k):
        if any(has_sym(x) for x in a):
            d = [sarr.deep_demote(x) for x in a]
            if all(ok for ok, _ in d):
                return promote(real(*[x for _, x in d], **k))
            hk = "scipy." + name
            if hk in sarr.HOOKS:
                return sarr.HOOKS[hk](*a, **k)
            if name in ("inv", "det", "solve", "norm", "pinv"):
                return getattr(np.linalg, name)(*[to_obj(x) for x in a])
            raise Unsupported(f"scipy.linalg.{name} on symbolic values without a contract")
        return promote(real(*a, **k))
    return f


def _lsa(cost, maximize=False):
    """linear_sum_assignment by enumerating assignments (contract: the optimal one), forks on comparisons"""
    c = to_obj(cost)
    d = demote(c)
    if d is not None:
        return scipy.optimize.linear_sum_assignment(d, maximize)
    import itertools
    n, m = c.shape
    best = None
    sgn = -1 if maximize else 1
    if n <= m:
        cands = [(list(range(n)), list(p)) for p in itertools.permutations(range(m), n)]
    else:
        cands = []
        for p in itertools.permutations(range(n), m):
            pairs = sorted(zip(p, range(m)))
            cands.append(([x for x, _ in pairs], [y for _, y in pairs]))
    for r, cc in cands:
        s = 0.0
        for i, j in zip(r, cc):
            s = s + sgn * c[i, j]
        if best is None or bool(s < best[0]):
            best = (s, r, cc)
    return np.array(best[1], dtype=int), np.array(best[2], dtype=int)


def make_scipy():
    lin = Facade("scipy.linalg", scipy.linalg, {n: _sci_linalg(n) for n in
                 ("eigh", "eigvalsh", "inv", "det", "solve", "norm", "pinv", "cholesky", "qr", "expm", "sqrtm", "polar",
                  "null_space", "orth", "svd")})
    special = Facade("scipy.special", scipy.special, dict(SPECIAL))
    optimize = Facade("scipy.optimize", scipy.optimize, dict(linear_sum_assignment=_lsa, **OPTIMIZE))
    spatial = Facade("scipy.spatial", scipy.spatial, dict(KDTree=KDTreeFacade, cKDTree=KDTreeFacade))
    interpolate = Facade("scipy.interpolate", scipy.interpolate, dict(INTERPOLATE))
    top = Facade("scipy", scipy, dict(linalg=lin, special=special, optimize=optimize, spatial=spatial,
                                      interpolate=interpolate))
    return top


def _sf(name, sf):
    real = getattr(scipy.special, name)

    def f(x, *a, **k):
        if isinstance(x, (SA, list, tuple)) and has_sym(x) or isinstance(x, SA):
            return wrap(sarr.emap(f, to_obj(x)))
        if isinstance(x, SymBool):
            x = x.as_num()
        return sf(x) if isinstance(x, Sym) else _pr(real(x, *a, **k))
    return f


def _expit(x, log):
    """saturated outside of +-45, where the difference is below 1e-19"""
    lo, hi = poly.poly_range(x)
    if lo > 45:
        return 0.0 if log else 1.0
    if hi < -45:
        return x if log else 0.0
    return -slog(1 + sexp(-x)) if log else poly.inv(1 + sexp(-x))


SPECIAL = {n: _sf(n, f) for n, f in dict(
    expit=lambda x: _expit(x, False), log_expit=lambda x: _expit(x, True), logit=lambda x: slog(x) - slog(1 - x),
    spence=lambda x: sfn("spence", x), log1p=lambda x: slog(1 + x)).items()}
OPTIMIZE = {}
class GridInterpolator:
    """RegularGridInterpolator: exact for the linear method, other methods are only defined at the nodes (contract:
    they interpolate the values)"""

    def __init__(self, points, values, method="linear", bounds_error=True, fill_value=np.nan, **k):
        pts = []
        for p in points:
            d = demote(to_obj(p))
            if d is None:
                raise Unsupported("interpolation on symbolic nodes")
            d = np.asarray(d, dtype=float)
            if d.ndim != 1 or np.any(np.diff(d) <= 0):
                raise ValueError("The points in dimension must be strictly ascending")
            pts.append(d)
        self.grid = tuple(pts)
        self.values = to_obj(values)
        if self.values.shape[:len(pts)] != tuple(len(p) for p in pts):
            raise ValueError("There are %d points and %d values on dimension" % (len(pts[0]), self.values.shape[0]))
        if method != "linear" and min(len(p) for p in pts) < dict(slinear=2, cubic=4, quintic=6).get(method, 2):
            raise ValueError(f"There are {len(pts[0])} points in dimension 0, but method {method} requires more")
        self.method, self.bounds_error, self.fill = method, bounds_error, fill_value

    def __call__(self, xi, method=None):
        method = method or self.method
        n = len(self.grid)
        if isinstance(xi, tuple):
            xi = np.stack(np.broadcast_arrays(*[to_obj(x) for x in xi]), axis=-1)
        x = to_obj(xi)
        if x.ndim == 1 and n == 1:
            x = x.reshape(-1, 1)
        if x.shape[-1] != n:
            raise ValueError(f"The requested sample points xi have dimension {x.shape[-1]} but this RegularGridInterpolator has dimension {n}")
        out = [self._one(p, method) for p in x.reshape(-1, n)]
        tail = self.values.shape[n:]
        r = np.empty((len(out),) + tail, dtype=object)
        for i, o in enumerate(out):
            r[i] = o
        return wrap(r.reshape(x.shape[:-1] + tail))

    def _one(self, p, method):
        idx, wts = [], []
        for x, g in zip(p, self.grid):
            if bool(x < g[0]) or bool(x > g[-1]):
                if self.bounds_error:
                    raise ValueError("One of the requested xi is out of bounds in dimension")
                return np.full(self.values.shape[len(self.grid):], self.fill, dtype=object)
            i = 0
            while i < len(g) - 2 and bool(x >= g[i + 1]):
                i += 1
            idx.append(i)
            wts.append((x - g[i]) / (g[i + 1] - g[i]))
        if method != "linear":
            for j, w in enumerate(wts):
                if isinstance(w, Sym) and not w.is_const():
                    raise Unsupported(f"{method} interpolation between the nodes")
                w = builtins.float(w)
                if min(abs(w), abs(w - 1)) > 1e-9:
                    raise Unsupported(f"{method} interpolation between the nodes")
                wts[j] = builtins.float(np.round(w))
        r = 0.0
        import itertools
        for c in itertools.product((0, 1), repeat=len(idx)):
            f = 1.0
            for k, w in zip(c, wts):
                f = f * (w if k else 1.0 - w)
            if isinstance(f, (int, builtins.float)) and f == 0.0:
                continue
            r = r + f * self.values[tuple(i + k for i, k in zip(idx, c))]
        return r


def _grid_interpolator(points, values, *a, **k):
    return GridInterpolator(points, values, *a, **k)


INTERPOLATE = dict(RegularGridInterpolator=_grid_interpolator)


# --- builtins ----------------------------------------------------------------------------------------------------------

def b_max(*a, key=None, default=None):
    if key is None and (len(a) > 1 or not isinstance(a[0], (SA,))):
        items = list(a) if len(a) > 1 else list(a[0])
        if items and any(isinstance(x, Sym) for x in items) and all(isinstance(x, Sym) or _isnum(x) for x in items):
            r = items[0]
            for x in items[1:]:
                r = smax(r, x)
            return r
        if not items and default is not None:
            return default
        return builtins.max(items)
    return builtins.max(*a, **({"key": key} if key is not None else {}))


def b_min(*a, key=None, default=None):
    if key is None and (len(a) > 1 or not isinstance(a[0], (SA,))):
        items = list(a) if len(a) > 1 else list(a[0])
        if items and any(isinstance(x, Sym) for x in items) and all(isinstance(x, Sym) or _isnum(x) for x in items):
            r = items[0]
            for x in items[1:]:
                r = smin(r, x)
            return r
        if not items and default is not None:
            return default
        return builtins.min(items)
    return builtins.min(*a, **({"key": key} if key is not None else {}))


def b_abs(x):
    return abs(x)


def b_print(*a, **k):
    """output is dropped unless a harness collects it"""
    import io, sys
    if isinstance(sys.stdout, io.StringIO):
        builtins.print(*a, **k)


def b_chr(i):
    return builtins.chr(int(i) if is_sym(i) else i)


def b_open(*a, **k):
    if "open" in FILES:
        return FILES["open"](*a, **k)
    raise Unsupported("file access")


FILES = {}
def _u(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f
