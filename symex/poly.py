"""Symbolic scalars: sparse polynomials with complex coefficients over atoms.

Atoms are real valued (variables, square roots, inverses, if-then-else values, uninterpreted functions) or phases
z = exp(i*theta*scale) of an angle variable (conj(z) = z^-1; integer or fractional powers).  Every arithmetic operation
of the code under test on a symbolic value ends up here; nothing is sampled.
"""
import math
import cmath
import numbers
from fractions import Fraction
import numpy as np
import scipy.special


class Unsupported(Exception):
    """the encoding cannot express an operation (never a verdict)"""


CTX = [None]          # the active exploration context (engine.PathCtx)

REL_DROP = 1e-12      # coefficients that cancel to below this relative size are dropped (float rounding of constants)


class Atom:
    __slots__ = ("idx", "kind", "key", "name", "args", "lo", "hi", "scale", "conj")
    # kind: var, phase, sqrt, inv, ite, fn

    def __repr__(self):
        return f"<{self.kind} {self.name or self.idx}>"


class Table:
    def __init__(self):
        self.atoms = []
        self.by_key = {}

    def get(self, kind, key, **kw):
        k = (kind, key)
        a = self.by_key.get(k)
        if a is None:
            a = Atom()
            a.idx = len(self.atoms)
            a.kind = kind
            a.key = k
            a.name = kw.get("name")
            a.args = kw.get("args", ())
            a.lo = kw.get("lo")
            a.hi = kw.get("hi")
            a.scale = kw.get("scale", 1.0)
            self.atoms.append(a)
            self.by_key[k] = a
        return a


TABLE = Table()


def reset_table():
    global TABLE
    TABLE.atoms.clear()
    TABLE.by_key.clear()


def _isnum(x):
    return isinstance(x, (int, float, complex, np.number, np.bool_)) and not isinstance(x, Sym)


def _c(x):
    """normalise a python/numpy number to float or complex"""
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return x if x.imag != 0 else x.real
    return float(x)


def mono_mul(a, b):
    """merge two monomials; returns (mono, needs_reduction)"""
    if not a:
        return b, False
    if not b:
        return a, False
    res = []
    i = j = 0
    red = False
    atoms = TABLE.atoms
    while i < len(a) and j < len(b):
        if a[i][0] < b[j][0]:
            res.append(a[i])
            i += 1
        elif a[i][0] > b[j][0]:
            res.append(b[j])
            j += 1
        else:
            e = a[i][1] + b[j][1]
            if e != 0:
                res.append((a[i][0], e))
                k = atoms[a[i][0]].kind
                if k == "sqrt" and e >= 2:
                    red = True
                elif k == "bit" and e != 1:
                    red = True
            i += 1
            j += 1
    res.extend(a[i:])
    res.extend(b[j:])
    return tuple(res), red


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # --- construction -------------------------------------------------------------------------------------------
    @staticmethod
    def const(c):
        c = _c(c)
        return Sym({(): c} if c != 0 else {})

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x.as_num()
        if _isnum(x):
            return Sym.const(x)
        if isinstance(x, Fraction):
            return Sym.const(float(x))
        if isinstance(x, np.ndarray) and x.shape == ():
            return Sym.of(x.item())
        raise Unsupported(f"cannot make a symbolic number from {type(x)}")

    @staticmethod
    def atom(a, e=1):
        return Sym({((a.idx, e),): 1.0})

    # --- inspection ---------------------------------------------------------------------------------------------
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def value(self):
        return self.t.get((), 0.0)

    def simp(self):
        """a python number if constant"""
        if self.is_const():
            return self.value()
        return self

    def is_real(self):
        real_only = True
        for m, c in self.t.items():
            if isinstance(c, complex) and c.imag != 0:
                real_only = False
                break
            for (i, e) in m:
                if TABLE.atoms[i].kind == "phase":
                    real_only = False
                    break
            if not real_only:
                break
        if real_only:
            return True
        return (self - self.conj()).is_zero(1e-11)

    def is_zero(self, eps=0.0):
        return all(abs(c) <= eps for c in self.t.values())

    def max_coef(self):
        return max((abs(c) for c in self.t.values()), default=0.0)

    def key(self):
        """hashable canonical key (coefficients rounded)"""
        return tuple(sorted((m, _round_sig(c)) for m, c in self.t.items()))

    # --- arithmetic ---------------------------------------------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, Sym):
            a, b = self.t, o.t
            if len(a) < len(b):
                a, b = b, a
            t = dict(a)
            for m, c in b.items():
                d = t.get(m)
                if d is None:
                    t[m] = c
                else:
                    s = d + c
                    if abs(s) <= REL_DROP * max(abs(d), abs(c)):
                        del t[m]
                    else:
                        t[m] = s
            return Sym(t)
        if _isnum(o):
            o = _c(o)
            if o == 0:
                return self
            if o != o or o in (math.inf, -math.inf):
                raise Unsupported("inf/nan in symbolic arithmetic")
            return self + Sym({(): o})
        if isinstance(o, np.ndarray):
            return np.add(self, o)
        if isinstance(o, SymBool):
            return self + o.as_num()
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, Sym):
            return self + (-o)
        if _isnum(o):
            return self + (-_c(o))
        if isinstance(o, np.ndarray):
            return np.subtract(self, o)
        if isinstance(o, SymBool):
            return self - o.as_num()
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Sym):
            t = {}
            extra = None
            a, b = self.t, o.t
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m, red = mono_mul(m1, m2)
                    c = c1 * c2
                    if red:
                        r = reduce_mono(m, c)
                        extra = r if extra is None else extra + r
                        continue
                    d = t.get(m)
                    if d is None:
                        t[m] = c
                    else:
                        s = d + c
                        if abs(s) <= REL_DROP * max(abs(d), abs(c)):
                            del t[m]
                        else:
                            t[m] = s
            res = Sym(t)
            if extra is not None:
                res = res + extra
            lim = LIMIT[0]
            if len(res.t) > lim:
                raise Unsupported(f"polynomial larger than {lim} terms")
            return res
        if _isnum(o):
            o = _c(o)
            if o == 0:
                return Sym({})
            if o == 1:
                return self
            if o != o or o in (math.inf, -math.inf):
                raise Unsupported("inf/nan in symbolic arithmetic")
            return Sym({m: _cc(c * o) for m, c in self.t.items()})
        if isinstance(o, np.ndarray):
            return np.multiply(self, o)
        if isinstance(o, SymBool):
            return self * o.as_num()
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isnum(o):
            o = _c(o)
            if o == 0:
                raise Unsupported("symbolic value divided by concrete zero")
            if o in (math.inf, -math.inf):
                return Sym({})
            return Sym({m: _cc(c / o) for m, c in self.t.items()})
        if isinstance(o, (Sym, SymBool)):
            return self * inv(Sym.of(o))
        if isinstance(o, np.ndarray):
            return np.true_divide(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return np.true_divide(o, self)
        if _isnum(o) and o in (math.inf, -math.inf):
            return o if self > 0 else -o
        return inv(self) * o

    def __floordiv__(self, o):
        return sfloor(self / o)

    def __rfloordiv__(self, o):
        return sfloor(o / self)

    def __mod__(self, o):
        return self - sfloor(self / o) * o

    def __pow__(self, e):
        if isinstance(e, Sym):
            if e.is_const():
                e = e.value()
            else:
                raise Unsupported("symbolic exponent")
        if isinstance(e, np.ndarray):
            return np.power(self, e)
        e = float(e) if not isinstance(e, (int, np.integer)) else int(e)
        if isinstance(e, float) and e.is_integer():
            e = int(e)
        if isinstance(e, int):
            if e < 0:
                return inv(self) ** (-e)
            res = Sym.const(1.0)
            base = self
            while e:
                if e & 1:
                    res = res * base
                e >>= 1
                if e:
                    base = base * base
            return res
        if e == 0.5:
            return ssqrt(self)
        if e == -0.5:
            return inv(ssqrt(self))
        if (2 * e).is_integer():
            return ssqrt(self) ** int(2 * e)
        r = monomial_power(self, Fraction(e).limit_denominator(12))
        if r is not None and abs(Fraction(e).limit_denominator(12) - e) < 1e-15:
            return r
        return sfn("pow", self, Sym.const(e))

    def __rpow__(self, b):
        return sexp(self * math.log(float(b)))

    def conj(self):
        if all(not (isinstance(c, complex)) and not any(TABLE.atoms[i].kind == "phase" for i, _ in m)
               for m, c in self.t.items()):
            return self
        t = {}
        for m, c in self.t.items():
            m2 = tuple((i, -e) if TABLE.atoms[i].kind == "phase" else (i, e) for i, e in m)
            t[m2] = c.conjugate() if isinstance(c, complex) else c
        return Sym(t)

    conjugate = conj

    @property
    def real(self):
        c = self.conj()
        if c is self:
            return self
        return ((self + c) * 0.5)._clean()

    @property
    def imag(self):
        c = self.conj()
        if c is self:
            return 0.0
        return ((self - c) * (-0.5j))._clean()

    def _clean(self):
        """turn complex coefficients with zero imaginary part into floats"""
        return Sym({m: _cc(c) for m, c in self.t.items() if c != 0})

    def __abs__(self):
        return sabs(self)

    def sqrt(self):
        return ssqrt(self)

    # --- comparisons --------------------------------------------------------------------------------------------
    def __lt__(self, o):
        if isinstance(o, np.ndarray):
            return np.less(self, o)
        return compare("lt", self, o)

    def __le__(self, o):
        if isinstance(o, np.ndarray):
            return np.less_equal(self, o)
        return compare("le", self, o)

    def __gt__(self, o):
        if isinstance(o, np.ndarray):
            return np.greater(self, o)
        return compare("lt", o, self)

    def __ge__(self, o):
        if isinstance(o, np.ndarray):
            return np.greater_equal(self, o)
        return compare("le", o, self)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, np.ndarray):
            return np.equal(self, o)
        return compare("eq", self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, np.ndarray):
            return np.logical_not(r)
        return bnot(r)

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(bnot(compare("eq", self, 0.0)))

    def __float__(self):
        if self.is_const():
            v = self.value()
            return v.real if isinstance(v, complex) else v
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            return complex(self.value())
        raise Unsupported("complex() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(float(self))
        return CTX[0].concretise_int(strunc(self))

    __index__ = None

    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits of symbolic value")
        return sround(self)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    def __trunc__(self):
        return strunc(self)

    # --- ndarray look-alike -------------------------------------------------------------------------------------
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __getitem__(self, idx):
        from . import sarr
        return sarr.to_obj(self)[idx]

    def reshape(self, *shape, **k):
        from . import sarr
        return sarr.to_obj(self).reshape(*shape)

    def ravel(self, *a):
        from . import sarr
        return sarr.to_obj(self).reshape(1)

    flatten = ravel

    def max(self, *a, **k):
        return self

    min = mean = max

    def tolist(self):
        return self

    def astype(self, *a, **k):
        from . import sarr
        return sarr.astype_elem(self, a[0] if a else k.get("dtype"))

    def sum(self, *a, **k):
        return self

    def is_integer(self):
        raise Unsupported("is_integer of symbolic value")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import sarr
        return sarr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import sarr
        return sarr.function_dispatch(func, types, args, kwargs)

    def __format__(self, spec):
        return token(self, spec)

    def __str__(self):
        return token(self, "")

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in list(self.t.items())[:6]:
            s = "*".join(f"{TABLE.atoms[i].name or TABLE.atoms[i].kind + str(i)}" + (f"^{e}" if e != 1 else "") for i, e in m)
            cs = f"{c:.4g}" if not isinstance(c, complex) else f"({c:.4g})"
            out.append(cs + ("*" + s if s else ""))
        return " + ".join(out) + (" + ..." if len(self.t) > 6 else "")


TOKENS = []         # symbolic numbers written as text, float() of the text gives the number back


def token(x, spec):
    if x.is_const():
        v = complex(x) if not x.is_real() else float(x)
        return format(v, spec)
    if not x.is_real():
        return repr(x)
    TOKENS.append((x, spec))
    return f"@sx{len(TOKENS) - 1}@"


def nth_token(n):
    return TOKENS[n][0]


def source(x):
    """python source of a number (evaluated with nth_token)"""
    if not isinstance(x, Sym):
        return repr(complex(x) if isinstance(x, (complex, np.complexfloating)) else float(x))
    TOKENS.append((x, ""))
    return f"number_sx_({len(TOKENS) - 1})"


def untoken(s):
    """number of a text, None for other text"""
    t = s.strip()
    if t.startswith("@sx") and t.endswith("@"):
        x, spec = TOKENS[int(t[3:-1])]
        if spec != "":
            raise Unsupported("reading a number which was written with less digits")
        return x
    return None


LIMIT = [60000]
numbers.Number.register(Sym)


def _cc(c):
    if isinstance(c, complex) and c.imag == 0:
        return c.real
    return c


def _round_sig(c):
    if isinstance(c, complex):
        return (_round_sig(c.real), _round_sig(c.imag))
    if c == 0:
        return 0.0
    return float(f"{c:.10e}")


def reduce_mono(m, c):
    """rewrite powers of square roots and bits; returns a Sym"""
    rest = []
    fac = []
    for i, e in m:
        a = TABLE.atoms[i]
        if a.kind == "sqrt" and e >= 2:
            q, r = divmod(e, 2)
            fac.append(a.args[0] ** int(q) if q >= 0 else inv(a.args[0]) ** int(-q))
            if r:
                rest.append((i, 1))
        elif a.kind == "bit" and e > 1:
            rest.append((i, 1))
        else:
            rest.append((i, e))
    res = Sym({tuple(rest): c})
    for f in fac:
        res = res * f
    return res


# ---------------------------------------------------------------------------------------------------------------------
# formulas

class SymBool:
    """a boolean formula over polynomial comparisons"""
    __slots__ = ("op", "args", "_key")
    __array_priority__ = 1000

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._key = None

    def key(self):
        if self._key is None:
            if self.op in ("lt", "le", "eq"):
                self._key = (self.op, self.args[0].key())
            elif self.op == "isint":
                self._key = (self.op, self.args[0].key())
            else:
                self._key = (self.op,) + tuple(a if isinstance(a, bool) else a.key() for a in self.args)
        return self._key

    def __bool__(self):
        if CTX[0] is None:
            raise Unsupported("branch on a symbolic condition outside an exploration")
        return CTX[0].decide(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return np.logical_and(self, o)
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return np.logical_or(self, o)
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bor(band(self, bnot(o)), band(bnot(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else bnot(self)
        if isinstance(o, SymBool):
            return bnot(self ^ o)
        return self.as_num() == o

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    __hash__ = object.__hash__

    def as_num(self):
        if CTX[0] is not None:
            v = CTX[0].entailed(self)
            if v is not None:
                return Sym.const(1.0 if v else 0.0)
        a = TABLE.get("bit", self.key(), args=(self,))
        return Sym.atom(a)

    def __add__(self, o):
        return self.as_num() + (o.as_num() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return band(self, o)
        return self.as_num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_num() - o

    def __rsub__(self, o):
        return o - self.as_num()

    def __neg__(self):
        return -self.as_num()

    def __truediv__(self, o):
        return self.as_num() / o

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def __lt__(self, o):
        return self.as_num() < o

    def __gt__(self, o):
        return self.as_num() > o

    def all(self, *a, **k):
        return self

    any = all
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def item(self):
        return self

    def __getitem__(self, idx):
        from . import sarr
        return sarr.to_obj(self)[idx]

    def astype(self, *a, **k):
        from . import sarr
        return sarr.astype_elem(self, a[0] if a else k.get("dtype"))

    def sum(self, *a, **k):
        return self.as_num()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import sarr
        return sarr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import sarr
        return sarr.function_dispatch(func, types, args, kwargs)

    def __repr__(self):
        return f"[{self.op} {' '.join(map(repr, self.args))}]"


def _isbool(x):
    return isinstance(x, (bool, np.bool_))


def _tb(x):
    """truthiness as formula"""
    if _isbool(x) or isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return bnot(compare("eq", x, 0.0))
    return bool(x)


def band(a, b):
    a, b = _tb(a), _tb(b)
    if _isbool(a):
        return b if a else False
    if _isbool(b):
        return a if b else False
    return SymBool("and", a, b)


def bor(a, b):
    a, b = _tb(a), _tb(b)
    if _isbool(a):
        return True if a else b
    if _isbool(b):
        return True if b else a
    return SymBool("or", a, b)


def bnot(a):
    a = _tb(a)
    if _isbool(a):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":      # not p<0  <=>  -p<=0
        return SymBool("le", -a.args[0])
    if a.op == "le":
        return SymBool("lt", -a.args[0])
    return SymBool("not", a)


def compare(op, a, b):
    """formula for a op b"""
    for x in (a, b):
        if _isnum(x) and isinstance(x, (float, np.floating)) and not math.isfinite(x):
            # comparisons with infinities are decided by sign
            if op == "eq":
                return False
            if x != x:
                return False
            if x is a:
                return x < 0
            return x > 0
        if not (isinstance(x, (Sym, SymBool)) or _isnum(x)):
            if op == "eq":
                return False
            raise Unsupported(f"comparison with {type(x)}")
    d = Sym.of(a) - Sym.of(b)
    if not d.is_const() and not d.is_real():
        if op == "eq":
            return band(compare("eq", d.real, 0.0), compare("eq", d.imag, 0.0))
        raise Unsupported("ordering of complex values")
    d = d.real
    d = Sym.of(d)
    if d.is_const():
        v = d.value()
        v = v.real if isinstance(v, complex) else v
        return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[op]
    # c*sqrt(p) + k  op  0   ->  polynomial comparison
    nz = [(m, c) for m, c in d.t.items() if m != ()]
    if len(nz) == 1 and len(nz[0][0]) == 1 and nz[0][0][0][1] == 1:
        at = TABLE.atoms[nz[0][0][0][0]]
        if at.kind == "sqrt":
            c = nz[0][1]
            k = d.t.get((), 0.0)
            p = at.args[0]
            thr = -k / c        # sqrt(p) ? thr
            if op == "eq":
                return False if thr < 0 else compare("eq", p, thr * thr)
            if c > 0:           # sqrt(p) < thr
                if thr < 0 or (thr == 0 and op == "lt"):
                    return False
                return compare(op, p, thr * thr)
            else:               # sqrt(p) > thr
                if thr < 0 or (thr == 0 and op == "le"):
                    return True
                return compare(op, thr * thr, p)
    e = sign_normal(d)
    if e is not d:
        return compare(op, e, 0.0)
    r = _sqrt_split(op, d)
    if r is not None:
        return r
    # normalise scale
    mc = d.max_coef()
    d = d * (1.0 / mc)
    f = SymBool(op, d)
    if CTX[0] is not None:
        r = CTX[0].quick(f)
        if r is not None:
            return r
    return f


def _positive(p):
    """obviously strictly positive (used for divisors, which are not zero)"""
    return p.is_real() and _obviously_nonneg(p)


def sign_normal(d):
    """polynomial with the same sign as d: divisors and common factors which are positive are removed"""
    if d.is_const():
        return d
    exps = {}
    n = len(d.t)
    for m in d.t:
        for i, e in m:
            exps.setdefault(i, []).append(e)
    shift, clear = {}, {}
    for i, es in exps.items():
        a = TABLE.atoms[i]
        full = len(es) == n
        lo = min(es) if full else min(0, min(es))
        if a.kind == "var":
            if a.lo is not None and a.lo > 0:
                if lo:
                    shift[i] = lo
            elif lo < 0:
                shift[i] = lo - (lo % 2)
        elif a.kind == "inv":
            if not _positive(a.args[0]):
                continue
            if full and lo > 0:
                shift[i] = lo
            elif len(a.args[0].t) <= 8 and n <= 40 and max(es) <= 2:
                clear[i] = max(es)
    for i, es in exps.items():
        a = TABLE.atoms[i]
        if a.kind == "sqrt":
            full = len(es) == n
            lo = min(es) if full else min(0, min(es))
            if lo < 0 or (lo > 0 and _strict(a.args[0])):
                shift[i] = lo
    if not shift and not clear:
        return d
    if shift:
        q = {}
        for m, c in d.t.items():
            e = dict(m)
            for i, k in shift.items():
                e[i] = e.get(i, 0) - k
                if e[i] == 0:
                    del e[i]
            q[tuple(sorted(e.items()))] = c
        d = Sym(q) * 1.0
        if any(TABLE.atoms[i].kind == "sqrt" for i in shift):
            r = Sym.const(0.0)
            for m, c in q.items():
                r = r + reduce_mono(m, c)
            d = r
    for i, k in clear.items():
        r = Sym.const(0.0)
        arg = TABLE.atoms[i].args[0]
        for m, c in d.t.items():
            e = dict(m)
            x = e.pop(i, 0)
            r = r + Sym({tuple(sorted(e.items())): c}) * arg**(k - x)
        d = r
    return Sym.of(d).simp()


def _strict(p):
    """strictly positive on the ranges of the variables"""
    if not _obviously_nonneg(p):
        return False
    for m, c in p.t.items():
        if c > 0 and all(TABLE.atoms[i].kind == "var" and TABLE.atoms[i].lo is not None and (TABLE.atoms[i].lo > 0 or e % 2 == 0 and TABLE.atoms[i].hi < 0) for i, e in m):
            return True
    return False


def _sqrt_split(op, d):
    """q + c*sqrt(p) op 0 with a number c"""
    if op == "eq":
        return None
    s = [i for m in d.t for i, e in m if TABLE.atoms[i].kind == "sqrt"]
    if len(s) != 1:
        return None
    i = s[0]
    m = next(m for m in d.t if any(j == i for j, _ in m))
    if m != ((i, 1),):
        return None
    c = d.t[m]
    if isinstance(c, complex):
        return None
    p = TABLE.atoms[i].args[0]
    q = Sym({k: v for k, v in d.t.items() if k != m})
    if len(q.t) > 6 or len(p.t) > 8:
        return None
    if c > 0:       # sqrt(p) < -q/c
        return band(compare(op, q, 0.0), compare(op, p * (c * c), q * q))
    if op == "lt":  # q < |c| sqrt(p)
        return bor(compare("lt", q, 0.0), compare("lt", q * q, p * (c * c)))
    return bor(compare("le", q, 0.0), compare("le", q * q, p * (c * c)))


# ---------------------------------------------------------------------------------------------------------------------
# functions

def split_content(p):
    """p = c * mono * q with q having no common monomial of real variables/phases; returns (c, mono, q)"""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for i in list(common):
            e = d.get(i, 0)
            if common[i] > 0 and e > 0 or TABLE.atoms[i].kind == "phase":
                common[i] = min(common[i], e)
                if common[i] == 0:
                    del common[i]
            elif common[i] < 0 and e < 0:
                common[i] = max(common[i], e)
            else:
                del common[i]
    common = {i: e for i, e in common.items() if TABLE.atoms[i].kind in ("var", "phase")}
    if common:
        q = {}
        for m, c in p.t.items():
            d = dict(m)
            for i, e in common.items():
                d[i] = d.get(i, 0) - e
                if d[i] == 0:
                    del d[i]
            q[tuple(sorted(d.items()))] = c
        p = Sym(q)
    first = min(p.t)        # deterministic leading monomial
    c = p.t[first]
    return c, tuple(sorted(common.items())), p * (1.0 / c)


def inv(p):
    p = Sym.of(p)
    if p.is_const():
        if p.value() == 0:
            raise Unsupported("division by symbolic zero")
        return Sym.const(1.0 / p.value())
    mc = p.max_coef()
    p = Sym({m: c for m, c in p.t.items() if abs(c) > 1e-25 * mc})
    if len(p.t) == 1:
        (m, c), = p.t.items()
        res = Sym.const(1.0 / c)
        for i, e in m:
            a = TABLE.atoms[i]
            if a.kind in ("var", "phase"):
                res = res * Sym({((i, -e),): 1.0})
            elif a.kind == "sqrt":
                res = res * Sym({((i, -e),): 1.0})
            elif a.kind == "inv":
                res = res * a.args[0] ** int(e)
            elif a.kind == "exp":
                res = res * Sym({((i, -e),): 1.0})
            else:
                b = TABLE.get("inv", Sym({((i, 1),): 1.0}).key(), args=(Sym.atom(a),))
                res = res * (Sym.atom(b) ** int(e))
        return res
    if not p.is_real():
        pc = p.conj()
        return pc * inv((p * pc).real)
    p = Sym.of(p.real)
    content, q = exp_content(p)
    if content is not None:
        return inv(content) * inv(q)
    c, mono, q = split_content(p)
    res = Sym.const(1.0 / c)
    if mono:
        res = res * Sym({tuple((i, -e) for i, e in mono): 1.0})
    if len(q.t) == 1:
        return res * inv(q)
    if not q.is_real():
        # content made it complex (phases): undo
        q = p * (1.0 / p.max_coef())
        b = TABLE.get("inv", q.key(), args=(q,))
        return Sym.atom(b) * (1.0 / p.max_coef())
    # the argument of a known square root
    mq = q.max_coef()
    r = TABLE.by_key.get(("sqrt", (q * (1.0 / mq)).key()))
    if r is not None:
        return res * Sym({((r.idx, -2),): 1.0 / mq})
    b = TABLE.get("inv", q.key(), args=(q,))
    return res * Sym.atom(b)


def is_square_poly(p):
    """try to find s with s*s == p for a few simple shapes (single monomial with even exponents)"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(e % 2 == 0 and TABLE.atoms[i].kind != "phase" for i, e in m) and not isinstance(c, complex) and c > 0:
            return Sym({tuple((i, e // 2) for i, e in m): math.sqrt(c)})
    return None


def monomial_power(p, e):
    """p**e of a monomial in positive atoms if the exponents stay integers"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if isinstance(c, complex) or c <= 0 or not m:
        return None
    for i, n in m:
        if TABLE.atoms[i].kind == "phase" or (n * e).denominator != 1 or atom_range(i)[0] <= 0:
            return None
    return Sym({tuple((i, int(n * e)) for i, n in m): float(c) ** float(e)})


def ssqrt(p):
    if not isinstance(p, Sym):
        return math.sqrt(p) if not isinstance(p, complex) else cmath.sqrt(p)
    if p.is_const():
        v = p.value()
        return math.sqrt(v) if not isinstance(v, complex) and v >= 0 else cmath.sqrt(v)
    if not p.is_real():
        raise Unsupported("square root of a complex symbolic value")
    p = Sym.of(p.real)
    s = is_square_poly(p)
    if s is not None:
        return sabs(s)
    s = poly_square_root(p)
    if s is not None:
        return sabs(s)
    mc = p.max_coef()
    q = p * (1.0 / mc)
    a = TABLE.get("sqrt", q.key(), args=(q,))
    return Sym.atom(a) * math.sqrt(mc)


def poly_square_root(p):
    """exact polynomial square root of a real polynomial in plain variables (tries the leading-term algorithm)"""
    if len(p.t) > 60 or any(TABLE.atoms[i].kind == "phase" or e < 0 for m in p.t for i, e in m):
        return None
    order = lambda m: (sum(e for _, e in m), tuple(sorted(((-i, e) for i, e in m), reverse=True)))
    # leading monomial in a graded lex order that is multiplicative
    idx = sorted({i for m in p.t for i, _ in m})
    def vec(m):
        d = dict(m)
        v = tuple(d.get(i, 0) for i in idx)
        return (sum(v),) + v
    rest = dict(p.t)
    root = {}
    lead = None
    for _ in range(40):
        rest = {m: c for m, c in rest.items() if abs(c) > 1e-10}
        if not rest:
            return Sym(root)
        m = max(rest, key=vec)
        c = rest[m]
        if lead is None:
            if isinstance(c, complex) or c <= 0 or any(e % 2 for _, e in m):
                return None
            lead = (tuple((i, e // 2) for i, e in m), math.sqrt(c))
            root[lead[0]] = lead[1]
            s = Sym({lead[0]: lead[1]})
            rest = (Sym(rest) - s * s).t
        else:
            d = dict(m)
            for i, e in lead[0]:
                d[i] = d.get(i, 0) - e
                if d[i] < 0:
                    return None
                if d[i] == 0:
                    del d[i]
            mm = tuple(sorted(d.items()))
            if mm in root:
                return None
            cc = c / (2 * lead[1])
            new = Sym({mm: cc})
            rest = (Sym(rest) - new * (Sym(root) * 2 + new)).t
            root[mm] = cc
            if len(root) > 12:
                return None
    return None


def sabs(x):
    if not isinstance(x, Sym):
        return abs(x)
    if x.is_const():
        return abs(x.value())
    if not x.is_real():
        p = (x * x.conj()).real
        return ssqrt(Sym.of(p))
    x = Sym.of(x.real)
    # sums of products of nonnegative atoms are nonnegative
    if _obviously_nonneg(x):
        return x
    if _obviously_nonneg(-x):
        return -x
    c = compare("lt", x, 0.0)
    if _isbool(c):
        return -x if c else x
    if CTX[0] is not None and CTX[0].merge:
        return ite(c, -x, x)
    return -x if bool(c) else x


def _obviously_nonneg(x):
    for m, c in x.t.items():
        if isinstance(c, complex) or c < 0:
            return False
        for i, e in m:
            a = TABLE.atoms[i]
            if a.kind in ("sqrt", "exp", "bit"):
                continue
            if a.kind == "var" and ((a.lo is not None and a.lo >= 0) or e % 2 == 0):
                continue
            if e % 2 == 0 and a.kind != "phase":
                continue
            return False
    return True


def ite(c, a, b):
    """if-then-else value"""
    if _isbool(c):
        return a if c else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or _isbool(a) or _isbool(b):
        return bor(band(c, a), band(bnot(c), b))
    if _isnum(a) and _isnum(b) and a == b:
        return a
    for x in (a, b):
        if _isnum(x) and not cmath.isfinite(complex(x)):
            return a if bool(c) else b
    a_, b_ = Sym.of(a), Sym.of(b)
    if (a_ - b_).is_zero(1e-14):
        return a
    if not (a_.is_real() and b_.is_real()):
        re = ite(c, a_.real, b_.real)
        im = ite(c, a_.imag, b_.imag)
        return re + im * 1j
    t = TABLE.get("ite", (c.key(), a_.key(), b_.key()), args=(c, a_, b_))
    return Sym.atom(t)


def smax(a, b):
    if _isnum(a) and _isnum(b):
        return max(a, b)
    c = compare("lt", a, b)
    if _isbool(c):
        return b if c else a
    if CTX[0] is not None and not CTX[0].merge:
        return b if bool(c) else a
    return ite(c, b, a)


def smin(a, b):
    if _isnum(a) and _isnum(b):
        return min(a, b)
    c = compare("lt", b, a)
    if _isbool(c):
        return b if c else a
    if CTX[0] is not None and not CTX[0].merge:
        return b if bool(c) else a
    return ite(c, b, a)


def phase_split(p):
    """split a polynomial into the part linear in angle variables and the rest: (list[(var atom, coef)], rest)"""
    lin = []
    rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and TABLE.atoms[m[0][0]].kind == "var" and TABLE.atoms[m[0][0]].scale != 1.0:
            lin.append((TABLE.atoms[m[0][0]], c))
        else:
            rest[m] = c
    return lin, Sym(rest)


def sexp(p):
    if not isinstance(p, Sym):
        return cmath.exp(p) if isinstance(p, complex) else math.exp(p)
    if p.is_const():
        v = p.value()
        return cmath.exp(v) if isinstance(v, complex) else math.exp(v)
    re, im = Sym.of(p.real), Sym.of(p.imag)
    res = Sym.const(1.0)
    if not im.is_zero(1e-14):
        mono = []
        for m, c in im.t.items():
            if m == ():
                res = res * cmath.exp(1j * c)
                continue
            if len(m) != 1 or m[0][1] != 1 or TABLE.atoms[m[0][0]].kind != "var":
                raise Unsupported("phase of a nonlinear expression")
            v = TABLE.atoms[m[0][0]]
            if v.name is None or v.name not in ANGLES:
                raise Unsupported(f"phase of a variable {v.name} that is not an angle")
            unit = ANGLES[v.name]               # radians per unit of the variable
            # exp(i*c*v), v in units with phase atom z = exp(i*unit*v)  ->  z^(c/unit)
            f = Fraction(c / unit).limit_denominator(96)
            if abs(float(f) - c / unit) > 1e-9 * max(1.0, abs(c / unit)):
                raise Unsupported("irrational phase multiple")
            if f != 0:
                z = TABLE.get("phase", v.name, name="z_" + v.name, args=(v,))
                mono.append((z.idx, int(f) if f.denominator == 1 else f))
        if mono:
            res = res * Sym({tuple(sorted(mono)): 1.0})
    if not re.is_zero(1e-14):
        res = res * real_exp(re)
    return res


ANGLES = {}         # variable name -> radians per unit


def real_exp(p):
    c0 = p.t.get((), 0.0)
    res = Sym.const(math.exp(c0))
    for m, c in p.t.items():
        if m == ():
            continue
        if len(m) == 1 and m[0][1] == 1 and TABLE.atoms[m[0][0]].kind == "log":
            res = res * TABLE.atoms[m[0][0]].args[0] ** c
            continue
        a = TABLE.get("exp", (m,), args=(Sym({m: 1.0}),))
        f = Fraction(c).limit_denominator(1000)
        if abs(float(f) - c) > 1e-9 * abs(c):
            a = TABLE.get("exp", (m, _round_sig(abs(c))), args=(Sym({m: abs(c)}),))
            res = res * Sym({((a.idx, 1 if c > 0 else -1),): 1.0})
        else:
            res = res * Sym({((a.idx, int(f) if f.denominator == 1 else f),): 1.0})
    return res


def exp_content(p):
    """p = content * q with content a monomial of exp atoms and q without negative powers of them; (content, q)"""
    low = {}
    for m in p.t:
        d = dict(m)
        for i, e in m:
            if TABLE.atoms[i].kind == "exp":
                low.setdefault(i, None)
    for i in low:
        low[i] = min(dict(m).get(i, 0) for m in p.t)
    c = tuple(sorted((i, e) for i, e in low.items() if e != 0))
    if not c:
        return None, p
    return Sym({c: 1.0}), p * Sym({tuple((i, -e) for i, e in c): 1.0})


def dominant(p):
    """the term of a sum of exponentials which is larger than all others by 16 digits for all values of the variables, or None"""
    if not any(TABLE.atoms[i].kind == "exp" for m in p.t for i, _ in m):
        return None
    memo = {}
    r = {}
    for m, c in p.t.items():
        if isinstance(c, complex):
            return None
        lo, hi = mono_range(m, memo)
        r[m] = sorted((c * lo, c * hi))
    for m, (lo, hi) in r.items():
        if lo > 0 and sum(max(abs(x) for x in v) for n, v in r.items() if n != m) < 1e-16 * lo:
            return Sym({m: p.t[m]})
    return None


def slog(p):
    if not isinstance(p, Sym):
        return math.log(p)
    if p.is_const():
        return math.log(p.value())
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(TABLE.atoms[i].kind == "exp" for i, e in m) and not isinstance(c, complex) and c > 0:
            res = Sym.const(math.log(c))
            for i, e in m:
                res = res + TABLE.atoms[i].args[0] * float(e)
            return res
    content, q = exp_content(p)
    if content is not None:
        return slog(content) + slog(q)
    if len(p.t) > 1:
        q = dominant(p)
        if q is not None:
            return slog(q)
    c = p.t[min(p.t)]
    if not isinstance(c, complex) and c > 0 and c != 1.0:
        return slog(p * (1.0 / c)) + math.log(c) if abs(c - 1) > 1e-15 else Sym.atom(TABLE.get("log", p.key(), args=(p,)))
    a = TABLE.get("log", p.key(), args=(p,))
    return Sym.atom(a)


def _arc(p):
    """(name, argument, multiple) of a multiple of an arcsin or arccos"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not isinstance(c, complex) and len(m) == 1 and m[0][1] == 1 and c in (1.0, -1.0, 2.0, -2.0):
            a = TABLE.atoms[m[0][0]]
            if a.kind == "fn" and a.name in ("arcsin", "arccos"):
                return a.name, a.args[0], c
    return None


def scos(p):
    if not isinstance(p, Sym):
        return math.cos(p)
    r = _arc(p)
    if r is not None:
        name, x, c = r
        if abs(c) == 2.0:
            return 1 - 2 * x * x if name == "arcsin" else 2 * x * x - 1
        return ssqrt(1 - x * x) if name == "arcsin" else x
    try:
        z = sexp(p * 1j)
    except Unsupported:
        return sfn("cos", p)
    return ((z + Sym.of(z).conj()) * 0.5)


def ssin(p):
    if not isinstance(p, Sym):
        return math.sin(p)
    r = _arc(p)
    if r is not None:
        name, x, c = r
        y = ssqrt(1 - x * x)
        if abs(c) == 2.0:
            return c * x * y
        return c * (x if name == "arcsin" else y)
    try:
        z = sexp(p * 1j)
    except Unsupported:
        return sfn("sin", p)
    return ((z - Sym.of(z).conj()) * (-0.5j))


def stan(p):
    return ssin(p) / scos(p)


FN_EVAL = {
    "cos": np.cos, "sin": np.sin, "arccos": np.arccos, "arcsin": np.arcsin, "arctan": np.arctan, "arctan2": np.arctan2,
    "cbrt": np.cbrt, "tanh": np.tanh, "cosh": np.cosh, "sinh": np.sinh, "pow": np.power, "tan": np.tan,
    "log1p": np.log1p, "expm1": np.expm1, "spence": scipy.special.spence,
}
FN_DIFF = {"spence": [lambda z: slog(z) * inv(1.0 - z)]}        # name -> list of functions (args) -> Sym  partial derivative per argument
FN_AXIOM = {}       # name -> function(lower, atom var, args) -> list of z3 constraints


def sfn(name, *args):
    """uninterpreted function atom"""
    args = tuple(Sym.of(a) for a in args)
    if all(a.is_const() for a in args) and name in FN_EVAL:
        return float(FN_EVAL[name](*[a.value() for a in args]))
    for a in args:
        if not a.is_real():
            raise Unsupported(f"{name} of a complex symbolic value")
    t = TABLE.get("fn", (name,) + tuple(a.key() for a in args), name=name, args=args)
    return Sym.atom(t)


def sfloor(p):
    if not isinstance(p, Sym):
        return math.floor(p)
    if p.is_const():
        return math.floor(p.value())
    # an integer constant can be pulled out
    k = p.t.get((), 0.0)
    n = math.floor(k + 1e-15)
    q = p - n
    t = TABLE.get("floor", q.key(), args=(q,), name="floor")
    return Sym.atom(t) + n


def strunc(p):
    if not isinstance(p, Sym):
        return int(p)
    if _obviously_nonneg(p) or compare("le", 0.0, p):
        return sfloor(p)
    return -sfloor(-p)


def sround(p):
    """round to nearest integer (ties are resolved upwards here and to even in numpy: the tie points are measure zero
    and listed as an assumption)"""
    if not isinstance(p, Sym):
        return np.round(p)
    return sfloor(p + 0.5)


def ssign(x):
    if not isinstance(x, Sym):
        return np.sign(x)
    if bool(compare("lt", x, 0.0)):
        return -1.0
    if bool(compare("eq", x, 0.0)):
        return 0.0
    return 1.0


# ---------------------------------------------------------------------------------------------------------------------
# differentiation

def diff(p, var):
    """exact derivative of p w.r.t. the variable atom `var`"""
    if not isinstance(p, Sym):
        return 0.0
    memo = {}
    return _diff(p, var, memo)


def _diff(p, var, memo):
    res = Sym({})
    for m, c in p.t.items():
        for n, (i, e) in enumerate(m):
            d = _datom(i, var, memo)
            if d is None:
                continue
            a = TABLE.atoms[i]
            rest = m[:n] + m[n + 1:]
            if a.kind == "phase":
                # d z^e = e * (i*unit) * z^e
                term = Sym({m: c * float(e)}) * d
            elif a.kind == "exp":
                term = Sym({m: c * float(e)}) * d
            else:
                r = Sym({rest: c * float(e)})
                if e != 1:
                    if a.kind == "sqrt":
                        r = r * (Sym.atom(a) ** int(e - 1))
                    else:
                        r = r * Sym({((i, e - 1),): 1.0})
                term = r * d
            res = res + term
    return res


def _datom(i, var, memo):
    """derivative of the atom (for phase and exp: logarithmic derivative); None if zero"""
    if i in memo:
        return memo[i]
    a = TABLE.atoms[i]
    r = None
    if a.kind == "var":
        r = Sym.const(1.0) if i == var.idx else None
    elif a.kind == "phase":
        if a.args[0].idx == var.idx:
            r = Sym.const(1j * ANGLES[a.args[0].name])
    elif a.kind == "exp":
        d = _diff(a.args[0], var, memo)
        r = None if d.is_zero() else d
    elif a.kind == "log":
        d = _diff(a.args[0], var, memo)
        r = None if d.is_zero() else d * inv(a.args[0])
    elif a.kind == "sqrt":
        d = _diff(a.args[0], var, memo)
        r = None if d.is_zero() else d * 0.5 * inv(Sym.atom(a))
    elif a.kind == "inv":
        d = _diff(a.args[0], var, memo)
        r = None if d.is_zero() else -d * Sym.atom(a) ** 2
    elif a.kind == "ite":
        da, db = _diff(a.args[1], var, memo), _diff(a.args[2], var, memo)
        r = None if da.is_zero() and db.is_zero() else Sym.of(ite(a.args[0], da, db))
    elif a.kind in ("bit", "floor"):
        r = None
    elif a.kind == "fn":
        tot = Sym({})
        for n, x in enumerate(a.args):
            d = _diff(x, var, memo)
            if not d.is_zero():
                if a.name not in FN_DIFF:
                    raise Unsupported(f"derivative of {a.name}")
                tot = tot + FN_DIFF[a.name][n](*a.args) * d
        r = None if tot.is_zero() else tot
    else:
        raise Unsupported(f"derivative of {a.kind}")
    memo[i] = r
    return r


# ---------------------------------------------------------------------------------------------------------------------
# ranges of atoms over the declared ranges of the variables

def atom_range(i, memo=None):
    """interval which contains the values of the atom (interval arithmetic over the declared variable ranges)"""
    memo = {} if memo is None else memo
    if i in memo:
        return memo[i]
    a = TABLE.atoms[i]
    memo[i] = (-math.inf, math.inf)
    lo, hi = -math.inf, math.inf
    if a.kind == "var":
        lo, hi = (a.lo, a.hi) if a.lo is not None else (lo, hi)
    elif a.kind == "bit":
        lo, hi = 0.0, 1.0
    elif a.kind == "ite":
        l1, h1 = poly_range(a.args[1], memo)
        l2, h2 = poly_range(a.args[2], memo)
        lo, hi = min(l1, l2), max(h1, h2)
    elif a.kind == "fn" and a.name in ("arcsin", "arccos"):
        l, h = poly_range(a.args[0], memo)
        lo, hi = math.asin(min(max(l, -1.0), 1.0)), math.asin(min(max(h, -1.0), 1.0))
        if a.name == "arccos":
            lo, hi = math.pi / 2 - hi, math.pi / 2 - lo
    elif a.kind in ("exp", "log", "sqrt", "inv", "floor"):
        l, h = poly_range(a.args[0], memo)
        if a.kind == "exp":
            lo, hi = math.exp(min(l, 700)) if l > -math.inf else 0.0, math.exp(h) if h < 700 else math.inf
        elif a.kind == "log":
            lo, hi = math.log(l) if l > 0 else -math.inf, math.log(h) if 0 < h < math.inf else math.inf
        elif a.kind == "sqrt":
            lo, hi = math.sqrt(max(l, 0.0)) if l < math.inf else 0.0, math.sqrt(max(h, 0.0)) if h < math.inf else math.inf
        elif a.kind == "inv":
            if l > 0 or h < 0:
                lo, hi = 1 / h, 1 / l
        else:
            lo, hi = (math.floor(l) if l > -math.inf else l), (math.floor(h) if h < math.inf else h)
    memo[i] = (lo, hi)
    return lo, hi


def _ipow(l, h, e):
    if isinstance(e, Fraction) and e.denominator != 1:
        if l < 0:
            return -math.inf, math.inf
        e = float(e)
    if e < 0:
        if l <= 0 <= h:
            return -math.inf, math.inf
        l, h = 1 / h, 1 / l
        e = -e
    try:
        x, y = l ** e, h ** e
    except OverflowError:
        return -math.inf, math.inf
    if e == int(e) and int(e) % 2 == 0:
        m = max(x, y)
        return (0.0 if l <= 0 <= h else min(x, y)), m
    return x, y


def mono_range(m, memo=None):
    """interval of a monomial (phases count as the interval [-1, 1])"""
    memo = {} if memo is None else memo
    lo, hi = 1.0, 1.0
    for i, e in m:
        if TABLE.atoms[i].kind == "phase":
            l, h = -1.0, 1.0
        else:
            l, h = _ipow(*atom_range(i, memo), e)
        v = [0.0 if x == 0 or y == 0 else x * y for x in (lo, hi) for y in (l, h)]
        lo, hi = min(v), max(v)
    return lo, hi


def poly_range(p, memo=None):
    if not isinstance(p, Sym):
        return float(p.real), float(p.real)
    memo = {} if memo is None else memo
    lo = hi = 0.0
    for m, c in p.t.items():
        if isinstance(c, complex):
            return -math.inf, math.inf
        if not m:
            lo, hi = lo + c, hi + c
            continue
        l, h = mono_range(m, memo)
        x, y = c * l, c * h
        lo, hi = lo + min(x, y), hi + max(x, y)
    return lo, hi


# ---------------------------------------------------------------------------------------------------------------------
# substitution of variables (used by harnesses to evaluate at other points)

# ---------------------------------------------------------------------------------------------------------------------
# vectorised numeric evaluation (sample pool, validation)

class Evaluator:
    """evaluates polynomials on an array of sample environments; env: name -> ndarray(N)"""

    def __init__(self, getvar, n):
        self.getvar = getvar
        self.n = n
        self.memo = {}
        self.bmemo = {}

    def atom(self, i):
        v = self.memo.get(i)
        if v is not None:
            return v
        a = TABLE.atoms[i]
        with np.errstate(all="ignore"):
            if a.kind == "var":
                v = self.getvar(a.name)
            elif a.kind == "phase":
                v = ANGLES[a.args[0].name] * self.atom(a.args[0].idx)     # the angle itself
            elif a.kind == "exp":
                v = np.exp(self.poly(a.args[0]).real)
            elif a.kind == "log":
                v = np.log(self.poly(a.args[0]).real)
            elif a.kind == "sqrt":
                v = np.sqrt(self.poly(a.args[0]).real)
            elif a.kind == "inv":
                v = 1.0 / self.poly(a.args[0]).real
            elif a.kind == "ite":
                v = np.where(self.cond(a.args[0]), self.poly(a.args[1]).real, self.poly(a.args[2]).real)
            elif a.kind == "bit":
                v = self.cond(a.args[0]).astype(float)
            elif a.kind == "floor":
                v = np.floor(self.poly(a.args[0]).real)
            elif a.kind == "fn":
                v = FN_EVAL[a.name](*[self.poly(x).real for x in a.args])
            else:
                raise Unsupported(a.kind)
        v = np.broadcast_to(np.asarray(v), (self.n,))
        self.memo[i] = v
        return v

    def poly(self, p):
        if not isinstance(p, Sym):
            return np.full(self.n, p, dtype=complex)
        res = np.zeros(self.n, dtype=complex)
        with np.errstate(all="ignore"):
            for m, c in p.t.items():
                v = np.full(self.n, c, dtype=complex)
                for i, e in m:
                    k = TABLE.atoms[i].kind
                    x = self.atom(i)
                    if k == "phase":
                        v = v * np.exp(1j * float(e) * x)
                    else:
                        v = v * (x ** (float(e) if not isinstance(e, int) else e))
                res = res + v
        return res

    def cond(self, f):
        if _isbool(f):
            return np.full(self.n, bool(f))
        k = f.key()
        r = self.bmemo.get(k)
        if r is not None:
            return r
        if f.op in ("lt", "le", "eq"):
            v = self.poly(f.args[0]).real
            with np.errstate(all="ignore"):
                r = {"lt": v < 0, "le": v <= 0, "eq": v == 0}[f.op]
        elif f.op == "and":
            r = self.cond(f.args[0]) & self.cond(f.args[1])
        elif f.op == "or":
            r = self.cond(f.args[0]) | self.cond(f.args[1])
        elif f.op == "not":
            r = ~self.cond(f.args[0])
        else:
            raise Unsupported(f.op)
        self.bmemo[k] = r
        return r
