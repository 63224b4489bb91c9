"""translation of symbolic values and formulas to z3 (nonlinear real/integer arithmetic)"""
import math
from fractions import Fraction
import z3
from . import poly
from .poly import Sym, SymBool, TABLE, Unsupported, _isbool, ANGLES

FN_LOWER = {}       # fn name -> f(lower, atom, z3 var, [z3 args]) -> list of constraints


def rat(c):
    f = Fraction(c).limit_denominator(10**9)
    if abs(float(f) - c) > 4e-16 * abs(c):
        f = Fraction(c)
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


class Lower:
    def __init__(self, X, den):
        self.X = X
        self.den = den                  # angle variable -> common denominator of phase exponents
        self.memo = {}
        self.bmemo = {}
        self.cons = []                  # side constraints of atoms
        self.phase = {}                 # name -> (c, s)
        self.vars = {}
        self.powers = {}

    def var(self, name):
        v = self.vars.get(name)
        if v is None:
            v = z3.Real(name)
            self.vars[name] = v
            spec = self.X.vars.get(name)
            if spec is not None:
                self.cons.append(v >= rat(spec.lo))
                self.cons.append(v <= rat(spec.hi))
                if spec.kind == "int":
                    i = z3.Int(name + "!i")
                    self.cons.append(v == z3.ToReal(i))
        return v

    def bounds(self):
        r = []
        for name, v in self.vars.items():
            spec = self.X.vars.get(name)
            if spec is not None:
                r += [v >= rat(spec.lo), v <= rat(spec.hi)]
        return r

    def cs(self, name):
        r = self.phase.get(name)
        if r is None:
            c, s = z3.Real("c_" + name), z3.Real("s_" + name)
            self.phase[name] = r = (c, s)
            self.cons.append(c * c + s * s == 1)
            spec = self.X.vars.get(name)
            if spec is not None:
                # the arc of the range
                f = ANGLES.get(name, 1.0) / self.den.get(name, 1)
                mid, half = (spec.lo + spec.hi) / 2 * f, (spec.hi - spec.lo) / 2 * f
                if half < math.pi - 1e-6:
                    self.cons.append(rat(math.cos(mid)) * c + rat(math.sin(mid)) * s >= rat(math.cos(half) - 1e-12))
        return r

    def cs_pow(self, name, n):
        """(cos(n t), sin(n t)) as polynomials in c, s; t = base angle"""
        k = (name, n)
        r = self.powers.get(k)
        if r is not None:
            return r
        if n == 0:
            r = (z3.RealVal(1), z3.RealVal(0))
        elif n < 0:
            c, s = self.cs_pow(name, -n)
            r = (c, -s)
        elif n == 1:
            r = self.cs(name)
        else:
            c1, s1 = self.cs(name)
            # Chebyshev: T_n(c), U_{n-1}(c)
            T = [[Fraction(1)], [Fraction(0), Fraction(1)]]
            U = [[Fraction(1)], [Fraction(0), Fraction(2)]]
            for _ in range(2, n + 1):
                for P in (T, U):
                    a = [Fraction(0)] + [2 * x for x in P[-1]]
                    b = P[-2] + [Fraction(0)] * (len(a) - len(P[-2]))
                    P.append([x - y for x, y in zip(a, b)])

            def ev(co):
                terms = []
                for e, x in enumerate(co):
                    if x:
                        t = z3.RealVal(str(x))
                        for _ in range(e):
                            t = t * c1
                        terms.append(t)
                return z3.Sum(terms) if terms else z3.RealVal(0)
            r = (ev(T[n]), s1 * ev(U[n - 1]))
        self.powers[k] = r
        return r

    def atom(self, i):
        v = self.memo.get(i)
        if v is not None:
            return v
        a = TABLE.atoms[i]
        if a.kind == "var":
            v = self.var(a.name)
        elif a.kind == "sqrt":
            v = z3.Real(f"sqrt{i}")
            p = self.real(a.args[0])
            self.cons.append(v >= 0)
            self.cons.append(z3.Or(p < 0, v * v == p))
        elif a.kind == "inv":
            v = z3.Real(f"inv{i}")
            p = self.real(a.args[0])
            self.cons.append(z3.Or(p == 0, v * p == 1))
        elif a.kind == "ite":
            v = z3.If(self.cond(a.args[0]), self.real(a.args[1]), self.real(a.args[2]))
        elif a.kind == "bit":
            v = z3.If(self.cond(a.args[0]), z3.RealVal(1), z3.RealVal(0))
        elif a.kind == "floor":
            n = z3.Int(f"floor{i}")
            p = self.real(a.args[0])
            v = z3.ToReal(n)
            self.cons.append(v <= p)
            self.cons.append(p < v + 1)
        elif a.kind == "exp":
            v = z3.Real(f"exp{i}")
            self.cons.append(v > 0)
            p = self.real(a.args[0])
            self.cons.append(z3.And(z3.Implies(p > 0, v > 1), z3.Implies(p < 0, v < 1), z3.Implies(p == 0, v == 1)))
        elif a.kind == "log":
            v = z3.Real(f"log{i}")
            p = self.real(a.args[0])
            self.cons.append(z3.And(z3.Implies(p > 1, v > 0), z3.Implies(p < 1, v < 0), z3.Implies(p == 1, v == 0)))
        elif a.kind == "fn":
            v = z3.Real(f"{a.name}{i}")
            args = [self.real(x) for x in a.args]
            f = FN_LOWER.get(a.name)
            if f is not None:
                self.cons.extend(f(self, a, v, args))
        else:
            raise Unsupported(f"lowering of {a.kind}")
        if a.kind in ("exp", "log") or a.kind == "fn" and a.name in ("arcsin", "arccos"):
            lo, hi = poly.atom_range(i)
            for x, c in ((lo, lambda q: v >= q), (hi, lambda q: v <= q)):
                if abs(x) < 1e12:
                    self.cons.append(c(rat(x - 1e-9 * abs(x) if x == lo else x + 1e-9 * abs(x))))
        self.memo[i] = v
        return v

    def apow(self, i, e):
        k = (i, e)
        r = self.powers.get(k)
        if r is None:
            a = TABLE.atoms[i]
            if e < 0:
                iv = z3.Real(f"rcp{i}")
                if ("rcp", i) not in self.powers:
                    self.powers[("rcp", i)] = iv
                    v = self.atom(i)
                    self.cons.append(z3.Or(v == 0, v * iv == 1))
                v, n = iv, -e
            else:
                v, n = self.atom(i), e
            if isinstance(n, Fraction):
                root = z3.Real(f"root{i}_{n.denominator}")
                if ("root", i, n.denominator) not in self.powers:
                    self.powers[("root", i, n.denominator)] = root
                    x = self.atom(i)
                    t = root
                    for _ in range(n.denominator - 1):
                        t = t * root
                    self.cons.append(z3.And(root >= 0, t == x))
                n = n.numerator
                v = root
            r = v
            for _ in range(n - 1):
                r = r * v
            self.powers[k] = r
        return r

    def parts(self, p):
        """(re, im) z3 expressions of a polynomial"""
        if not isinstance(p, Sym):
            c = complex(p)
            return rat(c.real), rat(c.imag)
        re, im = [], []
        for m, c in p.t.items():
            ph = None
            fac = None
            for i, e in m:
                a = TABLE.atoms[i]
                if a.kind == "phase":
                    n = e * self.den.get(a.args[0].name, 1)
                    assert n == int(n)
                    q = self.cs_pow(a.args[0].name, int(n))
                    ph = q if ph is None else (ph[0] * q[0] - ph[1] * q[1], ph[0] * q[1] + ph[1] * q[0])
                else:
                    v = self.apow(i, e)
                    fac = v if fac is None else fac * v
            c = complex(c)

            def term(x):
                """x * fac (x z3 or None)"""
                if fac is None:
                    return x
                return x * fac
            if ph is None:
                if c.real:
                    re.append(rat(c.real) if fac is None else rat(c.real) * fac)
                if c.imag:
                    im.append(rat(c.imag) if fac is None else rat(c.imag) * fac)
            else:
                if c.real:
                    re.append(rat(c.real) * term(ph[0]))
                    im.append(rat(c.real) * term(ph[1]))
                if c.imag:
                    re.append(rat(-c.imag) * term(ph[1]))
                    im.append(rat(c.imag) * term(ph[0]))
        f = lambda t: z3.RealVal(0) if not t else (t[0] if len(t) == 1 else z3.Sum(t))
        return f(re), f(im)

    def real(self, p):
        return self.parts(p)[0]

    def cond(self, f):
        if _isbool(f):
            return z3.BoolVal(bool(f))
        k = f.key()
        r = self.bmemo.get(k)
        if r is not None:
            return r
        if f.op in ("lt", "le", "eq"):
            v = self.real(clear_inv_sign(f))
            r = {"lt": v < 0, "le": v <= 0, "eq": v == 0}[f.op]
        elif f.op == "and":
            r = z3.And(self.cond(f.args[0]), self.cond(f.args[1]))
        elif f.op == "or":
            r = z3.Or(self.cond(f.args[0]), self.cond(f.args[1]))
        elif f.op == "not":
            r = z3.Not(self.cond(f.args[0]))
        else:
            raise Unsupported(f.op)
        self.bmemo[k] = r
        return r

    def inside(self, f, eps, neg=False):
        """f, away from its border by eps (neg: the opposite of f)"""
        if _isbool(f):
            return z3.BoolVal(bool(f) != neg)
        if f.op in ("lt", "le"):
            v = self.real(clear_inv_sign(f))
            return v >= rat(eps) if neg else v <= -rat(eps)
        if f.op in ("and", "or"):
            a = [self.inside(g, eps, neg) for g in f.args]
            return z3.And(a) if (f.op == "and") != neg else z3.Or(a)
        if f.op == "not":
            return self.inside(f.args[0], eps, not neg)
        return z3.Not(self.cond(f)) if neg else self.cond(f)


def clear_inv_sign(f):
    return f.args[0]


def clear_denominators(p, limit=4000):
    """multiply out inverse atoms and negative powers of variables: p = num / den (den a list of polynomials)"""
    den = []
    for _ in range(12):
        worst = {}
        for m in p.t:
            for i, e in m:
                a = TABLE.atoms[i]
                if a.kind == "inv" and e > 0:
                    worst[i] = max(worst.get(i, 0), e)
                elif a.kind in ("var", "sqrt") and e < 0:
                    worst[i] = max(worst.get(i, 0), -e)
        if not worst:
            break
        i = max(worst)
        a = TABLE.atoms[i]
        n = worst[i]
        if a.kind == "inv":
            base = a.args[0]
            pw = [Sym.const(1.0)]
            for _ in range(n):
                pw.append(pw[-1] * base)
            groups = {}
            for m, c in p.t.items():
                e = dict(m).get(i, 0)
                rest = tuple(x for x in m if x[0] != i)
                groups.setdefault(e, {})
                g = groups[e]
                g[rest] = g.get(rest, 0.0) + c
            res = Sym({})
            for e, g in groups.items():
                res = res + Sym({k: v for k, v in g.items() if v != 0}) * pw[n - e]
            den.extend([base] * n)
        else:
            res = p * Sym({((i, n),): 1.0})
            if a.kind == "sqrt" and n > 1:
                res = Sym({})
                groups = {}
                for m, c in p.t.items():
                    e = dict(m).get(i, 0)
                    groups.setdefault(e + n, {})[tuple(x for x in m if x[0] != i)] = c
                for e, g in groups.items():
                    f = Sym.atom(a) if e % 2 else Sym.const(1.0)
                    for _ in range(e // 2):
                        f = f * a.args[0]
                    res = res + Sym(g) * f
            den.extend([Sym.atom(a)] * n)
        p = res
        if len(p.t) > limit:
            return None, None
    else:
        return None, None
    return p, den
