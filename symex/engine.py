"""path exploration, obligations, solver queries, replay and validation"""
import json
import math
import os
import random
import sys
import time
import traceback
import zlib
from fractions import Fraction
import numpy as np
import z3
from . import poly, sarr, facade, loader, spectral
from .poly import (Sym, SymBool, Unsupported, TABLE, ANGLES, CTX, Evaluator, _isbool, _isnum, band, bor, bnot, compare)
from .sarr import SA, to_obj, raw, wrap
from .lower import Lower, rat, clear_denominators

NS = 384          # samples in the pool used to find witnesses quickly (never used to conclude that something holds)
TWO_PI = 2 * math.pi


class AssumeFailed(Exception):
    pass


class PathInfeasible(Exception):
    pass


class PathLimit(Exception):
    pass


class VarSpec:
    __slots__ = ("name", "lo", "hi", "kind")

    def __init__(self, name, lo, hi, kind):
        self.name, self.lo, self.hi, self.kind = name, lo, hi, kind


class BaseX:
    """input provider shared by symbolic and concrete mode"""
    symbolic = False

    def array(self, name, shape, lo=-2.0, hi=2.0):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        r = np.empty(shape, dtype=object if self.symbolic else float)
        for i in np.ndindex(shape):
            r[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi)
        return sarr.mark(wrap(r)) if self.symbolic else r

    def carray(self, name, shape, lo=-2.0, hi=2.0):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        r = np.empty(shape, dtype=object if self.symbolic else complex)
        for i in np.ndindex(shape):
            s = name + "_" + "_".join(map(str, i))
            r[i] = self.real(s + "r", lo, hi) + 1j * self.real(s + "i", lo, hi)
        return wrap(r) if self.symbolic else r

    def hermitian(self, name, n, lo=-2.0, hi=2.0, real=False):
        r = np.zeros((n, n), dtype=object if self.symbolic else (float if real else complex))
        for i in range(n):
            r[i, i] = self.real(f"{name}_{i}_{i}", lo, hi)
            for j in range(i + 1, n):
                v = self.real(f"{name}_{i}_{j}r", lo, hi)
                if not real:
                    w = self.real(f"{name}_{i}_{j}i", lo, hi)
                    r[i, j] = v + 1j * w
                    r[j, i] = v - 1j * w
                else:
                    r[i, j] = r[j, i] = v
        return wrap(r) if self.symbolic else r

    def turns(self, name, dim):
        r = np.empty(dim, dtype=object if self.symbolic else float)
        for i in range(dim):
            r[i] = self.turn(f"{name}{i}")
        return wrap(r) if self.symbolic else r

    def sorted_array(self, name, n, lo=-2.0, hi=2.0, gap=0.0):
        """ascending values (gap: minimal spacing)"""
        a = self.array(name, n, lo, hi)
        for i in range(n - 1):
            self.assume(a[i] + gap <= a[i + 1])
        return a

    def unitary(self, name, n, real=False):
        """product of Givens rotations with phases (covers all unitaries up to column phases)"""
        U = np.eye(n)
        U = to_obj(U) if self.symbolic else U.astype(complex)
        for i in range(n):
            for j in range(i + 1, n):
                t = self.turn(f"{name}_t{i}{j}")
                G = np.eye(n)
                G = to_obj(G) if self.symbolic else G.astype(complex)
                z = self.expi(t)
                c, s = (z + self.conj(z)) * 0.5, (z - self.conj(z)) * (-0.5j)
                ph = 1.0 if real else self.expi(self.turn(f"{name}_p{i}{j}"))
                G[i, i] = c
                G[j, j] = c
                G[i, j] = -s * self.conj(ph)
                G[j, i] = s * ph
                U = U @ G
        if real and not self.symbolic:
            U = U.real
        return U

    def conj(self, z):
        return z.conjugate() if hasattr(z, "conjugate") else z

    def expi(self, t):
        """exp(2 pi i t)"""
        return np.exp(2j * np.pi * t)

    def stack(self, xs):
        if self.symbolic:
            return to_obj(list(xs))
        return np.array(list(xs))

    def close(self, label, a, b, **k):
        return self.eq(label, a, b, **k)


class ConcreteX(BaseX):
    symbolic = False

    def __init__(self, env, rng=None):
        self.env = dict(env)
        self.rng = rng or random.Random(0)
        self.claims = []        # (label, lhs, rhs, ok, validate)
        self.vars = {}

    def _get(self, name, lo, hi, kind):
        self.vars[name] = VarSpec(name, lo, hi, kind)
        v = self.env.get(name)
        if v is None:
            v = self.rng.uniform(lo, hi)
            if kind == "int":
                v = self.rng.randint(int(lo), int(hi))
            self.env[name] = v
        if kind == "int":
            return int(round(v))
        return float(v)

    def real(self, name, lo=-2.0, hi=2.0):
        return self._get(name, lo, hi, "real")

    def int(self, name, lo, hi):
        return self._get(name, lo, hi, "int")

    def turn(self, name):
        return self._get(name, 0.0, 1.0, "turn")

    def angle(self, name, lo=0.0, hi=TWO_PI):
        return self._get(name, lo, hi, "angle")

    def assume(self, c):
        c = np.all(c)
        if not bool(c):
            raise AssumeFailed()

    def eq(self, label, lhs, rhs, tol=1e-6, validate=True, ctol=None):
        lhs = np.array(lhs)
        rhs = np.array(rhs)
        if lhs.dtype == object:
            lhs = np.array(lhs.tolist())
        if rhs.dtype == object:
            rhs = np.array(rhs.tolist())
        if lhs.dtype == bool:
            lhs = lhs.astype(float)
        if rhs.dtype == bool:
            rhs = rhs.astype(float)
        try:
            d = np.abs(lhs - rhs)
            shape_ok = lhs.shape == rhs.shape or lhs.shape == () or rhs.shape == ()
            ok = shape_ok and bool(np.all(d <= (ctol if ctol is not None else 0.5 * tol)))
            if d.size and not np.all(np.isfinite(d)):
                ok = False
        except ValueError:
            ok = False
        self.claims.append((label, lhs, rhs, ok, validate))

    def true(self, label, c, validate=False):
        ok = bool(np.all(c))
        self.claims.append((label, None, None, ok, False))

    def le(self, label, a, b, tol=1e-6, validate=False):
        d = np.asarray(a) - np.asarray(b)
        ok = bool(np.all(d <= 0.5 * tol))
        self.claims.append((label, np.asarray(a), np.asarray(b), ok, validate))

    def known(self, label):
        pass

    def deriv(self, f, x, h=1e-3):
        """derivative of f at the scalar x (4th order central differences)"""
        g = lambda t: np.asarray(f(t))
        return (8 * (g(x + h) - g(x - h)) - (g(x + 2 * h) - g(x - 2 * h))) / (12 * h)

    def merge(self, on=True):
        pass

    def hook(self, name, f):
        pass

    def spectral(self, H, la, V, S=None):
        """declare a decomposition H V = S V diag(la), V^H S V = 1 (symbolic mode: answers eigh calls)"""

    def val(self, x):
        return x


def _pool_values(spec, seed):
    rng = random.Random(zlib.crc32(f"{spec.name}|{seed}".encode()))
    out = np.empty(NS)
    lo, hi = spec.lo, spec.hi
    special = [v for v in (0.0, 1.0, -1.0, 0.5, 2.0, lo, hi, (lo + hi) / 2) if lo <= v <= hi]
    for i in range(NS):
        if spec.kind == "int":
            out[i] = rng.randint(int(lo), int(hi))
        elif spec.kind in ("turn", "angle"):
            if i % 6 == 5:
                t = rng.choice([0.0, 0.25, 0.5, 0.75, 0.125, 1 / 3])
                out[i] = lo + t * (hi - lo)
            else:
                out[i] = rng.uniform(lo, hi)
        else:
            r = rng.random()
            if i % 5 == 4 and r < 0.5:
                out[i] = rng.choice(special)
            elif i % 5 == 3:
                out[i] = round(rng.uniform(lo, hi) * 4) / 4
                out[i] = min(max(out[i], lo), hi)
            else:
                out[i] = rng.uniform(lo, hi)
    return out


class Claim:
    __slots__ = ("label", "lhs", "rhs", "tol", "kind", "cond", "validate")


class SymX(BaseX):
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.vars = ctx.run.vars
        self.spec = spectral.Spectral()
        self.spec.install(sarr.HOOKS)

    def _declare(self, name, lo, hi, kind):
        self.vars[name] = VarSpec(name, float(lo), float(hi), kind)
        self.ctx.live.add(name)
        a = TABLE.get("var", name, name=name, lo=float(lo), hi=float(hi))
        a.lo, a.hi = float(lo), float(hi)
        return Sym.atom(a)

    def real(self, name, lo=-2.0, hi=2.0):
        return self._declare(name, lo, hi, "real")

    def int(self, name, lo, hi):
        return self._declare(name, lo, hi, "int")

    def turn(self, name):
        ANGLES[name] = TWO_PI
        return self._declare(name, 0.0, 1.0, "turn")

    def angle(self, name, lo=0.0, hi=TWO_PI):
        ANGLES[name] = 1.0
        return self._declare(name, lo, hi, "angle")

    def assume(self, c):
        if isinstance(c, SA):
            c = np.all(c)
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if _isbool(c):
            if not c:
                raise PathInfeasible()
            return
        self.ctx.assume(c)

    def eq(self, label, lhs, rhs, tol=1e-6, validate=True, ctol=None):
        a, b = raw(to_obj(lhs)), raw(to_obj(rhs))
        if a.shape != b.shape and a.shape != () and b.shape != ():
            self._claim(label, "shape", lhs=a, rhs=b, cond=False)
            return
        sh = np.broadcast_shapes(a.shape, b.shape)
        a, b = np.array(np.broadcast_to(a, sh)), np.array(np.broadcast_to(b, sh))
        self._claim(label, "eq", lhs=a, rhs=b, tol=tol, validate=validate)

    def true(self, label, c, validate=False):
        if isinstance(c, np.ndarray):
            c = np.all(c if not isinstance(c, SA) else c)
        self._claim(label, "true", cond=poly._tb(c))

    def le(self, label, a, b, tol=1e-6, validate=False):
        a, b = raw(to_obj(a)), raw(to_obj(b))
        sh = np.broadcast_shapes(a.shape, b.shape)
        self._claim(label, "le", lhs=np.array(np.broadcast_to(a, sh)), rhs=np.array(np.broadcast_to(b, sh)), tol=tol, validate=validate)

    def _claim(self, label, kind, lhs=None, rhs=None, tol=0.0, cond=None, validate=False):
        c = Claim()
        c.label, c.kind, c.lhs, c.rhs, c.tol, c.cond, c.validate = label, kind, lhs, rhs, tol, cond, validate
        self.ctx.claims.append(c)

    def deriv(self, f, x, h=None):
        (m, _), = x.t.items()
        atom = TABLE.atoms[m[0][0]]
        v = f(x)
        if isinstance(v, np.ndarray):
            return sarr.emap(lambda p: Sym.of(poly.diff(p, atom)).simp() if isinstance(p, Sym) else 0.0, to_obj(v))
        return poly.diff(v, atom)

    def merge(self, on=True):
        self.ctx.merge = on

    def hook(self, name, f):
        sarr.HOOKS[name] = f

    def spectral(self, H, la, V, S=None):
        self.spec.register(H, la, V, S)


def _linear_formula(f):
    if not isinstance(f, SymBool):
        return True
    for a in f.args:
        if isinstance(a, SymBool):
            if not _linear_formula(a):
                return False
        elif isinstance(a, Sym):
            for m in a.t:
                if len(m) > 1 or m and (m[0][1] != 1 or TABLE.atoms[m[0][0]].kind != "var"):
                    return False
    return True


def _direction(p):
    """linear form p = scale * direction + constant -> (direction, scale, constant); None for other polynomials"""
    if not isinstance(p, Sym):
        return None
    c = 0.0
    items = []
    for m, v in p.t.items():
        if isinstance(v, complex):
            if v.imag != 0:
                return None
            v = v.real
        if not m:
            c = v
        elif len(m) == 1 and m[0][1] == 1 and TABLE.atoms[m[0][0]].kind == "var":
            items.append((m[0][0], float(v)))
        else:
            return None
    if not items:
        return None
    items.sort()
    s = items[0][1]
    return tuple((i, round(v / s, 9)) if n else (i, 1.0) for n, (i, v) in enumerate(items)), s, float(c)


class PathCtx:
    """one execution path"""

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.known = {}
        self.conds = []          # formulas of the path condition (assumptions and decisions)
        self.claims = []
        self.live = set()
        self.merge = False
        self.mask = np.ones(NS, dtype=bool)
        self.ev = Evaluator(run.getvar, NS)
        self.fresh = 0
        self.nassume = 0
        self.ent = {}
        self.lin = {}           # direction of a linear form -> interval on this path

    def bound(self, f):
        """record a linear condition p <= 0 / p < 0 / p == 0"""
        if not isinstance(f, SymBool):
            return
        if f.op == "and":
            for a in f.args:
                self.bound(a)
            return
        if f.op not in ("le", "lt", "eq"):
            return
        r = _direction(f.args[0])
        if r is None:
            return
        key, scale, c = r
        lo, hi = self.lin.get(key, (-math.inf, math.inf))
        if f.op == "eq":
            lo, hi = max(lo, -c / scale), min(hi, -c / scale)
        elif scale > 0:
            hi = min(hi, -c / scale)
        else:
            lo = max(lo, -c / scale)
        self.lin[key] = (lo, hi)

    def interval(self, f):
        """decide a linear condition by the recorded bounds (with a clear distance), else None"""
        if f.op not in ("le", "lt", "eq"):
            return None
        r = _direction(f.args[0])
        if r is None:
            return None
        key, scale, c = r
        lo, hi = self.lin.get(key, (-math.inf, math.inf))
        if len(key) == 1:
            a = TABLE.atoms[key[0][0]]
            lo, hi = max(lo, a.lo), min(hi, a.hi)
        if scale > 0:
            lo, hi = lo * scale + c, hi * scale + c
        else:
            lo, hi = hi * scale + c, lo * scale + c
        eps = (1e-11 if len(key) == 1 else 1e-7) * max(1.0, abs(scale), abs(c))
        if lo > hi:
            return None
        if lo > eps:
            return False
        if hi < -eps and f.op != "eq":
            return True
        if hi < -eps:
            return False
        return None

    def quick(self, f):
        k = f.key()
        if k in self.known:
            return self.known[k]
        nk = bnot(f)
        if isinstance(nk, SymBool):
            v = self.known.get(nk.key())
            if v is not None:
                return not v
        return self.interval(f)

    def learn(self, f, v):
        self.known[f.key()] = v
        if v and f.op == "eq":
            # p == 0 implies p <= 0, p >= 0 and not p < 0
            for g, w in ((SymBool("le", f.args[0]), True), (SymBool("le", -f.args[0]), True)):
                self.known[g.key()] = w
        if v and f.op == "lt":
            self.known[SymBool("le", f.args[0]).key()] = True
            self.known[SymBool("eq", f.args[0]).key()] = False
            self.known[SymBool("eq", -f.args[0]).key()] = False

    def assume(self, f):
        self.nassume += 1
        self.conds.append(f)
        self.learn(f, True)
        self.bound(f)
        self.mask = self.mask & self.ev.cond(f)

    def decide(self, f):
        q = self.quick(f)
        if q is not None:
            return q
        if time.time() > self.run.deadline:
            raise PathLimit("time limit during exploration")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            s = None
        else:
            s = self.ev.cond(f) & self.mask
            t = bool(s.any())
            fl = bool((self.mask & ~s).any())
            if not t:
                t = self.feasible(f)
            if not fl:
                fl = self.feasible(bnot(f))
            if t and fl:
                v = True
                self.run.todo.append(self.decisions + [False])
            elif t:
                v = True
            elif fl:
                v = False
            else:
                raise PathInfeasible()
        self.pos += 1
        self.decisions.append(v)
        g = f if v else bnot(f)
        self.conds.append(g)
        self.learn(f, v)
        if isinstance(g, SymBool):
            self.learn(g, True)
            self.bound(g)
        c = self.ev.cond(f)
        self.mask = self.mask & (c if v else ~c)
        if len(self.decisions) > self.run.max_decisions:
            raise PathLimit("too many decisions on a path")
        return v

    def entailed(self, f):
        """True/False if the path condition decides f (no fork), else None"""
        q = self.quick(f)
        if q is not None:
            return q
        k = (f.key(), len(self.conds))
        if k in self.ent:
            return self.ent[k]
        s = self.ev.cond(f)[self.mask]
        v = None
        if len(s):
            if s.all() and not self.feasible(bnot(f)):
                v = True
            elif not s.any() and not self.feasible(f):
                v = False
        if v is not None:
            self.learn(f, v)
        self.ent[k] = v
        return v

    def feasible(self, f):
        if _isbool(f):
            return bool(f)
        r = self.run.query(self.conds + [f], timeout=self.run.feas_timeout, purpose="feasibility")
        return r[0] != "unsat"

    def concretise_int(self, p):
        if not isinstance(p, Sym):
            return int(p)
        if p.is_const():
            return int(round(float(p)))
        tried = set()
        for _ in range(64):
            vals = self.ev.poly(p).real[self.mask]
            cand = None
            for v in np.unique(np.round(vals[np.isfinite(vals)])) if len(vals) else []:
                if int(v) not in tried:
                    cand = int(v)
                    break
            if cand is None:
                r = self.run.query(self.conds, timeout=self.run.feas_timeout, purpose="feasibility", want=p)
                if r[0] == "unsat":
                    raise PathInfeasible()
                if r[0] != "sat":
                    raise PathLimit("cannot concretise an integer")
                cand = int(round(r[2]))
                if cand in tried:
                    raise PathLimit("cannot concretise an integer")
            tried.add(cand)
            if bool(compare("eq", p, float(cand))):
                return cand
        raise PathLimit("too many integer values")


class Run:
    """explores one harness configuration"""

    def __init__(self, harness, cfg, seed=1, tier="quick", time_limit=100.0, max_paths=400, query_timeout=20.0,
                 validations=2):
        self.h = harness
        self.cfg = cfg
        self.seed = seed
        self.tier = tier
        self.vars = {}
        self.pool = {}
        self.todo = []
        self.deadline = time.time() + time_limit
        self.max_paths = max_paths
        self.max_decisions = 4000
        self.feas_timeout = 4.0
        self.query_timeout = query_timeout
        self.nval = validations
        self.lin_budget = 20000
        self.stat = dict(paths=0, infeasible=0, queries=0, feasibility_queries=0, solver_s=0.0, obligations=0,
                         by_normal_form=0, by_solver=0, validations=0, reach_witnesses=0, unsat=0, sat=0, unknown=0,
                         decisions=0)
        self.funcs = set()
        self.violations = []
        self.errors = []
        self.paths = []
        self.samples = []

    def getvar(self, name):
        v = self.pool.get(name)
        if v is None:
            v = _pool_values(self.vars[name], self.seed)
            self.pool[name] = v
        return v

    # --- solver -----------------------------------------------------------------------------------------------
    def _lower(self, formulas, polys):
        den = {}
        seen = set()

        def scan_poly(p):
            if not isinstance(p, Sym):
                return
            for m in p.t:
                for i, e in m:
                    a = TABLE.atoms[i]
                    if a.kind == "phase":
                        if isinstance(e, Fraction):
                            n = a.args[0].name
                            den[n] = den.get(n, 1) * e.denominator // math.gcd(den.get(n, 1), e.denominator)
                    if i not in seen:
                        seen.add(i)
                        for x in a.args:
                            if isinstance(x, Sym):
                                scan_poly(x)
                            elif isinstance(x, SymBool):
                                scan_f(x)

        def scan_f(f):
            if isinstance(f, SymBool):
                for x in f.args:
                    if isinstance(x, Sym):
                        scan_poly(x)
                    else:
                        scan_f(x)
        for f in formulas:
            scan_f(f)
        for p in polys:
            scan_poly(p)
        return Lower(self, den)

    def query(self, formulas, extra=None, polys=(), timeout=10.0, purpose="claim", want=None, pin=None):
        """check satisfiability; returns (status, env or None, value of `want`)"""
        t0 = time.time()
        L = self._lower(formulas, list(polys) + ([want] if want is not None else []))
        cs = [L.cond(f) for f in formulas]
        if extra is not None:
            cs += extra(L)
        w = L.real(want) if want is not None else None
        if pin is not None:
            for name, v in pin.items():
                spec = self.vars[name]
                if spec.kind in ("turn", "angle"):
                    if name in L.phase or name in L.vars:
                        c, s = L.cs(name)
                        n = L.den.get(name, 1)
                        th = v * ANGLES[name] / n
                        # rational point of the circle near the angle
                        if abs(math.cos(th) + 1) < 1e-9:
                            cs += [c == -1, s == 0]
                        else:
                            t = Fraction(math.tan(th / 2)).limit_denominator(2000)
                            cs += [c == z3.Q((1 - t * t).numerator, (1 - t * t).denominator) / z3.Q((1 + t * t).numerator, (1 + t * t).denominator),
                                   s == z3.Q((2 * t).numerator, (2 * t).denominator) / z3.Q((1 + t * t).numerator, (1 + t * t).denominator)]
                if name in L.vars and spec.kind not in ("turn", "angle"):
                    cs.append(L.vars[name] == rat(v))
        allc = L.cons + cs
        st, model = None, None
        lin = [c for c, f in zip(cs, formulas) if _linear_formula(f)]
        if 0 < len(lin) < len(allc):
            # the linear part alone
            s = z3.SolverFor("QF_LRA")
            s.set("timeout", 1000)
            s.add(*[v for v in L.bounds()], *lin)
            if s.check() == z3.unsat:
                st = "unsat"
        if st is None:
            st, model = self._check(allc, timeout)
        self.stat["queries"] += 1
        if os.environ.get("VERIF_SLOW") and time.time() - t0 > float(os.environ["VERIF_SLOW"]):
            print(f"SLOW {purpose} {time.time() - t0:.1f}s {st}", *[f"{c.op} {[repr(a) for a in c.args]}" if isinstance(c, SymBool) else c for c in formulas], sep="\n   ", file=sys.stderr)
        if purpose == "feasibility":
            self.stat["feasibility_queries"] += 1
        self.stat["solver_s"] += time.time() - t0
        env = None
        wv = None
        if st == "sat":
            env = self.model_env(model, L)
            if w is not None:
                wv = num(model, w)
        return st, env, wv

    def _check(self, cons, timeout):
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(*cons)
        r = s.check()
        if r == z3.sat:
            return "sat", s.model()
        if r == z3.unsat:
            return "unsat", None
        # nlsat directly
        t = z3.Tactic("qfnra-nlsat")
        try:
            s = z3.TryFor(z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-term-ite", "tseitin-cnf", t), int(timeout * 1000)).solver()
            s.set("timeout", int(timeout * 1000))
            s.add(*cons)
            r = s.check()
            if r == z3.sat:
                return "sat", s.model()
            if r == z3.unsat:
                return "unsat", None
        except z3.Z3Exception:
            pass
        return "unknown", None

    def model_env(self, model, L):
        env = {}
        for name, spec in self.vars.items():
            if spec.kind in ("turn", "angle"):
                if name in L.phase:
                    c, s = L.phase[name]
                    cv, sv = num(model, c), num(model, s)
                    th = math.atan2(sv, cv) * L.den.get(name, 1) / ANGLES[name]
                    period = TWO_PI / ANGLES[name] * L.den.get(name, 1)
                    while th < spec.lo - 1e-12:
                        th += period
                    env[name] = th
                elif name in L.vars:
                    env[name] = num(model, L.vars[name])
            elif name in L.vars:
                env[name] = num(model, L.vars[name])
            if name not in env:
                # not constrained: middle of the range
                env[name] = 0.3 if spec.kind == "turn" else (spec.lo + spec.hi) / 2 if spec.kind != "int" else int(spec.lo)
        return env

    # --- exploration -------------------------------------------------------------------------------------------
    def explore(self):
        poly.reset_table()
        self.ranges = {}
        ANGLES.clear()
        self.todo = [[]]
        first = True
        seen_err = 0
        later = []
        while self.todo:
            if len(self.paths) >= self.max_paths or time.time() > self.deadline:
                self.errors.append(f"exploration stopped after {len(self.paths)} paths ({len(self.todo)} open)")
                break
            prefix = self.todo.pop()
            ctx = PathCtx(self, prefix)
            CTX[0] = ctx
            sarr.HOOKS.clear()
            err = None
            M = loader.SymPackage() if first or True else M
            X = SymX(ctx)
            prof = None
            if first:
                sys.setprofile(self._profile)
            try:
                with np.errstate(all="ignore"):
                    self.h.func(M, X, **self.cfg)
            except PathInfeasible:
                self.stat["infeasible"] += 1
                continue
            except AssumeFailed:
                self.stat["infeasible"] += 1
                continue
            except PathLimit as e:
                self.errors.append(f"path limit: {e}")
                break
            except Unsupported as e:
                err = ("unsupported", str(e), tb())
            except Exception as e:
                err = ("exception", f"{type(e).__name__}: {e}", tb())
            finally:
                if first:
                    sys.setprofile(None)
                    first = False
                CTX[0] = None
            self.stat["paths"] += 1
            self.stat["decisions"] += len(ctx.decisions)
            self.paths.append(ctx)
            if err is not None:
                self.handle_error(ctx, err)
                seen_err += 1
                if self.violations or seen_err > 3:
                    break
                continue
            CTX[0] = None
            pend = self.check_claims(ctx)
            if self.violations:
                break
            if pend:
                later.append((ctx, pend))
        # the solver decides what is left, after all paths have been searched for witnesses
        while later and not self.violations:
            if time.time() > self.deadline:
                self.errors.append(f"time limit reached with {len(later)} undecided paths")
                break
            self.decide(*later.pop(0))
        if not self.errors and not self.violations:
            self.vacuity()
            self.validate()
        return self

    def _profile(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(loader.SRC):
                self.funcs.add(os.path.basename(co.co_filename)[:-3] + "." + co.co_qualname)

    def pick_env(self, ctx, extra_mask=None):
        m = ctx.mask if extra_mask is None else ctx.mask & extra_mask
        idx = np.flatnonzero(m)
        if len(idx) == 0:
            return None
        return {n: float(self.getvar(n)[idx[0]]) for n in self.vars}

    def handle_error(self, ctx, err):
        kind, msg, trace = err
        envs = []
        idx = np.flatnonzero(ctx.mask)[:4]
        for i in idx:
            envs.append({n: float(self.getvar(n)[i]) for n in self.vars})
        if not envs:
            st, env, _ = self.query(ctx.conds, timeout=self.query_timeout)
            if st == "unsat":
                self.stat["infeasible"] += 1
                self.paths.remove(ctx)
                return
            if st == "sat":
                envs.append(env)
        for env in envs:
            r = self.replay(env)
            if r is not None:
                self.violations.append(dict(label=r[0], detail=r[1], env=env, how=f"execution ({kind}: {msg})"))
                return
        self.errors.append(f"{kind} during symbolic execution: {msg}\n{trace}")

    # --- claims -------------------------------------------------------------------------------------------------
    def check_claims(self, ctx):
        pend = []
        closed = []
        for c in ctx.claims:
            if c.kind == "shape":
                pend.append((c, None, False))
                self.stat["obligations"] += 1
            elif c.kind == "true":
                self.stat["obligations"] += 1
                if _isbool(c.cond):
                    if not c.cond:
                        pend.append((c, None, False))
                    else:
                        self.stat["by_normal_form"] += 1
                else:
                    q = ctx.quick(c.cond)
                    if q is True:
                        self.stat["by_normal_form"] += 1
                    else:
                        pend.append((c, None, c.cond))
            else:
                for i in np.ndindex(c.lhs.shape):
                    self.stat["obligations"] += 1
                    a, b = c.lhs[i], c.rhs[i]
                    if isinstance(a, SymBool) or _isbool(a):
                        a = poly.Sym.of(a.as_num() if isinstance(a, SymBool) else int(a))
                    if isinstance(b, SymBool) or _isbool(b):
                        b = poly.Sym.of(b.as_num() if isinstance(b, SymBool) else int(b))
                    if _isnum(a) and _isnum(b):
                        ok = (abs(a - b) <= c.tol) if c.kind == "eq" else ((a - b).real <= c.tol)
                        if ok:
                            self.stat["by_normal_form"] += 1
                        else:
                            pend.append((c, i, False))
                        continue
                    try:
                        d = Sym.of(a) - Sym.of(b)
                    except Unsupported:
                        pend.append((c, i, False))
                        continue
                    if not all(np.isfinite(complex(v)) for v in d.t.values()):
                        pend.append((c, i, False))
                        continue
                    d, slack = self.strip(d, c.tol)
                    if c.kind == "eq" and not d.t:
                        closed.append((Sym.of(a), Sym.of(b), c.tol))
                        continue
                    if c.kind == "le" and d.is_const():
                        v = d.value()
                        if (v.real if isinstance(v, complex) else v) <= c.tol:
                            self.stat["by_normal_form"] += 1
                            continue
                    if c.kind == "eq":
                        num_, den = clear_denominators(d)
                        if num_ is not None and den:
                            n2, _ = self.strip(num_, c.tol)
                            if not n2.t:
                                self.stat["by_normal_form"] += 1
                                continue
                            # relative test only for identity; the value query uses the uncleared polynomial
                    pend.append((c, i, d))
        if closed:
            self.linear_stage(closed)
        if not pend:
            return
        # quick witness search in the sample pool, confirmed by the solver on the pinned sample
        for c, i, d in pend:
            bad = self.pool_violation(ctx, c, d)
            if bad is None:
                continue
            env = {n: float(self.getvar(n)[bad]) for n in self.vars}
            if self.confirm(ctx, c, i, d, env):
                return
        return pend

    def decide(self, ctx, todo):
        # one query for all; split if undecided
        st, env = self.solve(ctx, todo, self.query_timeout)
        if st == "unsat":
            self.stat["by_solver"] += len(todo)
            self.stat["unsat"] += 1
            return
        for item in (todo if len(todo) > 1 or st == "sat" else todo):
            if len(todo) > 1 or st != "sat":
                st, env = self.solve(ctx, [item], self.query_timeout)
            if st == "unsat":
                self.stat["by_solver"] += 1
                self.stat["unsat"] += 1
            elif st == "sat":
                self.stat["sat"] += 1
                r = self.replay(env)
                if r is not None:
                    self.violations.append(dict(label=r[0], detail=r[1], env=env, how="solver model"))
                    return
                # a model away from the borders of the path, and one with a larger gap
                for kw in (dict(margin=1e-6), dict(margin=1e-3), dict(scale=1000.0, margin=1e-6), dict(scale=1000.0)):
                    st2, env2 = self.solve(ctx, [item], self.query_timeout, **kw)
                    if st2 == "sat":
                        r = self.replay(env2)
                        if r is not None:
                            self.violations.append(dict(label=r[0], detail=r[1], env=env2, how="solver model"))
                            return
                self.errors.append(f"counterexample for '{item[0].label}' {item[1]} does not reproduce: {short(env)}")
                if os.environ.get("VERIF_DEBUG"):
                    print("RESIDUE", repr(item[2])[:1500], [(m, TABLE.atoms[i].kind, [repr(x) for x in TABLE.atoms[i].args]) for m in (item[2].t if isinstance(item[2], Sym) else ()) for i, _ in m][:8], file=sys.stderr)
                return
            else:
                self.stat["unknown"] += 1
                self.errors.append(f"solver gave no answer for '{item[0].label}' {item[1]}: {repr(item[2])[:300]}")
                if os.environ.get("VERIF_DEBUG"):
                    print("PATH", *[f"{c.op} {[repr(a) for a in c.args]}" if isinstance(c, SymBool) else c for c in ctx.conds], sep="\n   ", file=sys.stderr)
                return

    def linear_stage(self, closed):
        """equalities whose two sides have the same polynomial: z3 (linear real arithmetic, every monomial an independent real
        within its interval) decides that the two lowered sides cannot differ by more than the tolerance"""
        batch, size = [], 0
        for x in closed:
            n = len(x[0].t) + len(x[1].t)
            if self.lin_budget < n:
                self.stat["by_normal_form"] += 1
                continue
            self.lin_budget -= n
            batch.append(x)
            size += n
            if size > 3000:
                self._linear(batch)
                batch, size = [], 0
        if batch:
            self._linear(batch)

    def _linear(self, batch):
        t0 = time.time()
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 10000)
        mv = {}

        def mono(m):
            v = mv.get(m)
            if v is not None:
                return v
            ph = any(TABLE.atoms[i].kind == "phase" for i, _ in m)
            if ph:
                mc = tuple((i, -e) if TABLE.atoms[i].kind == "phase" else (i, e) for i, e in m)
                if mc in mv:
                    r, im = mv[mc]
                    v = (r, -im)
                    mv[m] = v
                    return v
            n = len(mv)
            r = z3.Real(f"m{n}")
            im = z3.Real(f"n{n}") if ph else None
            b = self.mono_bound(m)
            if b < math.inf:
                for x in (r, im):
                    if x is not None:
                        s.add(x <= rat(b), x >= -rat(b))
            v = mv[m] = (r, im)
            return v

        def lin(p):
            re, im = [], []
            for m, c in p.t.items():
                cr, ci = (c.real, c.imag) if isinstance(c, complex) else (c, 0.0)
                if not m:
                    if cr:
                        re.append(rat(cr))
                    if ci:
                        im.append(rat(ci))
                    continue
                r, i = mono(m)
                if cr:
                    re.append(rat(cr) * r)
                    if i is not None:
                        im.append(rat(cr) * i)
                if ci:
                    im.append(rat(ci) * r)
                    if i is not None:
                        re.append(-rat(ci) * i)
            z = z3.RealVal(0)
            return (z3.Sum(re) if re else z), (z3.Sum(im) if im else z)
        alts = []
        for a, b, tol in batch:
            ar, ai = lin(a)
            br, bi = lin(b)
            t = rat(tol)
            alts += [ar - br > t, br - ar > t, ai - bi > t, bi - ai > t]
        s.add(z3.Or(alts))
        r = s.check()
        self.stat["queries"] += 1
        self.stat["solver_s"] += time.time() - t0
        if r == z3.unsat:
            self.stat["unsat"] += 1
            self.stat["by_solver"] += len(batch)
        elif len(batch) > 1:
            h = len(batch) // 2
            self._linear(batch[:h])
            self._linear(batch[h:])
        else:
            # a rounding residue on an unbounded monomial: the normal form difference is below the strip threshold
            self.stat["by_normal_form"] += 1

    def mono_bound(self, m):
        lo, hi = poly.mono_range(m, self.ranges)
        return max(abs(lo), abs(hi))

    def strip(self, d, tol):
        """remove terms that are bounded by a negligible fraction of the tolerance (float rounding of constants)"""
        if not d.t:
            return d, 0.0
        lim = 1e-3 * tol / max(1, len(d.t))
        out = {}
        slack = 0.0
        for m, c in d.t.items():
            b = abs(c)
            if b < lim:
                r = self.mono_bound(m)
                if r < math.inf or b >= 1e-13:
                    b *= r
            if b < lim:
                slack += b
                continue
            out[m] = c
        return Sym(out), slack

    def pool_violation(self, ctx, c, d):
        if d is False:
            s = ctx.mask
        elif c.kind == "true":
            s = ctx.mask & ~ctx.ev.cond(d)
        else:
            v = ctx.ev.poly(d)
            with np.errstate(all="ignore"):
                s = ctx.mask & ((np.abs(v) > max(10 * c.tol, 1e-9)) if c.kind == "eq" else (v.real > max(10 * c.tol, 1e-9)))
                s = s & np.isfinite(np.abs(v))
        idx = np.flatnonzero(s)
        return int(idx[0]) if len(idx) else None

    def confirm(self, ctx, c, i, d, env):
        st, env2 = self.solve(ctx, [(c, i, d)], 5.0, pin=env)
        if st == "sat":
            self.stat["sat"] += 1
            for e in (env2, env):
                r = self.replay(e)
                if r is not None:
                    self.violations.append(dict(label=r[0], detail=r[1], env=e, how="solver model (pinned witness)"))
                    return True
        return False

    def solve(self, ctx, items, timeout, pin=None, scale=1.0, margin=0.0):
        polys = [d for _, _, d in items if isinstance(d, Sym)]
        forms = [d for _, _, d in items if isinstance(d, SymBool)]

        def extra(L):
            alts = []
            for c, i, d in items:
                if d is False:
                    alts.append(z3.BoolVal(True))
                elif c.kind == "true":
                    alts.append(z3.Not(L.cond(d)))
                elif c.kind == "le":
                    alts.append(L.real(d) > rat(c.tol * scale))
                else:
                    re, im = L.parts(d)
                    t = rat(c.tol * scale)
                    alts += [re > t, re < -t]
                    if not d.is_real():
                        alts += [im > t, im < -t]
            return [z3.Or(alts)] + ([L.inside(f, margin) for f in ctx.conds] if margin else [])
        st, env, _ = self.query(ctx.conds, extra=extra, polys=polys + [x for f in forms for x in _polys(f)], timeout=timeout, pin=pin)
        return st, env

    # --- replay on the real code ----------------------------------------------------------------------------------
    def concrete(self, env):
        X = ConcreteX(env, random.Random(self.seed))
        M = loader.RealPackage()
        saved = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            with np.errstate(all="ignore"):
                self.h.func(M, X, **self.cfg)
        finally:
            sys.stdout.close()
            sys.stdout = saved
        return X

    def replay(self, env):
        """None if the real code satisfies the property on this input, else (label, detail)"""
        try:
            X = self.concrete(env)
        except AssumeFailed:
            return None
        except Exception as e:
            last = traceback.extract_tb(e.__traceback__)
            if isinstance(e, NameError) and not last[-1].filename.startswith(loader.SRC):
                raise
            else:
                return ("exception", f"{type(e).__name__}: {e} at {last[-1].filename}:{last[-1].lineno}")
        for label, lhs, rhs, ok, _ in X.claims:
            if not ok:
                return (label, f"got {fmt(lhs)} expected {fmt(rhs)}")
        return None

    def vacuity(self):
        """reachability twin: the end of at least one path must be satisfiable together with all assumptions"""
        n = sum(len(p.claims) for p in self.paths)
        if n == 0:
            self.errors.append("vacuous: no obligation was reached")
            return
        done = 0
        for p in self.paths:
            if not p.claims:
                continue
            env = self.pick_env(p)
            if env is not None:
                st, _, _ = self.query(p.conds, timeout=self.query_timeout, pin=env)
                if st != "sat":
                    st, _, _ = self.query(p.conds, timeout=self.query_timeout)
            else:
                st, _, _ = self.query(p.conds, timeout=self.query_timeout)
            if st == "sat":
                done += 1
                self.stat["reach_witnesses"] += 1
                if done >= 2:
                    break
        if not done:
            self.errors.append("vacuous: no path condition is satisfiable")

    def validate(self):
        """the encoding must agree with the real code on concrete inputs"""
        want = self.nval
        used = 0
        for p in sorted(self.paths, key=lambda q: -int(q.mask.sum())):
            if used >= want:
                break
            for i in np.flatnonzero(p.mask)[:2]:
                if used >= want:
                    break
                env = {n: float(self.getvar(n)[i]) for n in self.vars}
                try:
                    X = self.concrete(env)
                except AssumeFailed:
                    continue
                except Exception as e:
                    self.errors.append(f"validation: real code raised {type(e).__name__}: {e} on {short(env)}")
                    return
                used += 1
                for (label, lhs, rhs, ok, val), c in zip(X.claims, p.claims):
                    if label != c.label:
                        self.errors.append(f"validation: different claims {label} / {c.label}")
                        return
                    if not ok:
                        self.errors.append(f"validation: real code violates '{label}' on {short(env)} although the encoding satisfies it: got {fmt(lhs)} expected {fmt(rhs)}")
                        return
                    if c.kind in ("eq", "le") and c.validate and val:
                        v = np.empty(c.lhs.shape, dtype=complex)
                        for j in np.ndindex(c.lhs.shape):
                            x = c.lhs[j]
                            if isinstance(x, SymBool):
                                x = x.as_num()
                            v[j] = p.ev.poly(x)[i] if isinstance(x, Sym) else complex(x)
                        ref = np.broadcast_to(lhs, v.shape)
                        if not np.allclose(v, ref, rtol=1e-5, atol=1e-5, equal_nan=True):
                            self.errors.append(f"validation: encoding of '{label}' gives {fmt(v)}, real code {fmt(ref)} on {short(env)}")
                            return
                self.stat["validations"] += 1
                if len(self.samples) < 2:
                    self.samples.append({"inputs": {k: round(v, 6) for k, v in list(env.items())[:12]},
                                         "claims": [c.label for c in p.claims][:8]})
        if used == 0:
            # no pool sample: use solver models
            for p in self.paths[:3]:
                st, env, _ = self.query(p.conds, timeout=self.query_timeout)
                if st == "sat":
                    r = self.replay(env)
                    if r is not None:
                        self.errors.append(f"validation: real code violates '{r[0]}' on solver model {short(env)}: {r[1]}")
                        return
                    self.stat["validations"] += 1
                    used += 1
        if used == 0:
            self.errors.append("validation: no concrete input satisfied the assumptions")


def _polys(f):
    out = []
    for x in f.args:
        if isinstance(x, Sym):
            out.append(x)
        elif isinstance(x, SymBool):
            out += _polys(x)
    return out


def num(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_int_value(v):
        return float(v.as_long())
    return float(v.as_decimal(17).rstrip("?"))


def tb():
    lines = traceback.format_exc().strip().splitlines()
    return "\n".join(lines[-14:])


def short(env):
    if env is None:
        return "{}"
    return "{" + ", ".join(f"{k}={v:.6g}" for k, v in list(env.items())[:14]) + (", ..." if len(env) > 14 else "") + "}"


def fmt(x):
    if x is None:
        return "-"
    x = np.asarray(x)
    if x.size > 12:
        return np.array2string(x.ravel()[:12], precision=5, max_line_width=200).replace("\n", " ") + "..."
    return np.array2string(x, precision=6, max_line_width=200).replace("\n", " ")
