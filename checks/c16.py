"""C16: integrals with the Fermi function are exact for the documented functions"""
import math
from symex.driver import harness, assumptions
from .common import *
from .c14 import patched, dos

assumptions("C16", "exp and log are exact functions with their algebraic laws, polylogarithms are characterised by their derivative",
            "inverse temperatures between 0.5 and 4 in units of the energy")


def fermi(x, beta=1.0):
    return 1 / (1 + np.exp(beta * x))


def data(X, n, batch):
    x, beta = X.real("x", -2, 2), X.real("beta", 0.5, 4)
    d = X.array("d", n - 1, 0.25, 1.5)
    e = [X.real("e0", -2, 0)]
    for v in d:
        e.append(e[-1] + v)
    y = X.array("y", batch + (n,), -1, 2)
    return x, beta, X.stack(e), y


def reference(x, beta, e, y):
    """integral of the piecewise linear function times -f'(e - x), by parts"""
    r = 0.0
    for a, b, u, v in zip(e[:-1], e[1:], y[:-1], y[1:]):
        r = r + u * fermi(a - x, beta) - v * fermi(b - x, beta)
        r = r + (v - u) / (b - a) / beta * (np.log(1 + np.exp(-beta * (a - x))) - np.log(1 + np.exp(-beta * (b - x))))
    return r


OPTIONS = [("flat", False), (None, False), ("flat", True)]


@harness("C16", cfgs=[dict(n=n, batch=b, ext=e, point=p) for n, b in ((2, ()), (3, ()), (2, (2,))) for e, p in OPTIONS])
def convolution(M, X, n, batch, ext, point):
    """convolve_df is the exact convolution of the piecewise linear function with the derivative of the Fermi function, for every energy, temperature and function"""
    x, beta, e, y = data(X, n, batch)
    D = M.density_of_states
    top, cnt = e[-1] + X.real("top", 0.0, 2.0), X.real("count", 0, 3)
    r = D.convolve_df(x, e, y, beta, extrapolation=ext, extrapolation_point=(top, cnt) if point else None)
    X.eq("shape", list(np.shape(r)), list(batch))
    for b in np.ndindex(batch):
        ref = reference(x, beta, e, y[b])
        if ext and not point:
            # constant below and above
            ref = ref + y[b][0] * (1 - fermi(e[0] - x, beta)) + y[b][-1] * fermi(e[-1] - x, beta)
        elif point:
            ref = ref + cnt * fermi(top - x, beta)
        X.eq("convolution", r[b] if batch else r, ref)


@harness("C16", cfgs=[dict(n=n, batch=b, ext=e, point=p) for n, b in ((2, ()), (3, ()), (2, (2,))) for e, p in OPTIONS])
def derivative(M, X, n, batch, ext, point):
    """convolve_ddf is the derivative of convolve_df in the energy"""
    x, beta, e, y = data(X, n, batch)
    D = M.density_of_states
    top, cnt = e[-1] + X.real("top", 0.0, 2.0), X.real("count", 0, 3)
    k = dict(extrapolation=ext, extrapolation_point=(top, cnt) if point else None)
    r = D.convolve_ddf(x, e, y, beta, **k)
    X.eq("shape", list(np.shape(r)), list(batch))
    X.eq("derivative", r, X.deriv(lambda t: D.convolve_df(t, e, y, beta, **k), x))


@harness("C16")
def normalisation(M, X):
    """a constant function stays constant, a linear function has no energy shift"""
    x, beta, e, _ = data(X, 4, ())
    c = X.real("c", -2, 2)
    D = M.density_of_states
    X.eq("constant", D.convolve_df(x, e, X.stack([c] * 4), beta), c)
    X.eq("zero density", D.convolve_ddf(x, e, X.stack([c] * 4), beta), 0.0)
    # an inserted point on the line changes nothing
    y = [X.real("y0", -1, 2), X.real("y1", -1, 2)]
    two = X.stack([e[0], e[2]])
    mid = y[0] + (y[1] - y[0]) * (e[1] - e[0]) / (e[2] - e[0])
    three = X.stack([e[0], e[1], e[2]])
    X.eq("subdivision", D.convolve_df(x, three, X.stack([y[0], mid, y[1]]), beta), D.convolve_df(x, two, X.stack(y), beta))


@harness("C16", cfgs=[dict(sign=s) for s in (1, -1)])
def polynomial_integral(M, X, sign):
    """int_poly: derivative in the upper end is the integrand, antisymmetric in the ends, additive, continuous at zero"""
    lo, hi = (0.01, 6.0) if sign > 0 else (-6.0, -0.01)
    a, b, c = (X.real(n, -2, 2) for n in "abc")
    x0, x1 = X.real("x0", lo, hi), X.real("x1", lo, hi)
    P = M.density_of_states.int_poly
    w = np.exp(x1) / (1 + np.exp(x1))**2
    X.eq("integrand", X.deriv(lambda t: P(x0, t, a, b, c), x1), (a * x1 * x1 + b * x1 + c) * w)
    X.eq("empty", P(x0, x0, a, b, c), 0.0)
    X.eq("swapped", P(x1, x0, a, b, c), -P(x0, x1, a, b, c))
    X.eq("additive", P(x0, 0.0, a, b, c) + P(0.0, x1, a, b, c), P(x0, x1, a, b, c))
    X.eq("across zero", P(-x0, x1, a, b, c), P(-x0, 0.0, a, b, c) + P(0.0, x1, a, b, c))
    X.eq("even", P(-x0, x0, 0.0, b, 0.0), 0.0)
    X.eq("continuous at zero", P(-1e-7, 1e-7, a, b, c), 0.0)


def moments(n):
    """moments of -f'"""
    r = [1.0, 0.0, np.pi**2 / 3, 0.0, 7 * np.pi**4 / 15, 0.0, 31 * np.pi**6 / 21, 0.0, 127 * np.pi**8 / 15, 0.0, 2555 * np.pi**10 / 33, 0.0, 1414477 * np.pi**12 / 1365, 0.0]
    return r[:n]


def half_moments(n):
    """moments of 1/(1+exp|x|) divided by 2 log 2"""
    z = {3: 1.2020569031595942, 5: 1.0369277551433699, 7: 1.0083492773819228, 9: 1.0020083928260822, 11: 1.0004941886041195}
    r = []
    for i in range(n):
        r.append(0.0 if i % 2 else (1.0 if i == 0 else 2 * math.factorial(i) * (1 - 2.0**-i) * z[i + 1] / (2 * np.log(2))))
    return r


@harness("C16", cfgs=[dict(rule=r, degree=d) for r, d in (("gauss_5_df", 10), ("gauss_7_df", 14), ("gauss_4_f", 8), ("gauss_6_f", 12))])
def gauss(M, X, rule, degree):
    """the gauss rules integrate all polynomials up to their degree exactly, for every chemical potential and temperature"""
    mu, kT = X.real("mu", -2, 2), X.real("kT", 0.1, 2)
    c = X.array("c", (degree, 2), -1, 1)
    mom = moments(degree) if rule.endswith("df") else half_moments(degree)
    f = getattr(M.density_of_states, rule)
    beta = 1 / kT

    def poly(x):
        # coefficients relative to the width of the weight function to have comparable sizes
        t = (x - mu) * beta
        r = []
        for ti in t:
            v = [0.0, 0.0]
            for i in range(degree):
                s = max(mom[i], mom[i - 1] * (i + 1) if i else 0.0, 1.0)
                v = [v[j] + c[i, j] * ti**i / s for j in range(2)]
            r.append(X.stack(v))
        return X.stack(r)
    r = f(poly, mu, beta)
    for j in range(2):
        ref = 0.0
        for i in range(degree):
            s = max(mom[i], mom[i - 1] * (i + 1) if i else 0.0, 1.0)
            ref = ref + c[i, j] * mom[i] / s
        X.eq("polynomial", r[j], ref * (1.0 if rule.endswith("df") else 2 * np.log(2) * kT))


@harness("C16")
def root(M, X):
    """secant finds the inverse of linear functions from every pair of starting points"""
    y, s, o = X.real("y", -3, 3), X.real("slope", 0.5, 2.0), X.real("offset", -1, 1)
    x = M.density_of_states.secant(y, lambda x: s * x + o, X.real("a", -2, 0), 1.0, 1e-9, 30)
    X.eq("inverse", s * x + o, y)


KB = 8.61733326214518e-5
NODES, WEIGHTS = np.polynomial.legendre.leggauss(200)


def ramp_states(x, beta, lo, hi):
    """smeared number of states of a band with constant density between lo and hi"""
    return (np.log(1 + np.exp(beta * (x - lo))) - np.log(1 + np.exp(beta * (x - hi)))) / (beta * (hi - lo))


class Recorder:
    """double for the root search: keeps the function and answers with the energies given"""

    def __init__(self, M, answers):
        self.m, self.answers, self.calls = M.density_of_states, list(answers), []

    def __call__(self, y, f, a, b, *k, **kw):
        x = self.answers[len(self.calls)]
        self.calls.append((y, f(x), a, b))
        return x

    def __enter__(self):
        self.old, self.m.secant = self.m.secant, self
        return self

    def __exit__(self, *a):
        self.m.secant = self.old


SMPL = {"fine": [20.0 * 1.045**i for i in range(64)], "cold": [0.0, 500.0, 510.0, 900.0], "hot": [3000.0, 9000.0], "rising": [0.0, 800.0, 2150.0, 2250.0, 6000.0], "close": [1500.0, 1560.0, 1500.0, 1460.0], "falling": [6000.0, 2250.0, 2150.0, 800.0, 0.0]}


@harness("C16", cfgs=[dict(temperatures=t, N=n) for t in SMPL for n in (5, 12) if t != "fine" or n == 5] + [dict(temperatures="close", N=n, el=e) for n, e in ((6, 0.95), (15, 0.0625))])
def chemical_potential(M, X, temperatures, N, el=0.5):
    """the chemical potential of each of the temperatures is the root of the smeared number of states at this temperature; at T=0 it is the Fermi energy"""
    # linear between 2150 K and 2250 K
    lo, hi = -1.5, 1.5
    F = lo + el * (hi - lo)
    T = SMPL[temperatures]
    beta = [1 / (KB * t) for t in T if t > 0]
    x = [X.real(f"mu{i}", -0.01, 0.01) if T[0] == 20.0 else X.real(f"mu{i}", F - 0.25, F + 0.25) for i in range(len(beta))]
    with patched(M, "linear"):
        D = dos(M, [(lo, hi)])
        with Recorder(M, x) as R:
            mu = D.chemical_potential(el, T, N=N)
    X.eq("number of results", len(mu), len(T))
    if len(R.calls) != len(beta):
        return      # another root search
    n = 0
    for t, m in zip(T, mu):
        if t <= 0:
            X.eq("Fermi energy", m, F)
            continue
        y, f, a, b = R.calls[n]
        X.eq("electrons", y, el)
        # the band edges are far away at small temperatures
        X.eq("smeared states", f, ramp_states(x[n], beta[n], lo, hi) if t > 400 else (x[n] - lo) / (hi - lo))
        X.eq("order", m, x[n])
        n += 1


@harness("C16", cfgs=[dict(N=n) for n in (2, 4)])
def smeared_curve(M, X, N):
    """full_curve at finite temperatures: convolution of the states with the derivative of the Fermi function, for every position of the bands"""
    lo, hi, T = -1.5, 1.5, 5000.0
    s = X.real("shift", -1, 1)
    beta = 1 / (KB * T)
    with patched(M, "linear"):
        D = dos(M, [(lo + s, hi + s)])
        e, n, d = D.full_curve(N, T=T)
        k = D.k_resolved_density(s + 0.3, T)
    X.eq("number of energies", [len(n), len(d)], [len(e)] * 2)
    for i in range(len(e)):
        X.eq("states", n[i], ramp_states(e[i], beta, lo + s, hi + s))
        if i > 0:
            X.le("sorted", e[i - 1], e[i])
    X.le("starts below", e[0], lo + s)
    X.le("ends above", hi + s, e[-1])
    X.eq("k resolved density", np.sum(k), (1 / (1 + np.exp(beta * (lo - 0.3))) - 1 / (1 + np.exp(beta * (hi - 0.3)))) / (hi - lo))


@harness("C16", cfgs=[dict(mu=m, T=t, N=n) for m, t, n in ((0.25, 3000.0, 8), (-0.75, 1000.0, 9), (0.0, 300.0, 16), (2.5, 1500.0, 8))])
def thermal_energy(M, X, mu, T, N):
    """total energy at finite temperatures: integral of energy times density times occupation, for every position of the energy zero"""
    lo, hi = -1.5, 3.5
    s = X.real("shift", -3, 3)
    beta = 1 / (KB * T)
    with patched(M, "linear"):
        D = dos(M, [(lo + s, hi + s)])
        r = D.energy(mu + s, T, N=N, spin_factor=2)
        r1 = D.energy(mu + s, T, N=N, spin_factor=1)
    e = (lo + hi) / 2 + (hi - lo) / 2 * NODES
    # the occupation changes fast, so divide the range at mu
    ref, cnt = 0.0, 0.0
    cuts = sorted({lo, hi} | {min(max(mu + x / beta, lo), hi) for x in (-40, -20, -10, 0, 10, 20, 40)})
    for a, b in zip(cuts[:-1], cuts[1:]):
        e = (a + b) / 2 + (b - a) / 2 * NODES
        f = 0.5 * (1 - np.tanh(0.5 * beta * (e - mu)))
        ref += np.sum(WEIGHTS * e * f) * (b - a) / 2 / (hi - lo)
        cnt += np.sum(WEIGHTS * f) * (b - a) / 2 / (hi - lo)
    X.eq("energy of a single spin", r1, ref + s * cnt, tol=1e-5)
    X.eq("energy", r, 2 * (ref + s * cnt), tol=1e-5)


@harness("C16", cfgs=[dict(order=o) for o in ((0, 1, 2), (2, 0, 1), (1, 2), (0,), (0, 0))])
def seebeck(M, X, order):
    """derivative of the chemical potential in the temperature, zero at T=0, in the order of the temperatures"""
    c = X.array("c", 3, -1, 1)
    T = [(0.0, 100.0, 350.0)[i] for i in order]
    with patched(M, "linear"):
        class D(M.density_of_states.DensityOfStates):
            def chemical_potential(self, electrons, T_smpl, *a, **k):
                return X.stack([c[0] + c[1] * t / 100 + c[2] * (t / 100)**2 for t in T_smpl])
        r = dos(M, [(-1.0, 1.0)], D).seebeck(0.5, T, h=0.5)
    for t, x in zip(T, r):
        X.eq("derivative", x * 100, c[1] + 2 * c[2] * t / 100 if t > 0 else 0.0)


@harness("C16", cfgs=[dict(kind=k, T=t, N=n) for k, t, n in (("linear", 300.0, 16), ("linear", 600.0, 9), ("square", 300.0, 256))])
def heat_capacity(M, X, kind, T, N):
    """change of the total energy with the temperature at a fixed number of electrons"""
    lo, hi, m = -2.0, 3.0, 0.25
    s, d = X.real("shift", -1, 1), X.real("slope", -1, 1)
    with patched(M, kind):
        class D(M.density_of_states.DensityOfStates):
            def chemical_potential(self, electrons, T_smpl, *a, **k):
                return X.stack([m + s + KB * d * (t - T) for t in np.ravel(T_smpl)])
        D = dos(M, [(lo + s, hi + s)], D)
        r = [D.heat_capacity(0.5, T, N=N), D.heat_capacity(0.5, T, N=N, spin_factor=1)]
    # int rho e d/dT f, with moments of -f'
    kT = KB * T
    w = hi - lo
    rho, drho = (1 / w, 0.0) if kind == "linear" else (2 * (m - lo) / w**2, 2 / w**2)
    m2, m4 = np.pi**2 / 3, 7 * np.pi**4 / 15
    # e = mu + kT x, df/dT = -f' (kT x + T mu') / T, T mu' = kT d
    mu = m + s
    ref = kT / T * (rho * (mu * d + kT * m2) + drho * kT * (m2 * mu + m2 * kT * d))
    tol = 1e-6 if kind == "linear" else 1e-3
    X.eq("heat capacity", r[0] / KB, 2 * ref / KB, tol=tol)
    X.eq("heat capacity of a single spin", r[1] / KB, ref / KB, tol=tol)
