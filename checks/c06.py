"""C06: a supercell describes the same solid with folded bands"""
import itertools
from fractions import Fraction
from symex.driver import harness, assumptions
from .common import *

SQ = ((1, 0), (0, 1))
SETS = {
    "1d": [(0,), (1,), (2,)],
    "1ds": [(0,), (1,)],
    "full": [(0, 0), (1, 0), (0, 1), (1, 1), (1, -1)],
    "cross": [(0, 0), (1, 0), (0, 1)],
    "incomplete": [(0, 0), (1, 0), (1, 1)],
    "mirrored": [(0, 0), (-1, 1), (0, -2)],
    "3d": [(0, 0, 0), (1, 0, 0), (0, 1, -1)],
}
CASES = [
    ("1d", None, ((2,),)), ("1d", None, ((3,),)), ("1d", None, ((-2,),)),
    ("cross", None, ((2, 0), (0, 1))), ("full", None, ((2, 0), (0, 1))), ("incomplete", None, ((2, 0), (0, 1))),
    ("cross", None, ((1, 1), (0, 1))), ("cross", None, ((1, 1), (-1, 1))), ("mirrored", None, ((1, 1), (-1, 2))),
    ("cross", ((1, Fraction(1, 2)), (0, Fraction(3, 4))), ((2, 0), (0, 1))),
    ("incomplete", ((1, Fraction(-1, 2)), (Fraction(1, 4), 1)), ((1, 1), (-1, 1))),
    ("3d", None, ((1, 0, 0), (0, 2, 0), (0, 0, 1))),
]


def name(A, L):
    return dict(A=None if A is None else [[float(x) for x in r] for r in A], L=[list(r) for r in L])


def folded(A, L):
    """k-points which are folded onto 0: the lattice dual to the supercell, modulo the lattice dual to the cell"""
    d = len(L)
    Lf = np.array(L, dtype=float)
    det = abs(round(np.linalg.det(Lf)))
    adj = np.round(np.linalg.inv(Lf).T * det).astype(int)
    pts = set()
    for t in itertools.product(range(det), repeat=d):
        pts.add(tuple(int(x) % det for x in adj @ np.array(t)))
    assert len(pts) == det
    B = np.linalg.inv(np.array(A, dtype=float)).T
    return [B @ (np.array(p) / det) for p in sorted(pts)]


def check(X, label, H, parts, n):
    """equal spectra: equal power sums of the eigenvalues"""
    P, Q = H, list(parts)
    for p in range(1, len(parts) * n + 1):
        if p > 1:
            P = P @ H
            Q = [q @ h for q, h in zip(Q, parts)]
        tr = sum(P[i, i] for i in range(len(P)))
        X.eq(f"{label}: sum of E^{p}", tr, sum(q[i, i] for q in Q for i in range(n)), tol=1e-5)


def run(M, X, kind, nb, A, L, n):
    nbs = SETS[nb]
    d = len(nbs[0])
    A = np.eye(d) if A is None else np.array(A, dtype=float)
    real = [tuple(A @ np.array(r, dtype=float)) for r in nbs]
    k = X.turns("k", d) if d < 3 else X.stack([X.turn("k0"), X.turn("k1"), X.turn("k1") * 0.0])
    H_r = hr(X, "H", nbs, n)
    if kind == "asym":
        T = M.tight_binding_asym
        m = T.AsymTightBindingModel(T.HermitianFourierSeries(real, H_r))
        f = lambda m, k: m.H.f(X.stack([k]))[0]
    else:
        m = M.bandstructure.BandStructureModel.init_tight_binding(M.symmetry.Symmetry.none(d), real, n, exp=kind == "exp")
        m.set_params_complex(H_r)
        f = lambda m, k: m.f(X.stack([k]))[0]
    s = m.supercell(A, A @ np.array(L, dtype=float))
    qs = folded(A, L)
    X.eq("number of bands", s.band_count(), len(qs) * n)
    check(X, "folded bands", f(s, k), [f(m, k + q) for q in qs], n)
    X.eq("the original model is unchanged", f(m, k), sum_series(X, H_r, real, k))
    if kind == "asym":
        X.eq("overlap stays the identity", s.S.f(X.stack([k]))[0], np.eye(len(qs) * n))


def sum_series(X, H_r, nbs, k):
    return fourier(X, H_r, nbs, k)


@harness("C06", cfgs=[dict(kind=kind, nb=nb, **name(A, L)) for kind in ("asym", "exp") for nb, A, L in CASES],
         thorough=[dict(kind="cos", nb=nb, **name(A, L)) for nb, A, L in CASES])
def one_band(M, X, kind, nb, A, L):
    """one band models, cells with up to 3 original cells, every coefficient and every k"""
    run(M, X, kind, nb, A, L, 1)


@harness("C06", cfgs=[dict(kind="asym", nb="1ds", **name(None, ((2,),))), dict(kind="exp", nb="1ds", **name(None, ((2,),)))],
         thorough=[dict(kind="asym", nb="1d", **name(None, ((2,),))), dict(kind="asym", nb="incomplete", **name(None, ((2, 0), (0, 1))))])
def two_bands(M, X, kind, nb, A, L):
    """two band models, cell with 2 original cells, every coefficient and every k"""
    run(M, X, kind, nb, A, L, 2)


@harness("C06", cfgs=[dict(n=1, L=[[2]]), dict(n=1, L=[[3]]), dict(n=2, L=[[2]])])
def overlap(M, X, n, L):
    """the overlap matrix is folded like the hamiltonian"""
    nbs = [(0,), (1,)]
    T = M.tight_binding_asym
    m = T.AsymTightBindingModel(T.HermitianFourierSeries(nbs, hr(X, "H", nbs, n)), T.HermitianFourierSeries(nbs, hr(X, "S", nbs, n)))
    s = m.supercell(np.eye(1), np.array(L, dtype=float))
    k = X.turns("k", 1)
    qs = folded(np.eye(1), L)
    f = lambda h, k: h.f(X.stack([k]))[0]
    check(X, "hamiltonian", f(s.H, k), [f(m.H, k + q) for q in qs], n)
    check(X, "overlap", f(s.S, k), [f(m.S, k + q) for q in qs], n)
    a, b = f(s.H, k) @ f(s.S, k), [f(m.H, k + q) @ f(m.S, k + q) for q in qs]
    X.eq("joint transformation", sum(a[i, i] for i in range(len(a))), sum(x[i, i] for x in b for i in range(n)), tol=1e-5)


@harness("C06", cfgs=[dict(a=a, count=n, per=p) for a, n, p in (([1.0, 1.25, 1.5], 2, 1), ([1.0, 1.25, 1.125], 1, 2), ([2.0, 1.5, 2.5], 1, 1), ([0.5, 0.5, 0.5], 3, 1), ([1.0, 1.0, 1.0], 2, 2))])
def free_electrons(M, X, a, count, per):
    """free electrons in an orthogonal cell: the fourier series of k^2, folded into the smaller zone (mean over the bands), for every k"""
    m, unit = M.tight_binding_asym.free_electron_model_orthogonal(*a, count, per)
    X.eq("energy unit", unit, 3.80998211 * 4 * np.pi**2, tol=1e-4)
    X.eq("bands", m.band_count(), per**3)
    X.eq("neighbors", sorted(np.round(m.H.neighbors, 7).tolist()), sorted([[0.0, 0.0, 0.0]] + [[n * a[i] if i == j else 0.0 for j in range(3)] for i in range(3) for n in range(1, count + 1)]))
    k = X.turns("k", 3)
    H = m.H.f(X.stack([k]))[0]
    X.eq("hermitian", H, dag(H))
    X.eq("overlap", m.S.f(X.stack([k]))[0], np.eye(per**3))
    want = 0.0
    for i in range(3):
        want = want + 1 / (12 * a[i]**2)
        for n in range(1, count + 1):
            z = X.expi(k[i] * (n * a[i]))
            want = want + (-1)**(per * n) / (2 * np.pi**2 * (per * n * a[i])**2) * (z + X.conj(z))
    X.eq("mean of the bands", sum(H[j, j] for j in range(per**3)), per**3 * per**2 * want)
