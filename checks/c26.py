"""C26: TightBindingModel is the same model as the others"""
from symex.driver import harness, assumptions
from .common import *
from .c04 import decomposition, check_grad, check_hess
from .c09 import REPS, rep_ops

assumptions("C26", "neighbors, band counts and representations are enumerated; every coefficient in [-2,2] and every k-point are symbolic",
            "eigh contract as in C04")

NB = {"1d": [(0,), (1,), (2,)], "2d": [(0, 0), (1, 0), (1, -1)], "3d": N3s, "half": NH, "one": [(0, 0)]}


def none(M, d, n):
    return M.unitary_representations.UnitaryRepresentation(M.symmetry.Symmetry.none(d), n)


def inversion(M, d, n, split):
    u = M.unitary_representations.UnitaryRepresentation(M.symmetry.Symmetry.inv(d), n)
    u.inv_split = split
    return u


def herm_params(X, name, m, n):
    mats = [X.hermitian(f"{name}{i}", n, -2, 2) for i in range(m)]
    return X.stack(mats) if X.symbolic else np.array(mats)


def angle(k, R):
    t = 0.0
    for a, b in zip(k, R):
        t = t + a * b
    return t


def series(X, P, nb, k, split=None):
    """P_0 + sum (cos - 1) P_c + sin P_s, written out; with inversion cos in the blocks of equal parity and sin between them"""
    m, n = len(nb), len(P[0])
    H = P[0] * 1.0 + 0j
    rest = 0.0
    for i in range(1, m):
        z = X.expi(angle(k, nb[i]))
        c, s = (z + X.conj(z)) / 2 - 1.0, (z - X.conj(z)) / 2j
        if split is None:
            rest = rest + c * P[i] + s * P[m - 1 + i]
        else:
            rest = rest + X.stack([X.stack([P[i][a, b] * (c if (a < split) == (b < split) else s) for b in range(n)]) for a in range(n)])
    if split is not None:
        H = X.stack([X.stack([P[0][a, b] if (a < split) == (b < split) else 0.0 for b in range(n)]) for a in range(n)])
    return H + rest


CASES = [dict(nb=b, n=n, split=s) for b, n, s in (("1d", 1, None), ("1d", 2, None), ("2d", 2, None), ("3d", 3, None), ("half", 2, None), ("one", 2, None),
                                                  ("1d", 2, 1), ("1d", 3, 2), ("3d", 3, 1), ("3d", 2, 2), ("3d", 2, 0), ("1d", 1, 0), ("1d", 1, 1))]


def make(M, X, nb, n, split):
    nbs = NB[nb]
    d, m = len(nbs[0]), len(nbs)
    u = none(M, d, n) if split is None else inversion(M, d, n, split)
    P = herm_params(X, "P", 2 * m - 1 if split is None else m, n)
    return nbs, d, M.tight_binding.TightBindingModel(u, nbs, P * 1.0), P


@harness("C26", cfgs=CASES)
def formula(M, X, nb, n, split):
    """f is the documented series (params[0] is the matrix at k=0), hermitian, df and ddf are its derivatives; the given parameters are not changed; copies are independent"""
    nbs, d, tb, P = make(M, X, nb, n, split)
    k = X.turns("k", d)
    ks = X.stack([k, k + 0.25])
    F = tb.f(ks)
    for kk, f in zip(ks, F):
        X.eq("hamiltonian", f, series(X, P, nbs, kk, split))
        X.eq("hermitian", f, dag(f))
    X.eq("single k-point", tb.f(k), F[0])
    grid = X.stack([ks, ks[::-1]])
    X.eq("grid of k-points", tb.f(grid), X.stack([F, F[::-1]]))
    X.eq("derivatives on the grid", [tb.df(grid)[1, 1], tb.df(grid)[1, 0]], [tb.df(ks)[0], tb.df(ks)[1]])
    X.eq("bands count", [tb.band_count(), tb.dim()], [n, d])
    D, DD = tb.df(ks), tb.ddf(ks)
    at = lambda i, t: X.stack([X.stack([t if i == j else k[j] for j in range(d)])])
    for i in range(d):
        X.eq("derivative", D[0, i], X.deriv(lambda t: tb.f(at(i, t))[0], k[i]), tol=1e-5, ctol=1e-4)
        for j in range(d):
            X.eq("second derivative", DD[0, i, j], X.deriv(lambda t: tb.df(at(j, t))[0][i], k[j]), tol=1e-4, ctol=1e-3)
    z = np.zeros((1, d))
    X.eq("matrix at k=0", tb.f(z)[0], tb.params[0])
    X.eq("integer k-points", tb.df(z.astype(int))[0], tb.df(z)[0])
    c = tb.copy()
    X.eq("copy", c.f(ks), F)
    c.params[0] = c.params[0] + np.eye(n)
    X.eq("copy is independent", tb.f(ks), F)


@harness("C26", cfgs=CASES)
def complex_coefficients(M, X, nb, n, split):
    """set_from_complex loads the hamiltonian of the coefficients (of which it takes the inversion symmetric part), params_complex returns them"""
    nbs, d, tb, P = make(M, X, nb, n, split)
    k = X.turns("k", d)
    X.eq("coefficients of the model", fourier(X, tb.params_complex(), nbs, k), series(X, P, nbs, k, split))
    X.eq("params are not changed", tb.f(X.stack([k]))[0], series(X, P, nbs, k, split))
    H_r = hr(X, "H", nbs, n)
    H0 = H_r * 1.0
    tb.set_from_complex(H_r)
    f = tb.f(X.stack([k]))[0]
    X.eq("given coefficients are not changed", H_r, H0)
    if split is None:
        X.eq("loaded hamiltonian", f, fourier(X, H_r, nbs, k))
        X.eq("round trip", tb.params_complex(), H_r)
    else:
        UI = np.diag([1.0] * split + [-1.0] * (n - split))
        g, h = fourier(X, H_r, nbs, k), fourier(X, H_r, nbs, -k)
        X.eq("inversion symmetric part", f, (g + UI @ h @ UI) / 2)


@harness("C26", cfgs=[dict(nb=b, n=n) for b, n in (("1d", 2), ("2d", 2), ("3d", 2), ("half", 1), ("2d", 3))])
def equivalence(M, X, nb, n):
    """the same data gives the same hamiltonian and derivatives in all models"""
    nbs = NB[nb]
    d = len(nbs[0])
    H_r = hr(X, "H", nbs, n)
    ks = X.stack([X.turns("k", d)])
    B = M.bandstructure.BandStructureModel.init_tight_binding(M.symmetry.Symmetry.none(d), nbs, n, exp=True)
    B.set_params_complex(H_r)
    A = M.tight_binding_asym.AsymTightBindingModel(M.tight_binding_asym.HermitianFourierSeries(nbs, H_r))
    T = M.tight_binding.TightBindingModel(none(M, d, n), nbs, None)
    T.set_from_complex(B.params_complex())
    for name in ("f", "df", "ddf"):
        a = getattr(A.H, name)(ks)[0]
        t, b = getattr(T, name)(ks)[0], getattr(B, name)(ks)[0]
        X.eq(f"{name} of BandStructureModel and TightBindingModel", b, t)
        X.eq(f"{name} of AsymTightBindingModel and TightBindingModel", a, t)


GROUPS = {c: REPS[c] for c in ("s+p", "p+s", "a+e", "r", "2s")}


@harness("C26", cfgs=[dict(case=c) for c in GROUPS], weight=3)
def symmetry(M, X, case):
    """after normalize the model obeys the representation: H(Sk) = U H(k) U^+ for every operation including the inversion; symmetric models are not changed"""
    mk, nb = GROUPS[case]
    u = mk(M.unitary_representations.UnitaryRepresentation)
    nb = [np.array(r, dtype=float) for r in nb]
    n = u.dim()
    P = herm_params(X, "P", len(nb), n)
    tb = M.tight_binding.TightBindingModel(u, nb, P)
    tb.normalize()
    k = np.array([0.15, 0.35, -0.2])
    G = list(rep_ops(u))
    f = tb.f(np.array([s @ k for s, _ in G]))
    f0 = tb.f(np.array([k]))[0]
    for g, (s, m) in zip(f, G):
        X.eq("transformed", g, m @ f0 @ m.T)
    before = tb.params * 1.0
    tb.normalize()
    X.eq("symmetric models are kept", tb.params, before)


@harness("C26", cfgs=[dict(nb="1d", split=None), dict(nb="2d", split=None), dict(nb="1d", split=1)], weight=5)
def model_bands(M, X, nb, split):
    """bands, gradients and hessians at every k, every spectrum with gap >= 0.2"""
    n = 2
    nbs = NB[nb][:2] if split else NB[nb]
    d, m = len(nbs[0]), len(nbs)
    H, _, la = decomposition(X, n)
    k = X.turns("k", d)
    Z = np.zeros((n, n))
    if split is None:
        P = [H] + [X.hermitian(f"c{i}", n, -1, 1) if i < 2 else X.stack([[X.real("c", -1, 1), 0.0], [0.0, 0.5]]) for i in range(1, m)] + [X.hermitian(f"s{i}", n, -1, 1) if i == 1 and d == 1 else np.diag([0.5, -1.0]) for i in range(1, m)]
        P = X.stack([Z] + P[1:])
        P = X.stack([H - series(X, P, nbs, k)] + list(P[1:]))
        u = none(M, d, n)
        k0 = k
    else:
        # with inversion the off diagonal part is given by the sine
        k0 = np.zeros(1) + 0.125
        k = X.stack(k0) if X.symbolic else k0
        s = np.sin(2 * np.pi * 0.125)
        c = np.cos(2 * np.pi * 0.125) - 1
        Q = X.array("q", n, -1, 1)
        off = H[0, 1] / s
        P1 = X.stack([[Q[0], off], [X.conj(off), Q[1]]])
        P = X.stack([X.stack([[H[0, 0] - c * Q[0], 0.0], [0.0, H[1, 1] - c * Q[1]]]), P1])
        u = inversion(M, d, n, 1)
    tb = M.tight_binding.TightBindingModel(u, nbs, P)
    ks = X.stack([k])
    dH, ddH = tb.df(ks)[0], tb.ddf(ks)[0]       # derivatives of the series: see formula
    X.eq("bands", tb.bands(ks)[0], la, tol=1e-5)
    X.eq("call", tb(ks)[0], la, tol=1e-5)
    b, g = tb.bands_grad(ks)
    check_grad(X, "bands_grad", H, None, dH, None, la, b[0], g[0], tol=1e-4)
    b, g, h = tb.bands_grad_hess(ks)
    check_grad(X, "bands_grad_hess", H, None, dH, None, la, b[0], g[0], tol=1e-4)
    check_hess(X, "bands_grad_hess", H, dH, ddH, la, g[0], h[0], tol=1e-3)


STARTS = {
    # representation, neighbors, reference bands at k=0
    "s+p": (lambda R: R.one_dim(False, False) + R.o3(), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)], [-1.0, 2.0, 2.0, 2.0]),
    "p+s": (lambda R: R.one_dim(False, False) + R.o3(), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)], [-1.0, -1.0, -1.0, 3.0]),
    "a+e": (lambda R: R.one_dim(True, True) + R.d3(False), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)], [0.5, 0.5, 1.5]),
    "s+s+p": (lambda R: (R.one_dim(False, False) + R.one_dim(False, True)) + R.o3(), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)], [-2.0, -1.0, 2.0, 2.0, 2.0]),
    "more": (lambda R: (R.one_dim(False, False) + R.one_dim(False, True)) + R.o3(), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)], [-2.0, 2.0, 2.0, 2.0]),
    "split": (lambda R: (R.one_dim(False, False) * 2 + R.one_dim(False, True)) + R.o3(), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)], [-2.0, -2.0, 2.0, 2.0, 2.0, 4.0]),
}


@harness("C26", cfgs=[dict(case=c) for c in STARTS] + [dict(case="s+p", order=True), dict(case="s+s+p", order=True)])
def start(M, X, case, order=False):
    """a model initialised from reference bands has, for all random numbers, the reference energies and degeneracies at k=0 and the symmetry of its representation"""
    make_, nb, bands = STARTS[case]
    u = make_(M.unitary_representations.UnitaryRepresentation)
    ks = np.array([[0.1, 0.2, 0.3], [0.0, 0.0, 0.0]])
    ref = np.array([np.array(bands) + 0.125, bands])
    with Drawn(X):
        tb = M.tight_binding.TightBindingModel.init_from_ref(u, nb, ks, ref, use_repr_order=order, verbose=False)
    n = u.dim()
    X.eq("bands", tb.band_count(), n)
    f = tb.f(np.zeros((1, 3)))[0]
    X.eq("diagonal", f - np.diag(np.diagonal(f)), np.zeros((n, n)))
    extra = [min(bands) - 0.01] * (n - len(bands))
    # the energies are constants: find the order by comparison
    rest = list(bands) + extra
    for i in range(n):
        hit = [j for j, e in enumerate(rest) if bool(abs(f[i, i].real - e) < 1e-3)]
        X.true("energy at k=0", len(hit) > 0)
        if hit:
            X.eq("energy", f[i, i], rest.pop(hit[0]))
    X.eq("symmetric", tb.symmetrizer(tb.params), tb.params)
    for p in tb.params:
        X.eq("hermitian", p, dag(p))
    if order:
        X.eq("order of the representation", np.diagonal(f), bands)


@harness("C26", cfgs=[dict(bands=b, ok=o) for b, o in (([0, 1, 1, 1, 2], True), ([0, 1, 1, 1, 2, 2, 2], True), ([0, 1, 1, 2], False), ([0, 1, 2, 2, 2], False), ([0, 1, 1, 2, 2, 2], False))])
def fitting_order(M, X, bands, ok):
    """reference data in the order of the representation: degeneracies in the middle of the band structure have to be those of the representation, otherwise the data is rejected"""
    R = M.unitary_representations.UnitaryRepresentation
    u = (R.one_dim(False, False) + R.o3()) + R.o3()
    nb = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)]
    energies = [-1.0, 0.25, 2.0]
    ref = np.array([[energies[b] for b in bands]])
    try:
        with Drawn(X):
            tb = M.tight_binding.TightBindingModel.init_from_ref(u, nb, np.zeros((1, 3)), ref, use_repr_order=True, verbose=False)
    except ValueError:
        X.true("accepted", not ok)
        return
    X.true("rejected", ok)
    f = np.diagonal(tb.f(np.zeros((1, 3)))[0])
    n = len(bands)
    X.eq("energies at k=0", f[:n], ref[0])
    k = X.turns("k", 3)
    H = tb.f(X.stack([k]))[0]
    X.eq("hermitian", H, dag(H))
