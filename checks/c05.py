"""C05: model algebra acts on the bands as documented"""
from symex.driver import harness, assumptions
from .common import *

SETS = {"1d": N1, "2d": N2, "2ds": N2s}


def bsm(M, X, name, nbs, n, cos_reduced=False, exp=False):
    m = M.bandstructure.BandStructureModel.init_tight_binding(M.symmetry.Symmetry.none(len(nbs[0])), nbs, n, cos_reduced=cos_reduced, exp=exp)
    m.set_params_complex(hr(X, name, nbs, n))
    return m


def asym(M, X, name, nbs, n, S=None):
    A = M.tight_binding_asym
    return A.AsymTightBindingModel(A.HermitianFourierSeries(nbs, hr(X, name, nbs, n)), S)


VAR = [dict(kind=k) for k in ("sin", "cos_reduced", "exp", "exp_reduced", "asym")]


def make(M, X, kind, name, nbs, n):
    if kind == "asym":
        return asym(M, X, name, nbs, n)
    return bsm(M, X, name, nbs, n, cos_reduced="reduced" in kind, exp="exp" in kind)


def hk(model, k):
    return model.H.f(k) if hasattr(model, "H") else model.f(k)


@harness("C05", cfgs=VAR)
def shift_scale_sum(M, X, kind):
    """model + c, model * c, model + model for two band models, every k"""
    nbs = N2s
    k = X.stack([X.turns("k", 2)])
    a = make(M, X, kind, "A", nbs, 2)
    b = make(M, X, kind, "B", nbs, 1)
    c = X.real("c", -2, 2)
    Ha, Hb = hk(a, k)[0], hk(b, k)[0]
    X.eq("shift", hk(a + c, k)[0], Ha + c * np.eye(2))
    X.eq("scale", hk(a * c, k)[0], Ha * c)
    s = a + b
    X.eq("direct sum", hk(s, k)[0], blocks(X, Ha, Hb))
    X.eq("band count of the sum", s.band_count(), 3)
    X.eq("operands are not modified (A)", hk(a, k)[0], Ha)
    X.eq("operands are not modified (B)", hk(b, k)[0], Hb)
    if kind == "asym":
        X.eq("overlap of the sum", s.S.f(k)[0], np.eye(3))
        X.eq("overlap of the shift", (a + c).S.f(k)[0], np.eye(2))
        X.eq("overlap of the scaled model", (a * c).S.f(k)[0], np.eye(2))


@harness("C05", cfgs=[dict(Hn=[[0], [1]], Sn=[[0], [1]]), dict(Hn=[[0], [1]], Sn=[[0], [-1], [2]]), dict(Hn=[[0], [1], [2]], Sn=[[0], [2]])])
def overlap_shift(M, X, Hn, Sn):
    """shifting / scaling a model with a k dependent overlap matrix: H + c S and c H with the same overlap"""
    A = M.tight_binding_asym
    Hn, Sn = [tuple(r) for r in Hn], [tuple(r) for r in Sn]
    k = X.turns("k", 1)
    ks = X.stack([k])
    H_r, S_r = hr(X, "H", Hn, 2), hr(X, "S", Sn, 2)
    m = A.AsymTightBindingModel(A.HermitianFourierSeries(Hn, H_r), A.HermitianFourierSeries(Sn, S_r))
    c = X.real("c", -2, 2)
    H, S = fourier(X, H_r, Hn, k), fourier(X, S_r, Sn, k)
    a, b = m + c, m * c
    X.eq("shift", a.H.f(ks)[0], H + c * S)
    X.eq("overlap of the shifted model", a.S.f(ks)[0], S)
    X.eq("scale", b.H.f(ks)[0], c * H)
    X.eq("overlap of the scaled model", b.S.f(ks)[0], S)
    X.eq("original", m.H.f(ks)[0], H)
    X.eq("original overlap", m.S.f(ks)[0], S)


@harness("C05", cfgs=VAR)
def copies_are_independent(M, X, kind):
    """changing the parameters of a derived model does not change the original"""
    nbs = N1
    k = X.stack([X.turns("k", 1)])
    a = make(M, X, kind, "A", nbs, 2)
    H = hk(a, k)[0]
    c = X.real("c", -2, 2)
    for derive in (lambda m: m.copy(), lambda m: m + c, lambda m: m * c):
        b = derive(a)
        if kind == "asym":
            b.H.H_r[0, 0, 0] += c
            b.H.H_r[1] *= c
            b.S.H_r[0, 1, 1] += c
        else:
            b.params[0, 0, 0] += c
            b.params[1] *= c
        X.eq("original unchanged", hk(a, k)[0], H)
        if kind == "asym":
            X.eq("overlap of the original unchanged", a.S.f(k)[0], np.eye(2))


@harness("C05", cfgs=VAR)
def permute(M, X, kind):
    """permute reorders the orbitals"""
    k = X.stack([X.turns("k", 2)])
    for order in ([1, 0, 2], [2, 0, 1]):
        a = make(M, X, kind, "A", N2s, 3)
        H = hk(a, k)[0]
        a.permute(order)
        X.eq(f"permuted hamiltonian {order}", hk(a, k)[0], H[order][:, order])


@harness("C05", cfgs=VAR)
def transform(M, X, kind):
    """transform(A) maps the neighbors R to A R, therefore H'(k) = H(A^T k); every rational lattice matrix of the list, every k"""
    for n, A in enumerate(([[1, 1], [0, 1]], [[2, 0], [1, 1]], [[0.5, 0.25], [-0.5, 0.75]])):
        A = np.array(A, dtype=float)
        a = make(M, X, kind, f"A{n}", N2s, 2)
        k = X.turns(f"k{n}", 2)
        H = hk(a, X.stack([A.T @ k]))[0]
        a.transform(A)
        X.eq("H of the transformed model", hk(a, X.stack([k]))[0], H)


@harness("C05", cfgs=[dict(nb="1d"), dict(nb="2ds")])
def neighbor_sets(M, X, nb):
    """add_neighbors keeps H(k), limit_neighbors keeps exactly the short terms, limit_neighbor_count keeps the shortest terms"""
    nbs = SETS[nb]
    A = M.tight_binding_asym
    d = len(nbs[0])
    k = X.turns("k", d)
    ks = X.stack([k])
    H_r = hr(X, "H", nbs, 2)
    ser = A.HermitianFourierSeries(nbs, H_r)
    H = ser.f(ks)[0]
    more = [tuple(3 + i if j == 0 else 1 for j in range(d)) for i in range(2)]
    ser.add_neighbors(more)
    X.eq("adding neighbors does not change H", ser.f(ks)[0], H)
    X.eq("neighbors are added", len(ser.neighbors), len(nbs) + 2)
    X.eq("one coefficient per neighbor", len(ser.H_r), len(nbs) + 2)
    X.eq("removed", ser.limit_neighbors(2.5), 2)
    X.eq("only zero terms were removed", ser.f(ks)[0], H)
    ser.limit_neighbors(1.0)
    keep = [i for i, r in enumerate(nbs) if np.linalg.norm(r) <= 1.0 + 1e-9]
    X.eq("limit_neighbors", ser.f(ks)[0], fourier(X, H_r[keep], [nbs[i] for i in keep], k))
    # order of the neighbors must not matter for limit_neighbor_count
    idx = [0] + list(range(len(nbs) - 1, 0, -1))
    ser = A.HermitianFourierSeries([nbs[i] for i in idx], H_r[idx])
    ser.limit_neighbor_count(2)
    X.eq("limit_neighbor_count", ser.f(ks)[0], fourier(X, H_r[:2], nbs[:2], k))


@harness("C05", cfgs=[dict(nb="1d")])
def cleanup(M, X, nb):
    """cleanup_neighbors removes exactly the terms with a coefficient norm below the threshold (never R=0)"""
    nbs = SETS[nb]
    A = M.tight_binding_asym
    k = X.turns("k", len(nbs[0]))
    H_r = hr(X, "H", nbs, 1)
    ser = A.HermitianFourierSeries(nbs, H_r)
    t = X.real("t", 0.1, 2.0)
    removed = ser.cleanup_neighbors(t)
    keep = [0]
    for i in range(1, len(nbs)):
        v = H_r[i][0, 0]
        n2 = v * X.conj(v)
        if bool((n2.real if hasattr(n2, "real") else n2) >= t * t):
            keep.append(i)
    X.eq("number of removed terms", removed, len(nbs) - len(keep))
    X.eq("remaining series", ser.f(X.stack([k]))[0], fourier(X, H_r[keep], [nbs[i] for i in keep], k), tol=1e-5)


@harness("C05", cfgs=[dict(first="real"), dict(first="complex")])
def sum_of_types(M, X, first):
    """direct sums of models with real (float64) and complex coefficients, with overlap matrices"""
    A = M.tight_binding_asym
    nbs = [(0,), (1,)]
    k = X.stack([X.turns("k", 1)])
    real = np.array([[[1.0, 0.25], [0.25, 1.0]], [[0.125, 0.0], [0.0625, 0.125]]])
    T = X.array("T", (2, 2, 2))
    T[0, 1, 0] = T[0, 0, 1]
    a = A.AsymTightBindingModel(A.HermitianFourierSeries(nbs, T), A.HermitianFourierSeries(nbs, real))
    b = A.AsymTightBindingModel(A.HermitianFourierSeries(nbs, hr(X, "B", nbs, 1)), A.HermitianFourierSeries(nbs, hr(X, "C", nbs, 1)))
    p, q = (a, b) if first == "real" else (b, a)
    s = p + q
    X.eq("hamiltonian", s.H.f(k)[0], blocks(X, p.H.f(k)[0], q.H.f(k)[0]))
    X.eq("overlap", s.S.f(k)[0], blocks(X, p.S.f(k)[0], q.S.f(k)[0]))
    c = X.real("c") + 1j * X.real("ci")
    M1, M2 = X.array("M1", (2, 2)), X.stack([[c]])
    X.eq("matrices", M.linalg.direct_sum(M1, M2), blocks(X, M1, M2))
    X.eq("matrices swapped", M.linalg.direct_sum(M2, M1), blocks(X, M2, M1))
    X.eq("scaled", (a * 0.5).H.f(k)[0], a.H.f(k)[0] * 0.5)


@harness("C05", cfgs=[dict(kind=k) for k in ("sin", "exp", "asym")], weight=4)
def normalize(M, X, kind):
    """normalize is a change of basis: the spectrum (trace and determinant of H(k)) is unchanged for every k; 2 bands, 1D, real eigenvectors of the diagonalised matrix"""
    nbs = [(0,), (1,)]
    la = X.sorted_array("la", 2, -2.0, 2.0, 0.2)
    U = X.unitary("U", 2, real=True)
    H0 = U @ X.stack([[la[0], 0.0], [0.0, la[1]]]) @ dag(U)
    H1 = X.stack([[0.25, X.real("a", -1, 1) + 1j * X.real("b", -1, 1)], [0.5, -0.5]])
    k = X.turns("k", 1)
    if kind != "asym":
        # the branch that clears couplings below 1e-14 is left out
        v = (dag(U) @ ((H1 + dag(H1)) * 0.5 if kind == "sin" else H1) @ U)[0, 1]
        X.assume((v * X.conj(v)).real >= 1e-4)
    if kind == "asym":
        # normalize diagonalises H(k=0)
        Hz = H0 - H1 - dag(H1)
        A = M.tight_binding_asym
        m = A.AsymTightBindingModel(A.HermitianFourierSeries(nbs, X.stack([Hz, H1])))
    else:
        m = bsm(M, X, "Z", nbs, 2, exp=kind == "exp")
        m.set_params_complex(X.stack([H0, H1]))
    X.spectral(H0, la, U)
    ks = X.stack([k])
    H = hk(m, ks)[0]
    tr, det = H[0, 0] + H[1, 1], H[0, 0] * H[1, 1] - H[0, 1] * H[1, 0]
    m.normalize()
    H = hk(m, ks)[0]
    X.eq("trace of H(k)", H[0, 0] + H[1, 1], tr, tol=1e-5)
    X.eq("determinant of H(k)", H[0, 0] * H[1, 1] - H[0, 1] * H[1, 0], det, tol=1e-4)
    X.eq("hermitian", H - dag(H), np.zeros((2, 2)), tol=1e-5)
    if kind == "asym":
        X.eq("overlap", m.S.f(ks)[0], np.eye(2), tol=1e-5)


@harness("C05", cfgs=[dict(kind=k, zeros=z) for k in ("sin", "exp", "asym", "overlap") for z in (False, True)])
def randomized(M, X, kind, zeros):
    """randomize adds numbers of the given size to every coefficient, with keep_zeros only to coefficients which are not zero"""
    nbs = [(0,), (1,)]
    mask = np.array([[[1, 0], [0, 1]], [[0, 1], [1, 0]]])
    P = X.carray("H", (2, 2, 2), 0.1, 2) * mask
    sigma = X.real("sigma", 0.0, 0.5)
    get = lambda m: m.H.H_r if kind in ("asym", "overlap") else m.params
    if kind in ("asym", "overlap"):
        m = M.tight_binding_asym.AsymTightBindingModel.new(np.array(nbs), 2)
        X.eq("new model", m.H.f(np.array([[0.2]]))[0], np.zeros((2, 2)))
        X.eq("overlap of a new model", m.S.f(np.array([[0.2]]))[0], np.eye(2))
        X.eq("bands of a new model", m.band_count(), 2)
        m.set_from_complex(P * 1.0)
        X.eq("coefficients", m.params_complex(), P)
        if kind == "overlap":
            m.S = M.tight_binding_asym.HermitianFourierSeries(np.array([(0,), (2,)]), X.stack([np.eye(2) + 0j, np.array([[0.0, 0.25], [0.5, 0.0]]) + 0j]))
    else:
        m = M.bandstructure.BandStructureModel.init_tight_binding(M.symmetry.Symmetry.none(1), nbs, 2, exp=kind == "exp")
        P = X.carray("P", np.shape(m.params), 0.1, 2) * np.resize(mask, np.shape(m.params))
        m.params = P * 1.0
    before = get(m) * 1.0
    S0 = m.S.H_r * 1.0 if kind == "overlap" else None
    with Drawn(X) as d:
        if kind == "overlap":
            m.randomize(sigma, keep_zeros=zeros, randomize_S=True)
        else:
            m.randomize(sigma, keep_zeros=zeros)
    for now, old, (a, b) in [(get(m), before, d.drawn[:2])] + ([(m.S.H_r, S0, d.drawn[2:4])] if kind == "overlap" else []):
        old0 = P if old is before else np.array([[[1.0, 0], [0, 1]], [[0, 0.25], [0.5, 0]]])
        nz = np.resize(mask, np.shape(old0)) if zeros else np.ones(np.shape(old0))
        # the sign and order of the random numbers is free: a complex number of two draws
        X.eq("random change", now, old + sigma * (a + 1j * b) * nz)


@harness("C05")
def series_sum(M, X):
    """direct sum of two fourier series"""
    F = M.tight_binding_asym.HermitianFourierSeries
    a, b = F(np.array(N2s), hr(X, "A", N2s, 1)), F(np.array(N2s), hr(X, "B", N2s, 2))
    k = X.stack([X.turns("k", 2)])
    s = a.direct_sum(b)
    X.eq("direct sum", s.f(k)[0], blocks(X, a.f(k)[0], b.f(k)[0]))
    s.H_r *= 0.0
    X.eq("independent", s.f(k)[0], np.zeros((3, 3)))
    X.true("operands", a.H_r.shape == (len(N2s), 1, 1) and b.H_r.shape == (len(N2s), 2, 2))
