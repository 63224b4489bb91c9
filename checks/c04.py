"""C04: band gradients and hessians are the exact derivatives of the bands (away from degeneracies)"""
from symex.driver import harness, assumptions
from .common import *

assumptions("C04",
            "eigh contract: np.linalg.eigh/scipy.linalg.eigh return ascending eigenvalues and (S-)orthonormal eigenvectors; every such "
            "decomposition with a gap of at least 0.2 is covered by quantifying over the decomposition",
            "derivatives are specified by implicit differentiation of the characteristic polynomial, independent of eigenvectors")


def decomposition(X, n, gap=0.2, overlap=False):
    """symbolic H (and S) with known spectrum"""
    la = X.sorted_array("la", n, -2.0, 2.0, gap)
    U = X.unitary("U", n)
    D = np.zeros((n, n), dtype=object if X.symbolic else float)
    for i in range(n):
        D[i, i] = la[i]
    D = X.stack([list(r) for r in D])
    if not overlap:
        H = U @ D @ dag(U)
        X.spectral(H, la, U)
        return H, None, la
    # S = W^H W, H = W^H D W with W = U^H R, R upper triangular
    a, d = X.real("Ra", 0.6, 1.5), X.real("Rd", 0.6, 1.5)
    b = X.real("Rbr", -0.5, 0.5) + 1j * X.real("Rbi", -0.5, 0.5)
    R = X.stack([[a, b], [0.0, d]])
    Ri = X.stack([[1 / a, -b / (a * d)], [0.0, 1 / d]])
    W = dag(U) @ R
    S, H = dag(R) @ R, dag(W) @ D @ W
    X.spectral(H, la, Ri @ U, S)
    return H, S, la


def det(m):
    if len(m) == 1:
        return m[0, 0]
    if len(m) == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    return sum((-1)**j * m[0, j] * det(np.delete(m[1:], j, axis=1)) for j in range(len(m)))


def det_d1(m, d):
    """directional derivative of det at m in direction d"""
    r = 0.0
    for i in range(len(m)):
        t = [[m[a, b] if a != i else d[a, b] for b in range(len(m))] for a in range(len(m))]
        r = r + det(np.array(t, dtype=object))
    return r


def det_d2(m, d, e):
    """mixed second directional derivative of det"""
    r = 0.0
    n = len(m)
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            t = [[d[a, b] if a == i else e[a, b] if a == j else m[a, b] for b in range(n)] for a in range(n)]
            r = r + det(np.array(t, dtype=object))
    return r


def obj(m):
    return np.asarray(m).astype(object) if not hasattr(m, "_sym") else m


def check_grad(X, label, H, S, dH, dS, la, bands, grads, tol=1e-5):
    n = len(la)
    X.eq(f"{label}: bands", bands, la, tol=tol)
    for b in range(n):
        Sm = np.eye(n) if S is None else S
        m = H - la[b] * Sm
        for i in range(len(dH)):
            # d/dk det(H - la S) = 0
            tot = dH[i] - grads[i, b] * Sm
            if dS is not None:
                tot = tot - la[b] * dS[i]
            X.eq(f"{label}: gradient of the bands", det_d1(m, tot), 0.0, tol=tol, validate=False)


def check_hess(X, label, H, dH, ddH, la, grads, hess, tol=1e-4, S=None, dS=None, ddS=None):
    n = len(la)
    E = np.eye(n) if S is None else S
    for b in range(n):
        m = H - la[b] * E
        for i in range(len(dH)):
            for j in range(len(dH)):
                p, q = dH[i] - grads[i, b] * E, dH[j] - grads[j, b] * E
                pq = ddH[i, j] - hess[i, j, b] * E
                if dS is not None:
                    p, q = p - la[b] * dS[i], q - la[b] * dS[j]
                    pq = pq - la[b] * ddS[i, j] - grads[i, b] * dS[j] - grads[j, b] * dS[i]
                X.eq(f"{label}: hessian of the bands", det_d2(m, p, q) + det_d1(m, pq), 0.0, tol=tol, validate=False)


@harness("C04", cfgs=[dict(n=2, m=1), dict(n=2, m=2)], thorough=[dict(n=3, m=1)], weight=3)
def eigh_grad(M, X, n, m):
    """linalg.eigh_grad; every hermitian H with eigenvalues in [-2,2] and gap >= 0.2, every hermitian dH in [-1,1]"""
    H, _, la = decomposition(X, n)
    dH = X.stack([X.hermitian(f"d{i}", n, -1, 1) for i in range(m)])
    bands, grads, ev = M.linalg.eigh_grad(X.stack([H]), X.stack([dH]))
    check_grad(X, "eigh_grad", H, None, dH, None, la, bands[0], grads[0])


@harness("C04", cfgs=[dict(n=2, m=1, overlap=True), dict(n=2, m=1, overlap=False)], weight=3)
def geigh_grad(M, X, n, m, overlap):
    """linalg.geigh_grad with positive definite overlap and overlap derivative"""
    H, S, la = decomposition(X, n, overlap=overlap)
    dH = X.stack([X.hermitian(f"d{i}", n, -1, 1) for i in range(m)])
    dS = X.stack([X.hermitian(f"s{i}", n, 0.3, 1) for i in range(m)]) if overlap else X.stack([np.zeros((n, n))] * m)
    bands, grads, ev = M.linalg.geigh_grad(X.stack([H]), X.stack([S if overlap else np.eye(n)]), X.stack([dH]), X.stack([dS]))
    check_grad(X, "geigh_grad", H, S, dH, dS if overlap else None, la, bands[0], grads[0])


@harness("C04", cfgs=[dict(first=True), dict(first=False)], weight=3)
def batch(M, X, first):
    """linalg.geigh and geigvalsh of several matrices, of which one has the overlap 1"""
    H, S, la = decomposition(X, 2, overlap=True)
    I, D = np.eye(2), X.stack([[-1.0 + 0j, 0.0], [0.0, 1.5]])
    X.spectral(D, X.stack([-1.0, 1.5]), X.stack(I + 0j), X.stack(I))
    one, two = (0, 1) if first else (1, 0)
    Hs, Ss = (X.stack([D, H]), X.stack([I + 0j, S])) if first else (X.stack([H, D]), X.stack([S, I + 0j]))
    bands, ev = M.linalg.geigh(Hs, Ss)
    vals = M.linalg.geigvalsh(Hs, Ss)
    for b in (bands, vals):
        X.eq("bands with overlap 1", b[one], [-1.0, 1.5], tol=1e-6)
        X.eq("bands with an overlap", b[two], la, tol=1e-6)
    for i, h, o in ((one, D, I), (two, H, S)):
        X.eq("eigenvectors", h @ ev[i], (o @ ev[i]) * bands[i][None, :], tol=1e-6, validate=False)
        X.eq("normalised with the overlap", dag(ev[i]) @ o @ ev[i], I, tol=1e-6, validate=False)


@harness("C04", cfgs=[dict(part="grad"), dict(part="model")], weight=3)
def orthonormal_point(M, X, part):
    """points where the overlap matrix is exactly one, but not constant"""
    n = 2
    H, _, la = decomposition(X, n)
    I = np.eye(n)
    dH, dS = [X.stack([X.hermitian(c, n, 0.3, 1)]) for c in ("dH", "dS")]
    if part == "grad":
        X.spectral(H, la, X.spec.table[0][3], X.stack(I)) if X.symbolic else None
        b, g, ev = M.linalg.geigh_grad(X.stack([H]), X.stack([I]), dH, dS)[:3]
        check_grad(X, "geigh_grad", H, I, dH, dS, la, b[0], g[0])
    else:
        A = M.tight_binding_asym
        w = 2 * np.pi
        T = X.stack([[X.real("a", -1, 1), X.real("b", -1, 1)], [0.0, X.real("c", -1, 1)]])
        # B + B^H = 0, so S(0) = 1 and S'(0) = 2 pi i (B - B^H)
        B = X.stack([[1j * X.real("d", 0.05, 0.3), 1j * X.real("s", 0.05, 0.3)], [1j * X.real("s", 0.05, 0.3), 0.0]])
        m = A.AsymTightBindingModel(A.HermitianFourierSeries([(0,), (1,)], X.stack([H - (T + dag(T)), T])),
                                    A.HermitianFourierSeries([(0,), (1,)], X.stack([X.stack(I) - (B + dag(B)), B])))
        k = X.stack([np.zeros(1)])
        dS = X.stack([1j * w * (B - dag(B))])
        dH = X.stack([1j * w * (T - dag(T))])
        X.eq("bands", m.bands(k)[0], la)
        b, g = m.bands_grad(k)
        check_grad(X, "bands_grad", H, I, dH, dS, la, b[0], g[0], tol=1e-4)
        ddH, ddS = [X.stack([X.stack([-w * w * (x + dag(x))])]) for x in (T, B)]
        b, g, h = m.bands_grad_hess(k)
        check_grad(X, "bands_grad_hess", H, I, dH, dS, la, b[0], g[0], tol=1e-4)
        check_hess(X, "bands_grad_hess", H, dH, ddH, la, g[0], h[0], tol=1e-3, S=I, dS=dS, ddS=ddS)


@harness("C04", cfgs=[dict(n=2, m=1), dict(n=2, m=2)], thorough=[dict(n=3, m=1)], weight=5)
def eigh_grad_hess(M, X, n, m):
    """linalg.eigh_grad_hess without degeneracy (gap >= 0.2)"""
    H, _, la = decomposition(X, n)
    dH = X.stack([X.hermitian(f"d{i}", n, -1, 1) for i in range(m)])
    dd = [[X.hermitian(f"dd{min(i, j)}{max(i, j)}", n, -1, 1) for j in range(m)] for i in range(m)]
    ddH = X.stack([X.stack(r) for r in dd])
    bands, grads, hess = M.linalg.eigh_grad_hess(X.stack([H]), X.stack([dH]), X.stack([ddH]))
    check_grad(X, "eigh_grad_hess", H, None, dH, None, la, bands[0], grads[0])
    check_hess(X, "eigh_grad_hess", H, dH, ddH, la, grads[0], hess[0])


@harness("C04", cfgs=[dict(model="exp"), dict(model="cos"), dict(model="asym")], weight=5)
def model_bands(M, X, model):
    """bands, bands_grad and bands_grad_hess of 2 band models in 2D at every k, every spectrum with gap >= 0.2"""
    nbs = [(0, 0), (1, 0), (1, -1)]
    n, d = 2, 2
    H, _, la = decomposition(X, n)
    k = X.turns("k", d)
    H1, H2 = X.carray("A", (n, n), -1, 1), X.stack([[0.0, X.real("B01", -1, 1)], [0.0, X.real("B11", -1, 1)]])
    rest = np.zeros((n, n))
    for R, m in zip(nbs[1:], (H1, H2)):
        z = X.expi(k[0] * R[0] + k[1] * R[1])
        rest = rest + z * m + X.conj(z) * dag(m)
    H_r = X.stack([H - rest, H1, H2])
    if model == "asym":
        A = M.tight_binding_asym
        tb = A.AsymTightBindingModel(A.HermitianFourierSeries(nbs, H_r))
    else:
        tb = M.bandstructure.BandStructureModel.init_tight_binding(M.symmetry.Symmetry.none(d), nbs, n, exp=model == "exp")
        tb.set_params_complex(H_r)
    ks = X.stack([k])
    # derivatives of the documented series, written out
    w = 2 * np.pi
    dH, ddH = [], []
    for i in range(d):
        s = 0.0
        row = []
        for R, m in zip(nbs[1:], (H1, H2)):
            z = X.expi(k[0] * R[0] + k[1] * R[1]) * (1j * w * R[i])
            s = s + z * m + X.conj(z) * dag(m)
        dH.append(s)
        for j in range(d):
            t = 0.0
            for R, m in zip(nbs[1:], (H1, H2)):
                z = X.expi(k[0] * R[0] + k[1] * R[1]) * (-w * w * R[i] * R[j])
                t = t + z * m + X.conj(z) * dag(m)
            row.append(t)
        ddH.append(X.stack(row))
    dH, ddH = X.stack(dH), X.stack(ddH)
    X.eq("bands", tb.bands(ks)[0], la, tol=1e-5)
    X.eq("call", tb(ks)[0], la, tol=1e-5)
    b, g = tb.bands_grad(ks)
    check_grad(X, "bands_grad", H, None, dH, None, la, b[0], g[0], tol=1e-4)
    b, g, h = tb.bands_grad_hess(ks)
    check_grad(X, "bands_grad_hess", H, None, dH, None, la, b[0], g[0], tol=1e-4)
    check_hess(X, "bands_grad_hess", H, dH, ddH, la, g[0], h[0], tol=1e-3)


@harness("C04", cfgs=[dict(what="grad"), dict(what="hess")], weight=6)
def overlap_model(M, X, what):
    """asym model with a k-dependent overlap matrix (1D, 2 bands): bands, bands_grad and bands_grad_hess at every k"""
    n = 2
    H, S, la = decomposition(X, n, overlap=True)
    k = X.turns("k", 1)
    z = X.expi(k[0])
    w = 2 * np.pi

    def series(target, A):
        H_r = X.stack([target - (z * A + X.conj(z) * dag(A)), A])
        d = (1j * w) * (z * A - X.conj(z) * dag(A))
        dd = (-w * w) * (z * A + X.conj(z) * dag(A))
        return M.tight_binding_asym.HermitianFourierSeries([(0,), (1,)], H_r), X.stack([d]), X.stack([X.stack([dd])])

    A = X.stack([[X.real("A00", -1, 1), X.real("A01", -1, 1) + 1j * X.real("A01i", -1, 1)], [0.0, X.real("A11", -1, 1)]])
    B = X.stack([[X.real("B00", -.3, .3), X.real("B01", -.3, .3)], [1j * X.real("B10", -.3, .3), 0.0]])
    fH, dH, ddH = series(H, A)
    fS, dS, ddS = series(S, B)
    tb = M.tight_binding_asym.AsymTightBindingModel(fH, fS)
    ks = X.stack([k])
    if what == "grad":
        X.eq("bands", tb.bands(ks)[0], la, tol=1e-5)
        b, g = tb.bands_grad(ks)
        check_grad(X, "bands_grad", H, S, dH, dS, la, b[0], g[0], tol=1e-4)
    else:
        b, g, h = tb.bands_grad_hess(ks)
        check_grad(X, "bands_grad_hess", H, S, dH, dS, la, b[0], g[0], tol=1e-4)
        check_hess(X, "bands_grad_hess", H, dH, ddH, la, g[0], h[0], tol=1e-3, S=S, dS=dS, ddS=ddS)


@harness("C04", cfgs=[dict(single=True, m=1), dict(single=False, m=1), dict(single=False, m=2)], weight=3)
def degenerate(M, X, single, m):
    """eigh_grad_hess at a degenerate level (-1, -1, 2), as a single matrix or next to a matrix without degeneracy: the gradients
    are the first order changes of the levels in every direction, the second order changes come from the other level"""
    H = np.diag([-1.0, -1.0, 2.0]) + 0j
    dH, mu, rot, cpl = [], [], [], []
    for i in range(m):
        p, q = X.real(f"p{i}", -2, 0), X.real(f"q{i}", 0.3, 2)
        z = X.expi(X.turn(f"z{i}"))
        c, s = [(0.8, 0.6), (0.6, 0.8)][i]
        V = X.stack([[c, -s * X.conj(z)], [s * z, c]])
        B = V @ X.stack([[p, 0.0], [0.0, q]]) @ dag(V)
        w = [X.real(f"w{i}{j}", -1, 1) + 1j * X.real(f"v{i}{j}", -1, 1) for j in range(2)]
        r = X.real(f"r{i}", 2.5, 4)
        dH.append(X.stack([[B[0, 0], B[0, 1], w[0]], [B[1, 0], B[1, 1], w[1]], [X.conj(w[0]), X.conj(w[1]), r]]))
        masked = X.stack([[B[0, 0], B[0, 1], 0.0], [B[1, 0], B[1, 1], 0.0], [0.0, 0.0, r]])
        V3 = X.stack([[V[0, 0], V[0, 1], 0.0], [V[1, 0], V[1, 1], 0.0], [0.0, 0.0, 1.0]])
        X.spectral(masked, X.stack([p, q, r]), V3)
        mu.append(X.stack([p, q, r]))
        cpl.append([X.conj(V[0, j]) * w[0] + X.conj(V[1, j]) * w[1] for j in range(2)])
    dH = X.stack(dH)
    ddH = np.zeros((m, m, 3, 3)) + 0j
    if single:
        bands, grads, hess = M.linalg.eigh_grad_hess(H, dH, ddH)
    else:
        H2 = np.diag([-3.0, 0.0, 1.0]) + 0j
        bands, grads, hess = M.linalg.eigh_grad_hess(np.stack([H2, H]), X.stack([dH, dH]), np.stack([ddH, ddH]))
        X.eq("bands without degeneracy", bands[0], [-3.0, 0.0, 1.0])
        X.eq("gradients without degeneracy", grads[0], X.stack([[d[i, i] for i in range(3)] for d in dH]), tol=1e-5)
        e = [-3.0, 0.0, 1.0]
        for i in range(m):
            for a in range(3):
                sec = sum(2.0 / (e[a] - e[b]) * dH[i][a, b] * dH[i][b, a] for b in range(3) if b != a)
                X.eq("hessian without degeneracy", hess[0][i, i, a], np.real(sec), tol=1e-4)
        bands, grads, hess = bands[1], grads[1], hess[1]
    X.eq("bands", bands, [-1.0, -1.0, 2.0])
    for i in range(m):
        X.eq("first order changes", grads[i], mu[i], tol=1e-5)
        second = [-2.0 / 3.0 * np.real(a * X.conj(a)) for a in cpl[i]]
        X.eq("second order changes", hess[i, i], X.stack(second + [-(second[0] + second[1])]), tol=1e-4)


@harness("C04", cfgs=[dict(shape=()), dict(shape=(1, 2))], weight=3)
def shapes(M, X, shape):
    """geigh, geigvalsh and geigh_grad with an overlap matrix for a single matrix, geigh and geigvalsh for a grid of matrices"""
    H, S, la = decomposition(X, 2, overlap=True)
    if shape == ():
        vals, (bands, ev) = M.linalg.geigvalsh(H, S), M.linalg.geigh(H, S)
        dH, dS = X.stack([X.hermitian("d", 2, -1, 1)]), X.stack([X.hermitian("s", 2, 0.3, 1)])
        b, g, e = M.linalg.geigh_grad(H, S, dH, dS)
        check_grad(X, "geigh_grad", H, S, dH, dS, la, b, g)
    else:
        I, D = np.eye(2), X.stack([[-1.0 + 0j, 0.0], [0.0, 1.5]])
        X.spectral(D, X.stack([-1.0, 1.5]), X.stack(I + 0j), X.stack(I))
        Hs, Ss = X.stack([X.stack([D, H])]), X.stack([X.stack([I + 0j, S])])
        vals, (bands, ev) = M.linalg.geigvalsh(Hs, Ss), M.linalg.geigh(Hs, Ss)
        X.eq("bands of the grid", bands[0, 0], [-1.0, 1.5])
        X.eq("bands of the grid", vals[0, 0], [-1.0, 1.5])
        vals, bands, ev = vals[0, 1], bands[0, 1], ev[0, 1]
    X.eq("bands", vals, la)
    X.eq("bands with eigenvectors", bands, la)
    X.eq("eigenvectors", H @ ev, (S @ ev) * bands[None, :], tol=1e-6, validate=False)


@harness("C04", cfgs=[dict(m=1), dict(m=2)], weight=2)
def electron_phonon(M, X, m):
    """electron_phonon_coupling: velocities are the band gradients, the coupling of two states is the difference of their velocities times their overlap"""
    H, _, la = decomposition(X, 2)
    U = X.unitary("U", 2)
    I, D = np.eye(2), X.stack([[-1.0 + 0j, 0.0], [0.0, 1.5]])
    X.spectral(D, X.stack([-1.0, 1.5]), X.stack(I + 0j))
    d = X.stack([X.stack([X.hermitian(f"{c}{i}", 2, -1, 1) for i in range(m)]) for c in ("d", "e")])
    tb = M.bandstructure.BandStructureModel.init_tight_binding(M.symmetry.Symmetry.none(m), np.zeros((1, m)), 2)
    tb.f, tb.df = lambda k: X.stack([H, D]), lambda k: d
    bands, v, g = tb.electron_phonon_coupling(np.zeros((2, m)), [0], [1, 0])
    vec = [U, X.stack(I + 0j)]
    X.eq("bands", bands, X.stack([la, X.stack([-1.0, 1.5])]))
    w = [[[(dag(u[:, [i]]) @ d[a][x] @ u[:, [i]])[0, 0] for i in range(2)] for x in range(m)] for a, u in enumerate(vec)]
    X.eq("velocities", v, X.stack([X.stack([X.stack([z.real for z in r]) for r in q]) for q in w]), tol=1e-6)
    for b, p in ((0, 1), (1, 0)):
        for i in range(2):
            for j in range(2):
                o = (dag(vec[0][:, [i]]) @ vec[p][:, [j]])[0, 0]
                for x in range(m):
                    for y in range(x + 1):
                        X.eq("coupling", g[0, b, x, i, j] * X.conj(g[0, b, y, i, j]), (w[0][x][i] - w[p][x][j]) * (w[0][y][i] - w[p][y][j]) * (o * X.conj(o)), tol=1e-6)
