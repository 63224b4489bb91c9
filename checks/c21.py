"""C21: fitting keeps exact models, solves linear problems and respects what has to be kept"""
import contextlib
import io
from symex.driver import harness, assumptions
from .common import *

assumptions("C21", "k-points, neighbors and options are enumerated, coefficients and reference bands are symbolic; models with one band or with uncoupled bands (eigenvectors are then known)",
            "one or two iterations of every optimizer; convergence of nonlinear problems is not part of the claim")

KS = {3: np.array([[0.0], [1 / 3], [2 / 3]]), 4: np.arange(4)[:, None] / 4, 5: np.arange(5)[:, None] / 5, 6: np.arange(6)[:, None] / 6}
NB = [(0,), (1,)]


def coef(X, name, n, m=2, complex_=False, gap=None):
    """diagonal coefficients: uncoupled bands"""
    mats = []
    for i in range(m):
        d = []
        for j in range(n):
            lo, hi = (-0.5 + 3 * j, 0.5 + 3 * j) if i == 0 else (-0.25, 0.25)
            v = X.real(f"{name}{i}{j}", lo, hi)
            if complex_ and i:
                v = v + 1j * X.real(f"{name}i{i}{j}", lo, hi)
            d.append(v)
        mats.append(X.stack([X.stack([d[a] if a == b else 0.0 for b in range(n)]) for a in range(n)]))
    return X.stack(mats) + 0j


def values(X, H, ks, nbs=NB, S=None):
    """bands of the uncoupled models, written out"""
    rows = []
    for k in ks:
        h = fourier(X, H, nbs, k)
        s = None if S is None else fourier(X, S, nbs, k)
        rows.append(X.stack([h[j, j].real if s is None else h[j, j].real / s[j, j].real for j in range(len(h))]))
    return X.stack(rows)


def model(M, X, kind, n, H, S=None, nbs=NB):
    d = len(nbs[0])
    if kind == "asym":
        A = M.tight_binding_asym
        return A.AsymTightBindingModel(A.HermitianFourierSeries(nbs, H * 1.0), *([] if S is None else [A.HermitianFourierSeries(nbs, S * 1.0)]))
    B = M.bandstructure.BandStructureModel.init_tight_binding(M.symmetry.Symmetry.none(d), nbs, n, exp=kind == "exp")
    B.set_params_complex(H * 1.0)
    return B


def fit(m, kind, cg, ks, ref, w, offset, it, **kw):
    kw.setdefault("log", False)
    if kind == "asym" and cg:
        return m.optimize_cg(ks, ref, w, offset, it, **kw)
    if cg:
        return m.optimize_cg(ks, 1.0, ref, w, offset, it, **kw)
    return m.optimize(ks, 1.0, ref, w, offset, it, **kw)


@harness("C21", cfgs=[dict(kind=k, cg=c, n=n, off=o, opts=op) for k, c, n, o, op in (
    ("asym", False, 1, 0, {}), ("asym", False, 2, 1, {}), ("asym", False, 2, 0, dict(batch_div=2)), ("asym", False, 2, 0, dict(use_pinv=False)), ("asym", False, 2, 0, dict(keep_zeros=True)),
    ("asym", True, 1, 0, {}), ("asym", True, 2, 1, {}), ("asym", True, 2, 0, dict(precond=False)),
    ("exp", False, 1, 0, {}), ("exp", False, 2, 0, {}), ("exp", False, 2, 1, dict(batch_div=2)), ("exp", True, 2, 0, {}),
    ("cos", False, 2, 0, dict(use_pinv=False)), ("cos", False, 2, 0, dict(learning_rate=0.5)), ("cos", True, 2, 0, {}))], max_paths=60)
def fixed_point(M, X, kind, cg, n, off, opts):
    """a model which reproduces the reference is not changed by fitting; the log says so"""
    H = coef(X, "h", n, complex_=kind != "cos")
    ks = KS[4]
    ref = values(X, H, ks)
    m = model(M, X, kind, n, H)
    B = n - off
    w = np.array([1.0, 2.0])[:B]
    log = fit(m, kind, cg, ks, ref[:, off:], w, off, 2, **opts)
    X.eq("bands", m.bands(ks), ref, tol=1e-6)
    X.le("logged loss", log.last_loss(), 1e-6)
    X.eq("reference is not changed", ref, values(X, H, ks))


def projected(X, ref, ks, nbs, exp):
    """least squares solution of a linear fit with one band: reference projected to the span of the functions (the projector is concrete)"""
    cols = []
    for R in nbs:
        ph = np.array([np.exp(2j * np.pi * np.dot(k, R)) for k in ks])
        cols.append(ph.real)
        if exp:
            cols.append(ph.imag)
    F = np.stack(cols, axis=1)
    P = F @ np.linalg.pinv(F)
    n = len(ks)
    return X.stack([sum(P[i, j] * ref[j][0] for j in range(n)) for i in range(n)])


def loss_of(X, got, ref, w):
    s = 0.0
    for g, r in zip(got, ref):
        for j in range(len(r)):
            d = (g[j] - r[j]) * w[j]
            s = s + d * d
    return s / len(ref)


def disturbed(X, H, K, n=1, off=0, pattern=0, S=None):
    """reference: the bands of the model plus t*pattern, t symbolic, pattern concrete"""
    t = X.real("t", 0.05, 0.2)
    rng = np.random.default_rng(7 + pattern)
    D = rng.integers(-4, 5, (len(K), n - off)) / 4.0
    return values(X, H, K, NB, S)[:, off:] + t * D, t * D


@harness("C21", cfgs=[dict(kind=k, cg=c, ks=s, pattern=p, opts=o) for k, c, s, o, ps in (
    ("cos", False, 3, {}, (0, 1, 2)), ("cos", False, 4, {}, (0, 1, 2)), ("cos", False, 6, {}, (0, 1)), ("cos", False, 5, dict(max_accel_global=3.0), (0, 1)),
    ("cos", True, 5, {}, (0, 1)), ("cos", True, 6, {}, (0, 1)), ("exp", True, 4, {}, (0, 1)), ("exp", True, 6, {}, (0, 1)),
    ("asym", True, 4, {}, (0, 1)), ("asym", True, 6, {}, (0, 1)), ("asym", True, 5, dict(precond=False), (0, 1))) for p in ps], max_paths=40)
def linear(M, X, kind, cg, ks, pattern, opts):
    """fitting one band is a linear least squares problem: one step of the optimizers solves it, whatever the start and the weight"""
    K = KS[ks]
    H = coef(X, "h", 1, complex_=kind != "cos")
    ref, D = disturbed(X, H, K, pattern=pattern)
    X.merge()
    m = model(M, X, kind, 1, H)
    keep = ref * 1.0
    w = 2.0
    log = fit(m, kind, cg, K, ref, w, 0, 1, loss_threshold=0.0, convergence_threshold=0.0, **opts)
    want = projected(X, ref, K, NB, True)
    X.eq("bands", m.bands(K)[:, 0], want, tol=1e-2 if cg else 1e-6)
    X.eq("logged loss", log.last_loss()**2, loss_of(X, m.bands(K), keep, [w]), tol=1e-6)
    X.eq("reference is not changed", ref, keep)


@harness("C21", cfgs=[dict(kind=k, cg=c, off=o, nref=r, pattern=p) for k, c in (("cos", False), ("cos", True), ("exp", False), ("exp", True), ("asym", False), ("asym", True))
                      for o, r, p in ((1, 1, 0), (0, 1, 1), (1, 2, 0))], max_paths=40)
def selected_bands(M, X, kind, cg, off, nref, pattern):
    """a model with more bands than the reference: exactly the bands from band_offset on are fitted (uncoupled bands), the others are kept"""
    K = KS[5]
    n = 2 if nref == 1 else 3
    H = coef(X, "h", n)
    have = values(X, H, K)
    t = X.real("t", 0.05, 0.2)
    c = np.random.default_rng(7 + pattern).integers(-4, 5, (2, nref)) / 4.0 + 0.125
    D = np.array([c[0] + c[1] * np.cos(2 * np.pi * k[0]) for k in K])      # within the span of the model
    want = have[:, off:off + nref] + t * D
    X.merge()
    m = model(M, X, kind, n, H)
    fit(m, kind, cg, K, want, 1.0, off, 1, loss_threshold=0.0, convergence_threshold=0.0)
    b = m.bands(K)
    X.le("error is reduced", loss_of(X, b[:, off:off + nref], want, [1.0] * nref), 0.7 * loss_of(X, have[:, off:off + nref], want, [1.0] * nref))
    for j in range(n):
        if not off <= j < off + nref:
            X.eq("other bands", b[:, j], have[:, j], tol=1e-6)


@harness("C21", cfgs=[dict(kind=k, ks=s, pattern=p, it=it, opts=o) for k, s, it, o, ps in (
    ("asym", 5, 3, {}, (0, 1, 2)), ("asym", 5, 3, dict(use_pinv=False), (0, 1)), ("asym", 4, 4, dict(batch_div=2, use_pinv=False), (0,)), ("asym", 6, 3, dict(learning_rate=0.5), (0,)),
    ("exp", 5, 3, {}, (0, 1, 2)), ("exp", 5, 3, dict(use_pinv=False), (0, 1)), ("exp", 6, 4, dict(batch_div=2), (0,)), ("exp", 6, 3, dict(learning_rate=0.5), (0,)),
    ("cos", 5, 3, dict(use_pinv=False), (0, 1)), ("cos", 6, 4, dict(batch_div=2), (0,)), ("cos", 5, 3, dict(learning_rate=0.5), (0, 1))) for p in ps], max_paths=40)
def progress(M, X, kind, ks, pattern, it, opts):
    """the iterative optimizers reduce the error of a problem with a solution (one band), whatever the start"""
    K = KS[ks]
    H = coef(X, "h", 1, complex_=kind != "cos")
    ref, D = disturbed(X, H, K, pattern=pattern)
    want = projected(X, ref, K, NB, True)[:, None]
    w = [1.0]
    before = loss_of(X, values(X, H, K), want, w)
    X.merge()
    m = model(M, X, kind, 1, H)
    log = fit(m, kind, False, K, want, 1.0, 0, it, loss_threshold=0.0, convergence_threshold=0.0, **opts)
    after = loss_of(X, m.bands(K), want, w)
    X.le("error is reduced", after, 0.7 * before)
    X.eq("logged loss", log.last_loss()**2, after, tol=1e-6)
    X.eq("first logged loss", log.loss[0]**2, before, tol=1e-6)


OVERLAP = np.array([[[1.0, 0], [0, 1.2]], [[0.05, 0], [0, -0.1]]]) + 0j


@harness("C21", cfgs=[dict(cg=c, opts=o, off=f) for c, o, f in ((False, {}, 0), (False, dict(batch_div=2), 0), (False, dict(batch_div=2, loss_threshold=0.0, convergence_threshold=0.0), 0),
                                                             (False, dict(train_S=True), 0), (False, dict(train_S=True, loss_threshold=0.0, convergence_threshold=0.0), 1), (True, {}, 0), (True, dict(train_S=True), 1))], max_paths=40)
def overlap_fixed_point(M, X, cg, opts, off):
    """... also with a k-dependent overlap, whether or not it is trained"""
    H, S = coef(X, "h", 2), OVERLAP
    ks = KS[4]
    ref = values(X, H, ks, S=S)
    m = model(M, X, "asym", 2, H, S)
    log = fit(m, "asym", cg, ks, ref[:, off:], 1.0, off, 2, **opts)
    X.eq("bands", m.bands(ks), ref, tol=1e-6)
    X.le("logged loss", log.last_loss(), 1e-6)


@harness("C21", cfgs=[dict(kind=k, cg=c, pattern=p) for k, c in (("asym", False), ("asym", True), ("exp", False), ("exp", True), ("cos", False), ("cos", True)) for p in (0, 1)], max_paths=40)
def zeros(M, X, kind, cg, pattern):
    """keep_zeros: coefficients which are zero stay zero, the others are fitted; two uncoupled bands"""
    e0, e1, h = X.real("e0", -0.5, -0.1), X.real("e1", 2.5, 3.5), X.real("h", 0.1, 0.25)
    H = X.stack([X.stack([X.stack([e0, 0.0]), X.stack([0.0, e1])]), X.stack([X.stack([0.0, 0.0]), X.stack([0.0, h])])]) + 0j
    K = KS[5]
    ref, D = disturbed(X, H, K, n=2, pattern=pattern)
    X.merge()
    m = model(M, X, kind, 2, H)
    fit(m, kind, cg, K, ref, 1.0, 0, 2, keep_zeros=True, loss_threshold=0.0, convergence_threshold=0.0)
    b = m.bands(K)
    X.eq("band without dispersion", b[1:, 0], X.stack([b[0, 0]] * (len(K) - 1)), tol=1e-9)


@harness("C21", cfgs=[dict(cg=c, pattern=p, group=g, opts=o) for c, o in ((False, {}), (False, dict(use_pinv=False, batch_div=3)), (True, {})) for p in (0, 1) for g in ("square", "mirror")], max_paths=40)
def symmetric(M, X, cg, pattern, group, opts):
    """a model with a symmetrizer stays symmetric, even if the reference and the start are not"""
    nbs = [(0, 0), (1, 0), (0, 1)]
    K = np.array([[0.0, 0.0], [0.25, 0.0], [0.0, 0.25], [0.5, 0.125], [0.3, 0.4], [0.75, 0.5], [0.1, 0.9], [0.4, 0.2], [0.6, 0.3]])
    S = M.symmetry.Symmetry.o2(4) if group == "square" else M.symmetry.Symmetry.from_generator([[[1.0, 0.0], [0.0, -1.0]]], False)
    h = M.hamiltonian_symmetry.HamiltonianSymmetry(S)
    h.append_s((0.0, 0.0), "s")
    e0, a = X.real("e0", -0.5, 0.5), X.real("a", -0.25, 0.25)
    one = lambda v: X.stack([X.stack([v])])
    d = 0.0 if cg else 0.1 + 0.2j
    H = X.stack([one(e0), one(a + d), one(a - d)]) + 0j
    ref, D = disturbed_bands(X, values(X, H, K, nbs), pattern)
    m = model(M, X, "exp", 1, H, nbs=nbs)
    m.symmetrizer = h.symmetrizer([np.array(r, dtype=float) for r in nbs])
    X.merge()
    fit(m, "exp", cg, K, ref, 1.0, 0, 2, loss_threshold=0.0, convergence_threshold=0.0, **opts)
    k = np.array([[0.2, 0.3], [0.2, -0.3], [0.1, 0.45], [0.1, -0.45]])
    b = m.bands(k)
    X.eq("mirrored", b[::2], b[1::2], tol=1e-9)
    if group == "square":
        X.eq("rotated", b[0], m.bands(np.array([[0.3, -0.2]]))[0], tol=1e-9)
        X.eq("inverted", b[0], m.bands(np.array([[-0.2, -0.3]]))[0], tol=1e-9)


@harness("C21", cfgs=[dict(kind=k, n=n) for k in ("asym", "exp", "cos") for n in (1, 2)], max_paths=40)
def controls(M, X, kind, n):
    """learning_rate=0 keeps the model, regularization scales everything but the constant term, invalid band offsets are rejected"""
    H = coef(X, "h", n)
    K = KS[4]
    ref, D = disturbed(X, H, K, n=n)
    r = X.real("r", 0.5, 0.95)
    X.merge()
    m = model(M, X, kind, n, H)
    fit(m, kind, False, K, ref, 1.0, 0, 1, learning_rate=0.0, loss_threshold=0.0, convergence_threshold=0.0)
    X.eq("learning rate", m.bands(K), values(X, H, K), tol=1e-9)
    m = model(M, X, kind, n, H)
    fit(m, kind, False, K, ref, 1.0, 0, 1, learning_rate=0.0, loss_threshold=0.0, convergence_threshold=0.0, regularization=r)
    if kind != "cos":
        X.eq("regularization", m.bands(K), values(X, X.stack([H[0], H[1] * r]), K), tol=1e-9)
    for off in (-1, 1, n + 1):
        for cg in (False, True):
            try:
                fit(model(M, X, kind, n, H), kind, cg, K, ref, 1.0, off, 1)
                X.true(f"offset {off} is rejected", False)
            except AssertionError:
                X.true(f"offset {off} is rejected", True)


def disturbed_bands(X, b, pattern):
    t = X.real("t", 0.05, 0.2)
    rng = np.random.default_rng(7 + pattern)
    D = rng.integers(-4, 5, (len(b), 1)) / 4.0
    return b + t * D, t * D


@harness("C21", cfgs=[dict(n=n, inv=i, opts=o) for n, i, o in ((1, False, {}), (2, False, {}), (2, False, dict(batch_div=2)), (1, True, {}), (2, True, {}))], max_paths=40)
def older(M, X, n, inv, opts):
    """TightBindingModel.optimize keeps an exact model and reduces the error of a problem with a solution"""
    sy = M.symmetry.Symmetry
    u = M.unitary_representations.UnitaryRepresentation((sy.inv if inv else sy.none)(1), n)
    u.inv_split = n
    cnt = 2 if inv else 3
    rows = []
    for i in range(cnt):
        d = [X.real(f"p{i}{j}", *((-0.5 + 3 * j, 0.5 + 3 * j) if i == 0 else (-0.2, 0.2))) for j in range(n)]
        rows.append(X.stack([X.stack([d[a] if a == b else 0.0 for b in range(n)]) for a in range(n)]))
    P = X.stack(rows) + 0j
    K = KS[5]

    def bands(P):
        out = []
        for k in K[:, 0]:
            z = np.exp(2j * np.pi * k)
            h = P[0] + (z.real - 1) * P[1] + (0.0 if inv else z.imag * P[2])
            out.append(X.stack([h[j, j].real for j in range(n)]))
        return X.stack(out)
    make = lambda: M.tight_binding.TightBindingModel(u, [(0,), (1,)], P * 1.0)
    X.merge()
    m = make()
    m.optimize(K, 1.0, bands(P), 1.0, 0, 2, **opts)
    X.eq("bands", m.bands(K), bands(P), tol=1e-9)
    if n == 1:
        t = X.real("t", 0.05, 0.2)
        ref = bands(P + t * np.array([[[0.5]], [[-0.25]], [[0.75]]][:cnt]))
        m = make()
        m.optimize(K, 1.0, ref, 1.0, 0, 3)
        X.le("error is reduced", loss_of(X, m.bands(K), ref, [1.0]), 0.7 * loss_of(X, bands(P), ref, [1.0]))


@harness("C21", cfgs=[dict(kind=k, sym=s, offset=o, add=a) for k, s, o, a in (("cos", "none", 0, 0), ("cos", "none", 1, 1), ("cos", "none", 1, 3), ("cos", "inv", 0, 1), ("sin", "none", 1, 2), ("exp", "none", 0, 1), ("asym", "none", 0, 0), ("overlap", "none", 0, 0))])
def start(M, X, kind, sym, offset, add):
    """a model initialised from reference bands starts, for all random numbers, with the reference bands at k=0, padded by additional bands below and above; exactly where the other terms vanish at k=0"""
    nbs = [(0, 0), (1, 0), (1, -1)]
    ks = np.array([[0.25, 0.5], [0.0, 0.0], [0.5, 0.5]])
    if kind == "asym" or kind == "overlap":
        ref = np.array([[0.3, 0.4], [-1.0, 0.75], [0.1, 2.0]])
    else:
        ref = X.array("ref", (3, 2), -1, 1)
    with Drawn(X):
        if kind in ("asym", "overlap"):
            A = M.tight_binding_asym.AsymTightBindingModel
            # the change of the basis is the subject of C05
            old, A.normalize = A.normalize, lambda self: None
            try:
                m = A.init_from_ref(nbs, ks, ref, use_S=kind == "overlap")
            finally:
                A.normalize = old
        else:
            B = M.bandstructure.BandStructureModel
            S = M.symmetry.Symmetry.none(2) if sym == "none" else M.symmetry.Symmetry.inv(2)
            m = B.init_tight_binding_from_ref(S, nbs, ks, ref, band_offset=offset, add_bands=add, cos_reduced=kind == "cos", exp=kind == "exp")
    want = [ref[1][0]] * offset + list(ref[1]) + [ref[1][1]] * (add - offset)
    n = len(want)
    X.eq("bands", m.band_count(), n)
    f = m.f(np.zeros((1, 2)))[0] if kind not in ("asym", "overlap") else m.H.f(np.zeros((1, 2)))[0]
    X.eq("hermitian", f, dag(f))
    if kind == "cos":
        X.eq("bands at k=0", f, X.stack([X.stack([want[i] if i == j else 0.0 for j in range(n)]) for i in range(n)]))
    else:
        # random terms of a relative size of 1e-3
        size = 1e-3 * (max(want) - min(want) if kind in ("asym", "overlap") else 1.0)
        terms = 2 * 2
        for i in range(n):
            for j in range(n):
                d = f[i, j] - (want[i] if i == j else 0.0)
                for p in (d.real, d.imag):
                    X.le("close to the bands at k=0", p, 2 * terms * size)
                    X.le("close to the bands at k=0", -2 * terms * size, p)
    if kind == "overlap":
        X.eq("no overlap", m.S.f(np.array([[0.1, 0.3]]))[0], np.eye(n))
    # the reference is not changed
    X.eq("k-points", ks, [[0.25, 0.5], [0.0, 0.0], [0.5, 0.5]])


@harness("C21", cfgs=[dict(below=b, above=a, dim=d) for b, a, d in ((0, 0, 1), (1, 0, 1), (0, 2, 2), (1, 1, 2))])
def autofit(M, X, below, above, dim):
    """automatic fits start every attempt with the reference bands at the k-point next to zero, use the k-points in the order of their distance, continue the best attempt, and end with all neighbors"""
    T = M.tight_binding_asym
    A = T.AsymTightBindingModel
    S = M.symmetry.Symmetry.inv(1) if dim == 1 else M.symmetry.Symmetry.o2(4)
    src = [(0,), (1,), (2,), (3,)] if dim == 1 else [(0, 0), (1, 0), (1, 1), (2, 0)]
    ks = np.array([[0.3] * dim, [-0.1] * dim, [0.5] * dim, [0.2] * dim, [0.4] * dim])
    order = [1, 3, 0, 4, 2]
    ref = X.array("ref", (5, 2), -1, 1)
    w = np.array([1.0, 2.0])
    losses = [X.real(f"loss{i}", 0.1, 1.0) for i in range(2)]
    X.assume(abs(losses[0] - losses[1]) > 1e-3)
    calls, saved, models = [], [], []

    def optimize_cg(self, k, r, weights, offset, iterations, *a, log=None, **kw):
        if not any(self is m for m in models):
            models.append(self)
        i = [self is m for m in models].index(True)
        calls.append((i, self.H.H_r * 1.0, np.array(k), r, weights, offset, len(self.H.neighbors)))
        log.add_data(len(calls), losses[i] if len(calls) <= 20 else 0.05, np.array([0.5, 0.25]))
    patch = dict(optimize_cg=optimize_cg, normalize=lambda self: None, save=lambda self, name, **kw: saved.append((name, len(self.H.neighbors))),
                 error=lambda self, *a: (0.5, np.array([0.5, 0.25])), randomize=lambda self, *a, **kw: None)
    old = {n: getattr(A, n) for n in patch}
    for n, f in patch.items():
        setattr(A, n, f)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m = T.autofit_asym("name", src, ks, ref, w, S, start_neighbors_count=1, add_bands_below=below, add_bands_above=above, restarts=2)
    finally:
        for n, f in old.items():
            setattr(A, n, f)
    first = [ref[1][0]] * below + list(ref[1]) + [ref[1][1]] * above
    nb = len(first)
    X.true("attempts", len(models) == 2)
    X.true("best attempt", (m is models[0]) == bool(losses[0] < losses[1]))
    for i, H, k, r, weights, offset, count in calls[:20]:
        X.eq("start", H[0], X.stack([X.stack([first[a] if a == b else 0.0 for b in range(nb)]) for a in range(nb)]))
    for i, H, k, r, weights, offset, count in calls:
        n = len(k)
        X.eq("k-points", k, ks[order[:n]])
        X.eq("reference", r, X.stack([ref[j] for j in order[:n]]))
        X.true("arguments", offset == below and list(weights) == [1.0, 2.0])
    X.true("all k-points at the end of every attempt", len(calls[9][2]) == 5 and len(calls[19][2]) == 5 and all(len(c[2]) == 5 for c in calls[20:]))
    full = S.complete_neighbors(src)
    rows = lambda a: sorted(tuple(round(float(x), 6) + 0.0 for x in r) for r in a)
    X.true("neighbors", rows(m.H.neighbors) == rows(full))
    X.true("saved", saved[0][0] == "asym_name_start.json" and saved[-1] == (f"asym_name_{len(src)}.json", len(full)))


@harness("C21", cfgs=[dict(kind=k, n=n, pattern=p) for k, n, p in (("reduced", 1, 0), ("reduced", 2, 0), ("reduced", 1, 1), ("older", 1, 0), ("older", 1, 1))], max_paths=40)
def fixed_k0(M, X, kind, n, pattern):
    """with train_k0=False fitting does not change the model at k=0 (models with reduced cosines), the rest of the model is fitted"""
    K = KS[5]
    P = X.stack([X.stack([X.stack([X.real(f"p{i}{a}", -0.5 + 3 * a, 0.5 + 3 * a) if i == 0 and a == b else X.real(f"p{i}{a}", -0.2, 0.2) if a == b else 0.0
                                   for b in range(n)]) for a in range(n)]) for i in range(2)]) + 0j
    t = X.real("t", 0.05, 0.2)
    rng = np.random.default_rng(7 + pattern)
    D = rng.integers(-4, 5, (len(K), n)) / 4.0
    X.merge()
    if kind == "older":
        u = M.unitary_representations.UnitaryRepresentation(M.symmetry.Symmetry.inv(1), n)
        u.inv_split = n
        m = M.tight_binding.TightBindingModel(u, [(0,), (1,)], P * 1.0)
    else:
        m = M.bandstructure.BandStructureModel.init_tight_binding(M.symmetry.Symmetry.none(1), NB, n, cos_reduced=True, exp=False)
        m.params = P * 1.0
    old = m.bands(K)
    ref = old + t * D
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == "older":
            m.optimize(K, 1.0, ref, 1.0, 0, 2, train_k0=False)
        else:
            m.optimize(K, 1.0, ref, 1.0, 0, 2, train_k0=False, log=False)
    new = m.bands(K)
    X.eq("bands at k=0", new[0], old[0], tol=1e-9)
    X.le("the rest of the model changes", 1e-6, loss_of(X, new, old, np.ones(n)), tol=1e-8)
