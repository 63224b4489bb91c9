"""C15: Fermi surface samples"""
from symex.driver import harness, assumptions
from .common import *

assumptions("C15", "linear bands; the samples of the smearing method are arbitrary points, gradients and areas (their exactness is the subject of C12)",
            "gradients of the model are enumerated")

# dispersions in reciprocal space
G = np.array([[0.8, -0.5, 0.3], [-0.4, 0.9, 0.7], [0.2, 0.1, -1.1]])
OFF = np.array([-0.25, 0.5, 3.0])
LAT = {"cubic": np.eye(3) * 2.0, "tri": np.array([[1.0, 0.25, 0.5], [0.0, 1.5, -0.25], [0.0, 0.0, 2.0]]), "left": np.array([[0.0, 1.0, 0.25], [1.5, 0.0, 0.0], [0.0, 0.5, 1.0]])}


class Samples:
    """double for the smearing method with given samples per band"""

    def __init__(self, M, X, table):
        self.mods = [m for m in (M.density_of_states, M.smearing) if hasattr(m, "CubesSmearing")]
        made = []

        class Given:
            def __init__(self, *a, **k):
                self.i = len(made)
                made.append(self)

            def samples(self, e):
                x, g, w = table[self.i]
                return tuple(X.stack(list(q)) for q in (x, g, w))
        self.cls = Given

    def __enter__(self):
        self.old = [m.CubesSmearing for m in self.mods]
        for m in self.mods:
            m.CubesSmearing = self.cls

    def __exit__(self, *a):
        for m, o in zip(self.mods, self.old):
            m.CubesSmearing = o


def setup(X, M, lattice, ranges, analytic, n=2):
    A = LAT[lattice]
    e = X.real("e", -0.2, 0.45)
    x = [X.array(f"x{i}", (n, 3), -0.5, 0.5) for i in range(3)]
    w = [X.array(f"w{i}", n, 0.25, 1.0) for i in range(3)]

    class Linear:
        def __call__(self, k):
            return X.stack([q @ G.T + OFF for q in k])
    if analytic:
        class Linear(Linear):
            def bands_grad(self, k):
                b = self(k)
                return b, X.stack([G.T] * len(b))
    table = [(x[i], X.stack([G[i]] * n) if not analytic else X.stack([G[i] * 0.5 + 0.1] * n), w[i]) for i in range(3)]
    return A, e, x, w, Linear(), table


@harness("C15", cfgs=[dict(lattice=l, reduced=r, analytic=a, normalize=n) for l, r, a, n in (
    ("cubic", False, True, None), ("tri", True, True, None), ("left", False, True, None), ("tri", False, False, None), ("cubic", False, True, "band"), ("tri", False, False, "band"), ("cubic", True, True, "total"), ("left", True, False, "total"))])
def surface(M, X, lattice, reduced, analytic, normalize):
    """improved points lie on the surface of their band, the weights are the areas scaled to the whole cell"""
    A, e, x, w, model, table = setup(X, M, lattice, reduced, analytic)
    ranges = ((-0.5, 0.5), (0.0, 0.5), (0.0, 0.25)) if reduced else ((-0.5, 0.5),) * 3
    V = 0.125 if reduced else 1.0
    with Samples(M, X, table):
        D = M.density_of_states.DensityOfStates(model, N=2, A=A, ranges=ranges, check=False)
        p, i, ww, area = D.fermi_surface_samples(e, normalize=normalize)
        p0, i0, w0, area0 = D.fermi_surface_samples(e, improved_points=False, normalize=normalize)
    # only the bands which contain the energy
    cut = [b for b in range(3) if D.bands_range[b][0] < e and e < D.bands_range[b][1]]
    X.eq("cut bands", cut, D.cut_band_indices(e))
    X.eq("bands", i, [b for b in cut for _ in range(2)])
    X.eq("bands, not improved", i0, i)
    scale = abs(np.linalg.det(A)) / V
    X.eq("total area", [area, area0], [scale * sum(sum(w[b]) for b in cut)] * 2)
    n = 0
    for b in cut:
        for j in range(2):
            X.eq("on the surface", G[b] @ p[n] + OFF[b], e)
            # moved along the gradient only
            d = p[n] - x[b][j]
            g = table[b][1][j] if not analytic else G[b]
            X.eq("moved along the gradient", np.cross(d, g), np.zeros(3))
            X.eq("not improved", p0[n], x[b][j])
            ref = scale * w[b][j]
            if normalize == "band":
                ref = w[b][j] / sum(w[b])
            elif normalize == "total":
                ref = w[b][j] / sum(sum(w[c]) for c in cut)
            X.eq("weight", [ww[n], w0[n]], [ref, ref])
            n += 1


@harness("C15", cfgs=[dict(lattice=l, analytic=a, improved=p) for l, a, p in (("tri", True, True), ("left", False, True), ("cubic", True, False))])
def by_gradient(M, X, lattice, analytic, improved):
    """weights divided by the gradients"""
    A, e, x, w, model, table = setup(X, M, lattice, False, analytic)
    with Samples(M, X, table):
        D = M.density_of_states.DensityOfStates(model, N=2, A=A, check=False)
        p, i, ww, area = D.fermi_surface_samples(e, improved_points=improved, weight_by_gradient=True)
    n = 0
    scale = abs(np.linalg.det(A))
    for b in D.cut_band_indices(e):
        for j in range(2):
            g = table[b][1][j] if not (improved and analytic) else G[b]
            X.eq("weight", ww[n] * np.sqrt(g @ g), scale * w[b][j])
            n += 1
    X.eq("number of weights", len(ww), n)


@harness("C15", cfgs=[dict(improved=p) for p in (True, False)])
def improved_weights(M, X, improved):
    """the points stay on the surface when the weights are improved as well"""
    e = X.real("e", 0.02, 0.1)
    g = np.array([0.8, -0.5, 0.3])

    class Linear:
        def __call__(self, k):
            return X.stack([[q @ g] for q in k])

        def bands_grad(self, k):
            b = self(k)
            return b, X.stack([g[:, None]] * len(b))
    # one point in each of two cells, with a deviation from the surface
    pts = X.stack([[0.15, 0.2, 0.2], [-0.2, -0.2, 0.2]])
    mod = M.density_of_states
    # the weights are not claimed
    old = getattr(mod, "cube_cut_area_com", None)
    if old is not None:
        mod.cube_cut_area_com = lambda a0, *a: (np.ones(len(a0)),) * 2
    with Samples(M, X, [(pts, X.stack([g] * 2), X.stack([0.5, 0.25]))]):
        D = M.density_of_states.DensityOfStates(Linear(), N=2, A=np.eye(3), check=False)
        try:
            p, i, w, area = D.fermi_surface_samples(e, improved_points=improved, improved_weights=True)
        finally:
            if old is not None:
                mod.cube_cut_area_com = old
    for n in range(2):
        X.eq("on the surface", g @ p[n], e)


@harness("C15", cfgs=[dict(shape=(3,)), dict(shape=(2, 1))])
def field(M, X, shape):
    """the signed field of the Fermi surface has exactly the bands with states on both sides, with the energy relative to the Fermi energy at every sample in the given arrangement"""
    e = X.real("e", -1, 1)
    n = int(np.prod(shape))
    v = X.array("v", (n, 2), -1, 1)
    for b in range(2):
        for i in range(n):
            X.assume((v[i][b] - e > 1e-6) | (v[i][b] - e < -1e-6)) if X.symbolic else None
    pts = np.arange(3 * n).reshape(n, 3) * 0.05

    def model(k):
        X.eq("samples", k, pts)
        return X.stack([X.stack(list(r)) for r in v])
    vol, idx = M.fermi_surface.fermi_surface(model, e, pts.reshape(shape + (3,)))
    ref = [b for b in range(2) if any(bool(v[i][b] > e) for i in range(n)) and any(bool(v[i][b] < e) for i in range(n))]
    X.eq("bands", list(idx), ref)
    for w, b in zip(vol, ref):
        X.true("arrangement", np.shape(w) == shape)
        X.eq("field", np.reshape(w, -1), [v[i][b] - e for i in range(n)])


@harness("C15", cfgs=[dict(models=1, accelerate=False), dict(models=2, accelerate=False), dict(models=1, accelerate=True)])
def cuts(M, X, models, accelerate):
    """cuts of the Fermi surface: one zero contour for every band which crosses the Fermi energy in the plane, at the positions of the samples; the accelerated version draws the zeros of the determinant"""
    e = X.real("e", -0.4, 0.4)
    c = X.array("c", (2, 4), 0.5, 1)
    planes = [0.125, 0.25]

    class Model:
        def __init__(self, i):
            self.i = i

        def __call__(self, k):
            # the second band never crosses
            return X.stack([X.stack([c[self.i][0] * p[0] + c[self.i][1] * p[1] + c[self.i][2] * p[2] * 0.5, 4.0 + p[0]]) for p in k])

        def f(self, k):
            return X.stack([X.stack([X.stack([a, 0.0]), X.stack([0.0, b])]) for a, b in self(k)])
    ms = [Model(i) for i in range(models)]
    mod = M.fermi_surface
    with Recorder(mod) as plt:
        mod.plot_2D_fermi_surface(ms[0] if models == 1 else ms, e, z=planes, N=2, show=lambda: plt.calls.append(("show", (), {})), accelerate=accelerate)
    X.eq("plots", sum(1 for n, _, _ in plt.calls if n == "show"), len(planes))
    x = np.array([[-0.5, -0.5], [0.5, 0.5]])
    plane, got = 0, []
    for n, a, k in plt.calls:
        if n == "show":
            plane += 1
        elif n == "contour":
            got.append((plane, a, k))
    ref = []
    for p, z in enumerate(planes):
        for m in ms:
            vals = [[c[m.i][0] * x[i][j] + c[m.i][1] * x[j][i] + c[m.i][2] * z * 0.5 - e for j in range(2)] for i in range(2)]
            if accelerate:
                vals = [[vals[i][j] * (4.0 + x[i][j] - e) for j in range(2)] for i in range(2)]
            if any(bool(v > 0) for r in vals for v in r) and any(bool(v < 0) for r in vals for v in r):
                ref.append((p, vals))
    limits = [(n, tuple(np.ravel(a).tolist())) for n, a, k in plt.calls if n in ("xlim", "ylim")]
    X.true("limits of the plots", limits == [("xlim", (-0.5, 0.5)), ("ylim", (-0.5, 0.5))] * len(planes))
    X.eq("contours", len(got), len(ref))
    for (p, a, k), (q, vals) in zip(got, ref):
        X.eq("plane", p, q)
        X.eq("x", a[0], x)
        X.eq("y", a[1], x.T)
        X.eq("field", a[2], X.stack([X.stack(r) for r in vals]))
        X.true("zero contour", tuple(a[3]) == (0,))
