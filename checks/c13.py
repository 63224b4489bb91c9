"""C13: density of states, state counts and band edges of a model"""
from symex.driver import harness, assumptions
from .common import *
from .c12 import LATTICES, locate, corners, poly_cell, relu

assumptions("C13", "linear model bands on 2x2x2 cells without wrapping (their state count is exact for the cube methods, see C12), the energy is symbolic",
            "energies closer than 1e-4 to the energy of a cell corner are left out")

G1, G2 = np.array([0.3, -0.7, 1.1]), np.array([0.9, 0.4, -0.25])
PAIRS = {"overlap": 0.5, "gap": 3.0, "touch": 1.0}


def edge(g):
    return 0.5 * float(np.sum(np.abs(g)))


class Linear:
    """two linear bands"""

    def __init__(self, A, shift):
        self.A, self.shift = A, shift

    def __call__(self, k):
        c = k @ self.A
        return np.stack([c @ G1, c @ G2 + self.shift], axis=-1)


def count(g, e, n=3):
    """exact number of states (n=3) or density (n=2) of a linear band"""
    return poly_cell(g, e, n)


def breakpoints(shift):
    cents = [np.array(c) * 0.25 for c in itertools.product((-1, 1), repeat=3)]
    return [p for g, s in ((G1, 0.0), (G2, shift)) for c in cents for p in corners(g * 0.5, c @ g + s)]


@harness("C13", cfgs=[dict(pair=p, smearing=s, lattice=l) for p, s, l in (("overlap", "cubes", "fcc"), ("gap", "tetras", "tri"), ("touch", "cubes", "cubic"), ("gap", "cubes+", "fcc"))], weight=3)
def states(M, X, pair, smearing, lattice):
    """states_below, states_density, density and their band resolved versions for every energy"""
    shift, A = PAIRS[pair], LATTICES[lattice]
    e = X.real("e", -2, 5)
    locate(X, e, breakpoints(shift))
    D = M.density_of_states.DensityOfStates(Linear(A, shift), N=2, A=A, wrap=False, smearing=smearing, check=False)
    n = [count(G1, e), count(G2, e - shift)]
    d = [count(G1, e, 2), count(G2, e - shift, 2)]
    X.eq("bands", D.model_bandcount(), 2)
    X.eq("energy range", list(D.energy_range()), [-edge(G1), shift + edge(G2)])
    X.eq("states below", D.states_below(e), n[0] + n[1])
    X.eq("density", D.density(e), d[0] + d[1])
    s, r = D.states_density(e)
    X.eq("states and density: states", s, n[0] + n[1])
    X.eq("states and density: density", r, d[0] + d[1])
    X.eq("band resolved density", D.density_bands(e), d)
    for i in range(2):
        X.eq("states of a band", D.states_below_band(e, i), n[i])
        X.eq("density of a band", D.density_band(e, i), d[i])
    cut = [i for i, (lo, hi) in enumerate(((-edge(G1), edge(G1)), (shift - edge(G2), shift + edge(G2)))) if lo < e and e < hi]
    X.eq("cut bands", D.cut_band_indices(e), cut)
    if smearing != "cubes+":
        X.eq("k resolved density", np.mean(D.k_resolved_density(e, 0.0)), d[0] + d[1])


def _among(x, values):
    return any(bool(x == v) for v in values)


@harness("C13", cfgs=[dict(wrap=w, midpoint=m) for w, m in ((True, False), (True, True), (False, False))], weight=1)
def sampling(M, X, wrap, midpoint):
    """the model is evaluated on the grid of the cell of A in every direction, band edges are the extrema of the samples"""
    A = LATTICES["tri"]
    ranges = ((-0.5, 0.5), (0.0, 0.5), (-0.25, 0.25))
    n = 3 if wrap else 4
    # the second band is increasing, the first one is arbitrary
    first = X.array("v", n, -1, 1)
    vals = X.stack([X.stack([a, 2.0 + 0.5 * i]) for i, a in enumerate(first)])
    seen = []

    def model(k):
        seen.append(k)
        c = k @ A
        # values only depend on the position along x
        r = []
        for p in c:
            x = (float(p[0]) + 0.5) * 3 - (0.5 if midpoint else 0.0)
            r.append(vals[int(round(x))])
        return X.stack(r)
    D = M.density_of_states.DensityOfStates(model, N=3, A=A, ranges=ranges, wrap=wrap, midpoint=midpoint, smearing="tetras", check=False)
    n = 3 if wrap else 4
    c = np.array(seen[0] @ A, dtype=float).reshape(n, n, n, 3)
    for i in np.ndindex(n, n, n):
        for j, (lo, hi) in enumerate(ranges):
            X.eq("grid", c[i][j], lo + (hi - lo) * (i[j] + (0.5 if midpoint else 0.0)) / 3)
    for b in range(2):
        lo, hi = D.bands_range[b]
        for v in vals[:, b]:
            X.le("lower edge", lo, v)
            X.le("upper edge", v, hi)
        X.true("lower edge is a value", _among(lo, vals[:, b]))
        X.true("upper edge is a value", _among(hi, vals[:, b]))
    X.eq("bands", D.bands[0, 0, 0], vals[0])


PART = {"full": ((-0.5, 0.5),) * 3, "octant": ((0.0, 0.5),) * 3, "half": ((-0.5, 0.5), (-0.5, 0.5), (0.0, 0.5)), "slab": ((-0.5, 0.5), (0.0, 0.5), (-0.25, 0.25))}


@harness("C13", cfgs=[dict(smearing=s, part=p, lattice=l) for s in ("cubes", "spheres") for p, l in (("full", "fcc"), ("octant", "cubic"), ("half", "tri"), ("slab", "left"))], weight=2)
def gradients(M, X, smearing, part, lattice):
    """use_gradients: every sample of the grid has a cell of the size of the grid steps (or a ball of this volume) in which the band is linear
    with the gradient of the model, also if only a part of the cell is sampled"""
    A, ranges = LATTICES[lattice], PART[part]
    B = np.linalg.inv(A).T
    values, slopes = [0.13, -0.42, 0.95, 0.08, -0.71, 0.27, -0.33, -0.87], np.random.default_rng(5).uniform(-0.9, 0.9, (8, 2, 3))
    second = [v + 0.4 for v in values[::-1]]
    # inside of the ranges of the values of both bands
    e = X.real("e", -0.45, 0.93)
    steps = [(hi - lo) / 2 for lo, hi in ranges]
    dirs = [B[:, j] * steps[j] for j in range(3)]
    R = (abs(np.linalg.det(np.array(dirs))) * 3 / 4 / np.pi)**(1 / 3)
    pts = []
    for b, vals in enumerate((values, second)):
        for v, g in zip(vals, slopes[:, b]):
            pts += [v - R * np.linalg.norm(g), v + R * np.linalg.norm(g)] if smearing == "spheres" else corners([g @ d for d in dirs], v)
    locate(X, e, pts)

    class Model:
        def index(self, k):
            c = k @ A
            i = [[int(round((x - r[0]) / s - 0.5)) for x, r, s in zip(p, ranges, steps)] for p in np.asarray(c, dtype=float)]
            return [a * 4 + b * 2 + c for a, b, c in i]

        def __call__(self, k):
            return np.array([[values[i], second[i]] for i in self.index(k)])

        def bands_grad(self, k):
            return self(k), np.array([slopes[i].T for i in self.index(k)])
    D = M.density_of_states.DensityOfStates(Model(), N=2, A=A, ranges=ranges, midpoint=True, smearing=smearing, use_gradients=True, check=False)
    for b, vals in enumerate((values, second)):
        n, d = 0.0, 0.0
        for v, g in zip(vals, slopes[:, b]):
            if smearing == "cubes":
                s = np.array([g @ x for x in dirs])
                n, d = n + poly_cell(s, e - v, 3) / 8, d + poly_cell(s, e - v, 2) / 8
            else:
                r = R * np.linalg.norm(g)
                x = np.maximum(-1.0, np.minimum(1.0, (e - v) / r))
                n, d = n + (1 + x)**2 * (2 - x) / 32, d + 3 * (1 - x * x) / 32 / r
        X.eq("states of a band", D.states_below_band(e, b), n)
        X.eq("density of a band", D.density_band(e, b), d)


@harness("C13", cfgs=[dict(sign=1), dict(sign=-1)], weight=2)
def refined_edges(M, X, sign):
    """models with second derivatives: a parabolic band edge between the grid points is found exactly"""
    A = np.diag([1.0, 2.0, 0.25])
    k0 = X.stack([X.real("k0x", -0.1, 0.1), X.real("k0y", -0.05, 0.05), X.real("k0z", -0.4, 0.4)])
    h = sign * np.array([[2.0, 0.05, 0.0], [0.05, 1.0, 0.02], [0.0, 0.02, 0.1]])

    class Parabola:
        def __call__(self, k):
            return X.stack([X.stack([1.0 + 0.5 * ((p - k0) @ h @ (p - k0))]) for p in k])

        def bands_grad_hess(self, k):
            b = self(k)
            g = X.stack([X.stack([[v] for v in h @ (p - k0)]) for p in k])
            return b, g, np.array([h[..., None]] * len(k))
    # the grid contains 0, which is the closest point
    D = M.density_of_states.DensityOfStates(Parabola(), N=2, A=A, wrap=True, smearing="tetras", check=False)
    lo, hi = D.bands_range[0]
    X.eq("refined edge", lo if sign > 0 else hi, 1.0)


@harness("C13", cfgs=[dict(points=p) for p in (2, 3)], weight=2)
def curve(M, X, points):
    """full_curve at T=0: sorted energies from the lowest to the highest band edge, with the state count and density of these energies"""
    A = np.eye(3)
    s = X.real("shift", 0.0, 3.0)
    lo1, hi1 = -edge(G1), edge(G1)
    e1 = [lo1 + (hi1 - lo1) * i / (points - 1) for i in range(points)]
    e2 = [-edge(G2) + 2 * edge(G2) * i / (points - 1) for i in range(points)]
    # positions of the shifted band relative to the corners of the first one and vice versa
    b1 = [p for c in itertools.product((-1, 1), repeat=3) for p in corners(G1 * 0.5, 0.25 * np.array(c) @ G1)]
    b2 = [p for c in itertools.product((-1, 1), repeat=3) for p in corners(G2 * 0.5, 0.25 * np.array(c) @ G2)]
    locate(X, s, [p - e for p in b1 for e in e2] + [e - p for p in b2 for e in e1] + [x - y for x in e1 for y in e2], 1e-4)
    D = M.density_of_states.DensityOfStates(Linear(A, s), N=2, A=A, wrap=False, check=False)
    e, n, d = D.full_curve(N=points)
    X.eq("number of energies", len(e), 2 * points)
    for i in range(len(e)):
        if i > 0:
            X.le("sorted", e[i - 1], e[i])
        inner = 0 < i < len(e) - 1
        X.eq("states", n[i], count(G1, e[i]) + count(G2, e[i] - s), tol=1e-5)
        # the density is continuous, at the band edges it is zero
        X.eq("density", d[i], count(G1, e[i], 2) + count(G2, e[i] - s, 2), tol=1e-5)
    for x in e1 + [y + s for y in e2]:
        X.true("energy is present", any(bool(abs(x - y) < 1e-9) for y in e))


@harness("C13", cfgs=[dict(lattice=l, axis=a) for l in ("tri", "fcc") for a in range(3)], weight=1)
def periodicity(M, X, lattice, axis):
    """the check of the model accepts every periodic band structure and rejects one which is not periodic along a single axis, at every sampled k-point"""
    A = LATTICES[lattice]
    c = X.array("c", 4, -1, 1)
    e = X.real("e", 0.01, 1)
    R = np.array([[0, 0, 1], [1, 0, 0], [0, 2, -1], [1, 1, 1]])

    class Model:
        def __init__(self, eps):
            self.eps = eps

        def __call__(self, k):
            out = []
            for p in k:
                t = np.array(p, dtype=object) @ A if X.symbolic else p @ A
                b = sum(c[i] * np.cos(2 * np.pi * sum(float(R[i][j]) * t[j] for j in range(3))) for i in range(4))
                out.append(X.stack([b + self.eps * t[axis], 3.0 + b]))
            return X.stack(out)
    D = M.density_of_states.DensityOfStates
    with Points(np.array([[0.15, 0.7, 0.35], [0.9, 0.45, 0.6]])):
        X.true("periodic", D(Model(0.0), N=2, A=A, wrap=True, smearing="tetras", check=True) is not None)
        try:
            D(Model(e), N=2, A=A, wrap=True, smearing="tetras", check=True)
            bad = False
        except AssertionError:
            bad = True
        X.true("not periodic", bad)
