"""C12: smearing methods assign every cell of a k-grid its exact share"""
from symex.driver import harness, assumptions
from .common import *
from .c10 import SIGNS, relu

assumptions("C12", "the band values of the grid are fixed patterns, the energy level is symbolic; levels closer than 1e-4 to the value of a cell corner are left out",
            "gradients of the linear bands are enumerated; the volume of a cut cube for every gradient is the subject of C10")

SLOPES = {"a": (0.3, -0.7, 1.1), "b": (-0.9, 0.4, 0.25), "c": (0.5, 1.3, -0.8)}
LATTICES = {"cubic": np.eye(3), "fcc": np.array([[0.0, 0.5, 0.5], [0.5, 0.0, 0.5], [0.5, 0.5, 0.0]]), "tri": np.array([[1.0, 0.25, 0.5], [0.0, 1.5, -0.25], [0.0, 0.0, 2.0]]), "left": np.array([[0.0, 1.0, 0.25], [1.5, 0.0, 0.0], [0.0, 0.5, 1.0]])}


def poly_cell(v, a0, n):
    """sum over the corners of a cell with the fixed gradient v: n=3 volume, n=2 density"""
    v = [abs(x) for x in v]
    r = 0.0
    for s in SIGNS:
        t = a0 + (s[0] * v[0] + s[1] * v[1] + s[2] * v[2]) / 2
        r = r + s[0] * s[1] * s[2] * relu(None, t)**n
    return r / ((6 if n == 3 else 2) * v[0] * v[1] * v[2])


def locate(X, e, points, margin=1e-4):
    """splits into the cases between neighboring points (with a margin), returns the case"""
    p = sorted(set(round(float(x), 12) for x in points))
    lo, hi = 0, len(p)
    while lo < hi:
        m = (lo + hi) // 2
        if e > p[m]:
            lo = m + 1
        else:
            hi = m
    if lo > 0:
        X.assume(e >= p[lo - 1] + margin)
    if lo < len(p):
        X.assume(e <= p[lo] - margin)
    return lo


def corners(v, center):
    return [center + sum(s * x for s, x in zip(sg, v)) / 2 for sg in SIGNS]


def grid(A, n, wrap):
    """k-points of the crystal cell like DensityOfStates builds them"""
    xyz = [np.linspace(-0.5, 0.5, n if wrap else n + 1, endpoint=not wrap)] * 3
    c = np.stack(np.meshgrid(*xyz, indexing='ij'), axis=-1)
    return c, c @ np.linalg.inv(A)


def cells(values, wrap):
    """mean value and averaged slopes of every cell, written out per cell"""
    n = values.shape if wrap else tuple(m - 1 for m in values.shape)
    a0, g = np.zeros(n), np.zeros(n + (3,))
    for i in np.ndindex(n):
        for c in np.ndindex(2, 2, 2):
            v = values[tuple((i[j] + c[j]) % values.shape[j] for j in range(3))]
            a0[i] += v / 8
            for j in range(3):
                g[i][j] += v * (2 * c[j] - 1) / 4
    return a0, g


def make(M, kind, k, A, values, wrap, grads=None):
    S = M.smearing
    B = np.linalg.inv(A).T
    if kind == "cubes":
        return S.CubesSmearing(k, A, values, grads=grads, wrap=wrap)
    if kind == "cubes+":
        return S.ExtraCubesSmearing(k, A, values, wrap=wrap)
    if kind == "tetras":
        return S.TetraSmearing(values, wrap, B)
    return S.SphereSmearing(k, B, values, grads=grads, wrap=wrap)


@harness("C12", cfgs=[dict(kind=k, slope=s, lattice=l) for k in ("cubes", "cubes+", "tetras") for s, l in (("a", "fcc"), ("b", "tri"), ("b", "left"))]
         + [dict(kind="spheres", slope="a", lattice="tri")], weight=3)
def linear_band(M, X, kind, slope, lattice):
    """linear band on a grid of 2x2x2 cells: every cell has the volume and density of the linear function in it"""
    A = LATTICES[lattice]
    c, k = grid(A, 2, False)
    g = np.array(SLOPES[slope])
    off, e = 0.375, X.real("e", -3, 3)
    values = c @ g
    E = e - off
    pts = corners(g, 0.0)
    for i in np.ndindex(2, 2, 2):
        center = sum(g[j] * (-0.25 + 0.5 * i[j]) for j in range(3))
        pts += [center + r * np.linalg.norm(g) * 0.5 * (3 / 4 / np.pi)**(1 / 3) for r in (-1, 1)] if kind == "spheres" else corners(g * 0.5, center)
    locate(X, E, pts)
    sm = make(M, kind, k, A, X.stack(values) + off if X.symbolic else values + off, False)
    vol, den = sm.volume(e), sm.dvolume(e)
    v2, d2 = sm.volume_dvolume(e)
    # the extrapolated cubes give one value for every block of two cells
    n = 2 if kind != "cubes+" else 1
    X.eq("shape", list(np.shape(vol)), [n, n, n])
    tot, td = 0.0, 0.0
    for i in np.ndindex(2, 2, 2):
        center = sum(g[j] * (-0.25 + 0.5 * i[j]) for j in range(3))
        if kind == "spheres":
            d = (E - center) / (np.linalg.norm(g) * 0.5 * (3 / 4 / np.pi)**(1 / 3))
            d = np.maximum(-1.0, np.minimum(1.0, d))
            ref, rd = (1 + d)**2 * (2 - d) / 4, 3 * (1 - d * d) / 4 / (np.linalg.norm(g) * 0.5 * (3 / 4 / np.pi)**(1 / 3))
        else:
            ref, rd = poly_cell(g * 0.5, E - center, 3), poly_cell(g * 0.5, E - center, 2)
        tot, td = tot + ref / 8, td + rd / 8
        if n == 2:
            X.eq("volume of the cell", vol[i], ref)
            X.eq("density of the cell", den[i], rd)
    if n == 1:
        # the values of both grids are exact for linear bands, so is the extrapolation
        X.eq("volume", vol[0, 0, 0], tot)
        X.eq("density", den[0, 0, 0], td)
    X.eq("both at once: volume", v2, vol)
    X.eq("both at once: density", d2, den)


@harness("C12", cfgs=[dict(slope=s) for s in ((0.5, 0.25, 0.125), (-0.25, 0.125, 0.5))], weight=6)
def linear_band_blocks(M, X, slope):
    """extrapolated cubes of a linear band on a grid of 4x4x4 cells: every block of two cells in each direction has its own volume and density"""
    A = np.eye(3)
    c, k = grid(A, 4, False)
    g = np.array(slope)
    off, e = 0.375, X.real("e", -0.6, 0.6)
    values = c @ g
    E = e - off
    locate(X, E, list(np.arange(-15, 16) / 32))
    sm = make(M, "cubes+", k, A, X.stack(values) + off if X.symbolic else values + off, False)
    vol, den = sm.volume(e), sm.dvolume(e)
    v2, d2 = sm.volume_dvolume(e)
    X.eq("shape", list(np.shape(vol)), [2, 2, 2])
    for i in np.ndindex(2, 2, 2):
        center = sum(g[j] * (-0.25 + 0.5 * i[j]) for j in range(3))
        X.eq("volume of the block", vol[i], poly_cell(g * 0.5, E - center, 3))
        X.eq("density of the block", den[i], poly_cell(g * 0.5, E - center, 2))
    X.eq("both at once: volume", v2, vol)
    X.eq("both at once: density", d2, den)


PATTERN = np.array([[[0.13, 0.71], [-0.42, 0.27]], [[0.95, -0.33], [0.08, -0.87]]])


def pattern3():
    r = np.zeros((3, 3, 3))
    for i in np.ndindex(3, 3, 3):
        r[i] = ((i[0] * 7 + i[1] * 11 + i[2] * 5 + i[0] * i[1] * 3 + i[2] * i[2]) % 17) / 16 - 0.5 + 0.01 * i[0] + 0.003 * i[1]
    return r


@harness("C12", cfgs=[dict(kind=k, wrap=w, window=n) for k in ("cubes", "tetras", "spheres") for w, n in ((False, 0), (True, 1), (True, 2), (True, 3))], weight=2)
def any_grid(M, X, kind, wrap, window):
    """general grid values with or without periodic wrapping: the cells are made from their own eight corners; three points in the direction of the axis `window` in wrapped grids"""
    vals = pattern3()
    if wrap:
        vals = vals[tuple(slice(3 if a == window - 1 else 2) for a in range(3))]
    A = LATTICES["tri"]
    c = np.stack(np.meshgrid(*[np.linspace(-0.5, 0.5, m + (0 if wrap else -1), endpoint=False) if wrap else np.linspace(-0.5, 0.5, m) for m in vals.shape], indexing='ij'), axis=-1)
    k = c @ np.linalg.inv(A)
    off, e = 0.375, X.real("e", -2, 2)
    a0, g = cells(vals, wrap)
    E = e - off
    pts = []
    for i in np.ndindex(a0.shape):
        if kind == "cubes":
            pts += corners(g[i], a0[i])
        elif kind == "spheres":
            R = np.linalg.norm(g[i]) * (3 / 4 / np.pi)**(1 / 3)
            pts += [a0[i] - R, a0[i] + R]
    if kind == "tetras":
        pts = list(vals.flat)
    locate(X, E, pts)
    sm = make(M, kind, k, A, (X.stack(vals) if X.symbolic else vals) + off, wrap)
    vol, den = sm.volume(e), sm.dvolume(e)
    v2, d2 = sm.volume_dvolume(e)
    X.eq("shape", list(np.shape(vol)), list(a0.shape))
    for i in np.ndindex(a0.shape):
        if kind == "cubes":
            ref, rd = poly_cell(g[i], E - a0[i], 3), poly_cell(g[i], E - a0[i], 2)
        elif kind == "spheres":
            R = np.linalg.norm(g[i]) * (3 / 4 / np.pi)**(1 / 3)
            d = np.maximum(-1.0, np.minimum(1.0, (E - a0[i]) / R))
            ref, rd = (1 + d)**2 * (2 - d) / 4, 3 * (1 - d * d) / 4 / R
        else:
            v = [vals[tuple((i[j] + ((b >> j) & 1)) % vals.shape[j] for j in range(3))] for b in range(8)]
            ref, rd = tetras(v, E, 3), tetras(v, E, 2)
        X.eq("volume of the cell", vol[i], ref, tol=1e-5)
        X.eq("density of the cell", den[i], rd, tol=1e-4)
        X.eq("both at once: volume", v2[i], ref, tol=1e-5)
        X.eq("both at once: density", d2[i], rd, tol=1e-4)


def tetras(v, E, n):
    """cube with corners v (bit j of the index: direction j) from the six tetrahedra around the diagonal 0-7"""
    r = 0.0
    for p in itertools.permutations(range(3)):
        idx = [0, 1 << p[0], (1 << p[0]) | (1 << p[1]), 7]
        w = [v[i] for i in idx]
        for i in range(4):
            d = 1.0
            for j in range(4):
                if j != i:
                    d *= w[j] - w[i]
            r = r + relu(None, E - w[i])**n / d * (1 if n == 3 else 3)
    return r / 6


@harness("C12", cfgs=[dict(kind=k, lattice=l) for k in ("cubes", "spheres") for l in ("cubic", "fcc", "tri", "left")], weight=2)
def analytic_gradients(M, X, kind, lattice):
    """use of gradients from the model: gradients in reciprocal space are scaled to the cell (cubes) or to the ball of the same volume (spheres)"""
    A = LATTICES[lattice]
    B = np.linalg.inv(A).T
    c, k = grid(A, 2, True)
    vals = PATTERN
    kg = np.array([[[(0.6, -0.3, 0.2), (0.1, 0.5, -0.9)], [(-0.7, 0.35, 0.45), (0.25, -0.65, 0.8)]], [[(0.15, 0.55, -0.3), (0.9, 0.2, 0.4)], [(-0.5, -0.45, 0.7), (0.35, 0.75, 0.6)]]])
    off, e = 0.375, X.real("e", -3, 3)
    E = e - off
    pts = []
    for i in np.ndindex(2, 2, 2):
        R = np.linalg.norm(kg[i]) * (abs(np.linalg.det(B)) / 8 * 3 / 4 / np.pi)**(1 / 3)
        pts += [vals[i] - R, vals[i] + R] if kind == "spheres" else corners([kg[i] @ B[:, j] * 0.5 for j in range(3)], vals[i])
    locate(X, E, pts)
    sm = make(M, kind, k, A, (X.stack(vals) if X.symbolic else vals) + off, True, kg)
    vol, den = sm.volume(e), sm.dvolume(e)
    for i in np.ndindex(2, 2, 2):
        if kind == "cubes":
            # change of the energy along one step of the grid: dk = B step
            g = np.array([kg[i] @ B[:, j] * 0.5 for j in range(3)])
            ref, rd = poly_cell(g, E - vals[i], 3), poly_cell(g, E - vals[i], 2)
        else:
            R = np.linalg.norm(kg[i]) * (abs(np.linalg.det(B)) / 8 * 3 / 4 / np.pi)**(1 / 3)
            d = np.maximum(-1.0, np.minimum(1.0, (E - vals[i]) / R))
            ref, rd = (1 + d)**2 * (2 - d) / 4, 3 * (1 - d * d) / 4 / R
        X.eq("volume of the cell", vol[i], ref)
        X.eq("density of the cell", den[i], rd)


@harness("C12", cfgs=[dict(kind=k, lattice=l, slope=s) for k in ("cubes", "cubes+") for l, s in (("cubic", "a"), ("fcc", "b"), ("tri", "c"), ("tri", "a"), ("left", "b"))], weight=3)
def samples(M, X, kind, lattice, slope):
    """surface samples of a linear band: points on the level surface inside of their cell, gradients in reciprocal space, areas in reciprocal space which integrate to the density"""
    A = LATTICES[lattice]
    B = np.linalg.inv(A).T
    c, k = grid(A, 2, False)
    g = np.array(SLOPES[slope])
    kgrad = A @ g
    vals = c @ g
    off, e = 0.375, X.real("e", -1.5, 2)
    E = e - off
    cents = {i: sum(g[j] * (-0.25 + 0.5 * i[j]) for j in range(3)) for i in np.ndindex(2, 2, 2)}
    present = []
    # the plane through the cell is not tiny (areas up to 1e-4 are left out by the code)
    locate(X, E, [p for m in cents.values() for p in corners(g * 0.5, m)], 0.01)
    for i, m in cents.items():
        p = sorted(corners(g * 0.5, m))
        if p[0] < E and E < p[-1]:
            present.append(i)
    sm = make(M, kind, k, A, (X.stack(vals) if X.symbolic else vals) + off, False)
    x, gr, w = sm.samples(e)
    X.eq("number of samples", len(w), len(present))
    tot, ref = 0.0, 0.0
    for n, i in enumerate(present):
        # position in crystal coordinates
        pos = A.T @ x[n]
        X.eq("level surface", pos @ g, E)
        for j in range(3):
            X.le("inside of the cell", abs(pos[j] - (-0.25 + 0.5 * i[j])), 0.25)
        X.eq("gradient", gr[n], kgrad)
        # area / |gradient| = density of the cell times the volume of the cell
        X.eq("area", w[n], poly_cell(g * 0.5, E - cents[i], 2) * np.linalg.norm(kgrad) * abs(np.linalg.det(B)) / 8, tol=1e-5)


@harness("C12", weight=2)
def extrapolated_grid(M, X):
    """general grid values with the extrapolated method: Richardson extrapolation of the fine grid and of every second grid point"""
    vals = pattern3()
    A = LATTICES["fcc"]
    c, k = grid(A, 2, False)
    off, e = 0.375, X.real("e", -2, 2)
    E = e - off
    (f0, fg), (c0, cg) = cells(vals, False), cells(vals[::2, ::2, ::2], False)
    locate(X, E, [p for a, g in ((f0, fg), (c0, cg)) for i in np.ndindex(a.shape) for p in corners(g[i], a[i])])
    sm = make(M, "cubes+", k, A, (X.stack(vals) if X.symbolic else vals) + off, False)
    v2, d2 = sm.volume_dvolume(e)
    for n, r, b in ((3, sm.volume(e), v2), (2, sm.dvolume(e), d2)):
        fine = sum(poly_cell(fg[i], E - f0[i], n) for i in np.ndindex(2, 2, 2)) / 8
        coarse = poly_cell(cg[0, 0, 0], E - c0[0, 0, 0], n)
        X.eq("volume" if n == 3 else "density", r[0, 0, 0], fine + (fine - coarse) / 3, tol=1e-5)
        X.eq("both at once", b[0, 0, 0], fine + (fine - coarse) / 3, tol=1e-5)
