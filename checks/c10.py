"""C10: cutting cells of the k-grid with an energy: volumes, densities, areas and centers of mass"""
import itertools
from symex.driver import harness, assumptions
from .common import *

assumptions("C10", "cube gradients: the smallest component is at least 5% of the largest, the plane does not touch a corner (distance above 1e-4) (below 1e-4 of the norm the code clips on purpose)")

SIGNS = list(itertools.product((-1, 1), repeat=3))


def relu(M, x):
    return np.maximum(0.0, x)


def gradient(X, order, signs=(1, 1, 1), lo=0.05, big=1.0, gap=None):
    """gradient components with a fixed order of the magnitudes (order is a permutation: smallest ... largest), the largest is fixed"""
    v = [X.real("g" + "xyz"[i], lo * big, big) for i in range(3)]
    v[order[2]] = big + 0.0 * v[order[0]]
    for i, j in ((order[0], order[1]), (order[1], order[2])):
        X.assume(v[i] + (gap or 0.0) <= v[j])
    return v, [s * x for s, x in zip(signs, v)]


def cube_volume(M, v, a0):
    """volume of {u in [-1/2,1/2]^3 : g.u <= a0}: inclusion exclusion over the corners"""
    r = 0.0
    for s in SIGNS:
        t = a0 + (s[0] * v[0] + s[1] * v[1] + s[2] * v[2]) / 2
        r = r + s[0] * s[1] * s[2] * relu(M, t)**3
    return r / (6 * v[0] * v[1] * v[2])


def reference(X, M, v, a0):
    """the reference volume; that a part of the unit cube has a volume between 0 and 1 is taken as known"""
    n = 0
    for c in SIGNS:
        t = a0 + (c[0] * v[0] + c[1] * v[1] + c[2] * v[2]) / 2
        if t > 0:
            X.assume(t >= 1e-4)
            n += 1
        else:
            X.assume(t <= -1e-4)
    r = cube_volume(M, v, a0)
    if n > 0:
        X.assume(r > 0.0)
    if n < 8:
        X.assume(r < 1.0)
    return r


def cube_dvolume(M, v, a0):
    r = 0.0
    for s in SIGNS:
        t = a0 + (s[0] * v[0] + s[1] * v[1] + s[2] * v[2]) / 2
        r = r + s[0] * s[1] * s[2] * relu(M, t)**2
    return r / (2 * v[0] * v[1] * v[2])


@harness("C10", cfgs=[dict(order=o, signs=s) for o, s in (((0, 1, 2), (1, 1, 1)), ((2, 0, 1), (-1, 1, 1)), ((1, 2, 0), (1, -1, -1)))], thorough=[dict(order=o, signs=(1, 1, 1)) for o in ((0, 2, 1), (1, 0, 2), (2, 1, 0))], weight=3)
def cube(M, X, order, signs):
    S = M.smearing
    v, g = gradient(X, order, signs)
    a0 = X.real("a0", -2, 2)
    ref = reference(X, M, v, a0)
    pre = S.cube_precomp(*[X.stack([x]) for x in g])
    A = X.stack([a0])
    vol = S.cube_cut_volume(A, *pre)[0]
    X.eq("volume of the cut cube", vol, ref)
    dvol = S.cube_cut_dvolume(A, *pre)[0]
    X.eq("derivative of the volume", dvol, cube_dvolume(M, v, a0))
    v2, d2 = S.cube_cut_volume_dvolume(A, *pre)
    X.eq("both at once: volume", v2[0], vol)
    X.eq("both at once: derivative", d2[0], dvol)


@harness("C10", cfgs=[dict(order=(0, 1, 2), signs=(1, -1, 1)), dict(order=(1, 0, 2), signs=(-1, -1, 1))])
def scaling(M, X, order, signs):
    """scaling all band values scales the densities inversely and leaves volumes, areas and centers alone"""
    S = M.smearing
    v, g = gradient(X, order, signs)
    a0 = X.real("a0", -2, 2)
    s = X.real("s", 0.01, 10.0)
    reference(X, M, v, a0)

    def both(a0, g):
        g = [X.stack([x]) for x in g]
        pre = S.cube_precomp(*g)
        A = X.stack([a0])
        return [S.cube_cut_volume(A, *pre)[0], S.cube_cut_dvolume(A, *pre)[0], *[x[0] for x in S.cube_cut_volume_dvolume(A, *pre)]] + [x[0] for x in S.cube_cut_area_com(A, *pre, *g)]
    r, t = both(a0, g), both(s * a0, [s * x for x in g])
    for l, a, b, f in zip(("volume", "density", "volume of both", "density of both", "area", "center"), r, t, (1, s, 1, s, 1, 1)):
        X.eq(f"scaled {l}", f * b, a)


@harness("C10", cfgs=[dict(order=o, signs=s) for o, s in (((0, 1, 2), (1, 1, 1)), ((2, 0, 1), (-1, 1, 1)), ((1, 2, 0), (1, -1, -1)))], weight=2)
def surface(M, X, order, signs):
    """area and center of mass of the plane inside of the cube"""
    S = M.smearing
    v, g = gradient(X, order, signs)
    a0 = X.real("a0", -2, 2)
    r = reference(X, M, v, a0)
    norm2 = g[0]**2 + g[1]**2 + g[2]**2
    G = [X.stack([x]) for x in g]
    area, com = S.cube_cut_area_com(X.stack([a0]), *S.cube_precomp(*G), *G)
    area, com = area[0], com[0]
    d = cube_dvolume(M, v, a0)
    if X.symbolic:
        inside = not (hasattr(d, "is_zero") and d.is_zero(1e-9) or not hasattr(d, "is_zero") and d == 0)
        if inside:
            X.assume(d > 0.0)
    else:
        inside = d > 1e-12
    X.eq("area", area**2, norm2 * d**2)
    X.true("sign of the area", area >= -1e-9)
    if inside:
        X.eq("the center lies on the plane", g[0] * com[0] + g[1] * com[1] + g[2] * com[2], a0)
        # first moment of the area by inclusion exclusion over the corners (d times the center of mass)
        for i in range(3):
            m = 0.0
            for s in SIGNS:
                t = relu(M, a0 + (s[0] * v[0] + s[1] * v[1] + s[2] * v[2]) / 2)
                m = m + s[0] * s[1] * s[2] * t**2 * (-s[i] * 0.5 + t / (3 * v[i]))
            X.eq(f"center of mass {i}", com[i] * d, signs[i] * m / (2 * v[0] * v[1] * v[2]))


@harness("C10", cfgs=[dict(axis=i, other=j) for i, j in ((0, None), (1, None), (2, None), (0, 1), (1, 2), (2, 0))])
def parallel(M, X, axis, other):
    """gradients along an axis or perpendicular to an axis: the code clips directions at 1e-4 of the norm, the result is right within 1e-3"""
    S = M.smearing
    g = [0.0, 0.0, 0.0]
    s = X.real("s", 0.01, 10.0)
    a0 = X.real("a0", -2, 2)
    g[axis] = s
    if other is not None:
        y = X.real("y", 0.2, 0.9)
        g[other] = -s * y
        pts = [(1 + y) / 2, (1 - y) / 2]
        ref = lambda n: sum(sg * relu(M, a0 + c)**n for c, sg in ((pts[0], 1), (pts[1], -1), (-pts[1], -1), (-pts[0], 1)))
        vol, den = ref(2) / (2 * y), ref(1) / y
    else:
        pts = [0.5]
        vol = relu(M, a0 + 0.5) - relu(M, a0 - 0.5)
        den = 1.0 if abs(a0) < 0.5 else 0.0
    for c in pts:
        for d in (c, -c):
            X.assume(a0 + d >= 1e-3 if a0 + d > 0 else a0 + d <= -1e-3)
    G = [X.stack([x + 0.0 * s]) for x in g]
    pre = S.cube_precomp(*G)
    A = X.stack([a0 * s])
    X.eq("volume", S.cube_cut_volume(A, *pre)[0], vol, tol=2e-3)
    X.eq("density", S.cube_cut_dvolume(A, *pre)[0] * s, den, tol=2e-3)
    v2, d2 = S.cube_cut_volume_dvolume(A, *pre)
    X.eq("volume of both", v2[0], vol, tol=2e-3)
    X.eq("density of both", d2[0] * s, den, tol=2e-3)
    if other is None:
        area, com = S.cube_cut_area_com(A, *pre, *G)
        X.eq("area", area[0], den, tol=2e-3)
        if abs(a0) < 0.5:
            X.eq("center", com[0], X.stack([a0 if i == axis else 0.0 for i in range(3)]), tol=2e-3)


def tetra_fraction(M, v):
    """part of a tetrahedron where the linear interpolation of the vertex values is positive (divided difference of x_+^3)"""
    r = 0.0
    for i in range(4):
        d = 1.0
        for j in range(4):
            if j != i:
                d = d * (v[i] - v[j])
        r = r + relu(M, v[i])**3 / d
    return r


def tetra_density(M, v):
    r = 0.0
    for i in range(4):
        d = 1.0
        for j in range(4):
            if j != i:
                d = d * (v[i] - v[j])
        r = r + 3 * relu(M, v[i])**2 / d
    return r


@harness("C10", cfgs=[dict(order=o) for o in itertools.permutations(range(4))], weight=2)
def tetra(M, X, order):
    """cut tetrahedron with the given order of the vertex values, distance at least 0.05, largest difference 1"""
    S = M.smearing
    v = [X.real(f"v{i}", -2, 2) for i in range(4)]
    v[order[3]] = v[order[0]] + 1.0
    for i, j in zip(order, order[1:]):
        X.assume(v[i] + 0.05 <= v[j])
    for x in v:
        X.assume(x >= 1e-3 if x > 0 else x <= -1e-3)
    V = [X.stack([x]) for x in v]
    X.eq("volume", 6 * S.tetra_cut_volume(*V)[0], tetra_fraction(M, v))
    X.eq("density", 6 * S.tetra_cut_dvolume(*V)[0], tetra_density(M, v))


@harness("C10", cfgs=[dict(order=(0, 1, 2, 3)), dict(order=(2, 0, 3, 1))], weight=3)
def tetra_scaling(M, X, order):
    """scaling all vertex values scales the density of a tetrahedron inversely and leaves the volume alone"""
    S = M.smearing
    v = [X.real(f"v{i}", -2, 2) for i in range(4)]
    v[order[3]] = v[order[0]] + 1.0
    for i, j in zip(order, order[1:]):
        X.assume(v[i] + 0.05 <= v[j])
    for x in v:
        X.assume(x >= 1e-3 if x > 0 else x <= -1e-3)
    s = X.real("s", 0.01, 10.0)
    V, W = [X.stack([x]) for x in v], [X.stack([s * x]) for x in v]
    X.eq("volume", S.tetra_cut_volume(*W)[0], S.tetra_cut_volume(*V)[0])
    X.eq("density", s * S.tetra_cut_dvolume(*W)[0], S.tetra_cut_dvolume(*V)[0])


@harness("C10", cfgs=[dict(order=o, signs=s) for o, s in (((0, 1, 2), (1, 1, 1)), ((2, 0, 1), (-1, 1, 1)), ((1, 2, 0), (1, -1, -1)))], weight=4)
def tetrahedra_of_a_cube(M, X, order, signs):
    """the six tetrahedra fill the cube: for linear values they give the volume of the cut cube. The tetrahedron itself is replaced by its exact formula (see tetra)"""
    S = M.smearing
    v, g = gradient(X, order, signs, gap=0.1)
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        # vertices with equal values are left out
        d = v[i] + v[j] - v[k]
        X.assume(d >= 0.05 if d > 0 else d <= -0.05)
    a0 = X.real("a0", -2, 2)
    if X.symbolic:
        X.merge(True)
        S.tetra_cut_volume = lambda *v: X.stack([tetra_fraction(M, [x[0] for x in v]) / 6])
        S.tetra_cut_dvolume = lambda *v: X.stack([tetra_density(M, [x[0] for x in v]) / 6])
    corners = [X.stack([a0 + (g[0] * (2 * (i & 1) - 1) + g[1] * (2 * (i >> 1 & 1) - 1) + g[2] * (2 * (i >> 2) - 1)) / 2]) for i in range(8)]
    X.eq("volume", S.cube_tetra_cut_volume(corners)[0], cube_volume(M, v, a0))
    X.eq("density", S.cube_tetra_cut_dvolume(corners)[0], cube_dvolume(M, v, a0))


@harness("C10")
def sphere(M, X):
    """cut ball of volume 1: spherical cap of the correct height, the density is its derivative"""
    g = [X.real("g" + c, -2, 2) for c in "xyz"]
    a0 = X.real("a0", -3, 3)
    n2 = g[0]**2 + g[1]**2 + g[2]**2
    X.assume(n2 >= 0.01)
    n = np.sqrt(n2)
    vol, dens = M.smearing.unit_sphere_cut(X.stack([a0]), *[X.stack([x]) for x in g])
    r = (3 / (4 * np.pi))**(1 / 3)
    d = a0 / (n * r)
    if d >= 1:
        d = 1.0
    elif d <= -1:
        d = -1.0
    X.eq("volume", vol[0], (1 + d)**2 * (2 - d) / 4)
    # derivative of the volume with respect to a0
    X.eq("density", dens[0] * n, 3 * (1 - d * d) / (4 * r))
