"""C17: k-paths, high symmetry points and interpolated bands"""
from symex.driver import harness, assumptions
from .common import *

assumptions("C17", "the number of waypoints, samples per segment, grids and symmetries are enumerated, positions, band values, lattice ratios and angles are symbolic",
            "scipy's RegularGridInterpolator is modelled exactly for the linear method and by its values at the nodes for the cubic method")

DIRS = [np.array([3.0, 4.0, 0.0]), np.array([0.0, -3.0, 4.0]), np.array([-1.0, 2.0, 2.0]), np.array([-2.0, -3.0, -6.0])]


@harness("C17", cfgs=[dict(counts=c, form=f) for c, f in (((4, 3), "to"), ((1, 2, 3), "to"), ((5, 1, 1), "to"), ((32, 32, 32), "list"), ((2,), "name"), ((2, 3), "tuple"), ((3,), "numbers"), ((32, 32), "tuples"))])
def path(M, X, counts, form):
    """a path is the straight line through its waypoints with N samples per segment which ends at the waypoint, the plot positions are the lengths along the path"""
    start = X.array("start", 3, -1, 1)
    pts, lengths = [start], [0.0]
    for i in range(len(counts)):
        t = X.real(f"t{i}", 0.1, 1.0)
        pts.append(pts[-1] + t * DIRS[i])
        lengths.append(t * float(np.linalg.norm(DIRS[i])))
    K = M.kpaths.KPath
    if form == "list":
        p = K([q for q in pts])
        names = None
    elif form == "tuples":
        p = K(tuple(tuple(q) for q in pts))
        names = None
    elif form == "name":
        p = K(start, "A", points={"B": (pts[1], "Bname")})
        p.to("B", N=counts[0])
        names = ["A", "Bname"]
    else:
        p = K(tuple(start) if form == "tuple" else list(start) if form == "numbers" else start, "A")
        names = ["A"]
        for i, n in enumerate(counts):
            q = p.to(pts[i + 1], f"P{i}", N=n)
            X.true("chained", q is p)
            names.append(f"P{i}")
    X.eq("dimension", p.dim(), 3)
    X.eq("samples", len(p), 1 + sum(counts))
    ref, x = [start], [0.0]
    at = [0]
    for i, n in enumerate(counts):
        for j in range(1, n + 1):
            ref.append(pts[i] + (pts[i + 1] - pts[i]) * (j / n))
            x.append(x[at[-1]] + lengths[i + 1] * (j / n))
        at.append(len(ref) - 1)
    for a, b in zip(p, ref):
        X.eq("positions", a, b)
    X.eq("by index", p[-1], pts[-1])
    gx = p.x()
    X.eq("lengths", gx, x)
    X.eq("waypoints", p.sym_x(), [x[i] for i in at])
    X.eq("names", len(p.sym_x_names()), len(pts))
    if names is not None:
        X.true("names in order", list(p.sym_x_names()) == names)


@harness("C17", cfgs=[dict()])
def quantum_espresso(M, X):
    """the text of the path for quantum espresso contains all points in units of the reciprocal lattice vectors with equal weights"""
    a, b = X.array("a", 3, -1, 1), X.array("b", 3, -1, 1)
    p = M.kpaths.KPath(a, "A").to(b, "B", N=3)
    text = str(p).split("\n")
    X.true("head", text[0].split() == ["K_POINTS", "{tpiba_b}"])
    X.eq("count", int(text[1]), 4)
    rows = [l.split() for l in text[2:] if l.strip()]
    X.eq("rows", len(rows), 4)
    num = M.kpaths.__dict__["__builtins__"]["float"] if X.symbolic else float
    for i, r in enumerate(rows):
        X.eq("point", [num(v) for v in r[:3]], 2 * (a + (b - a) * (i / 3)))
        X.eq("weight", num(r[3]), 1.0)
    q = M.qespresso_interface.k_points([a, b], "crystal").split("\n")
    X.true("list head", q[0].split() == ["K_POINTS", "{crystal}"])
    X.eq("list count", int(q[1]), 2)
    for r, v in zip([l.split() for l in q[2:] if l.strip()], (a, b)):
        X.eq("list point", [num(x) for x in r[:3]], v)
        X.eq("list weight", num(r[3]), 1.0)


# ---- high symmetry points ---------------------------------------------------------------------------------------------
# name -> number of reciprocal lattice vectors on whose bragg planes the point lies at least
FACES = {
    "sc": dict(X=1, M=3, R=7), "fcc": dict(X2=1, L=1, K=2, U=2, W=3), "bcc": dict(N=1, P=3, H=5, H1=5),
    "bct<1": dict(X=1, M=3, N=1, Z1=4, Z=4, P=3),
    "bct>1": dict(X=1, M=1, M2=1, Z=1, N=1, N0=1, N1=1, Sig=2, S0=2, S=2, Sig1=2, S2=2, R=3, Y=3, P=3, Y1=3, GG=3, G0=3),
    "rhombohedral<": dict(Z=1, L=1, L1=1, F=1, X=2, P=2, P1=2, P2=2, Q=2, B=3, B1=3),
    "rhombohedral>": dict(X=1, F=1, F1=1, L=1, Z=3, Q=3, Q1=3, P=2, P1=2),
    "hexagonal": dict(A=1, K=2, H=3, M=1, L=2),
}


def integers(n=2):
    return [v for v in itertools.product(range(-n, n + 1), repeat=3) if any(v)]


def zone(X, points, at, B, at_B, faces, n=2):
    """all points lie on the surface of the first brillouin zone, on the given number of planes

    at: the points for one value of the parameters, used to find the planes
    """
    X.eq("center", points["G"][0], np.zeros(3))
    gs = [sum(B[i] * m for i, m in enumerate(v)) for v in integers(n)]
    at_g = [sum(np.array(at_B[i]) * m for i, m in enumerate(v)) for v in integers(n)]
    for name, count in faces.items():
        p = points[name][0]
        q = np.array(at[name][0], dtype=float)
        planes = [abs(float(q @ g - g @ g / 2)) < 1e-7 for g in at_g]
        X.le("number of planes of " + name, count, sum(planes))
        for g, on in zip(gs, planes):
            d = p @ g - g @ g / 2
            if on:
                X.eq("equal distance to lattice points: " + name, d, 0.0)
            else:
                X.le("inside of the zone: " + name, d, 0.0)


def reciprocal(A):
    """rows: reciprocal lattice vectors (without 2 pi) of the columns of A"""
    return [list(r) for r in np.linalg.inv(np.array(A, dtype=float))]


@harness("C17", cfgs=[dict(lattice=l) for l in ("sc", "fcc", "bcc")])
def cubic_points(M, X, lattice):
    """the named points of the cubic lattices lie on the surface of the first brillouin zone at the named kind of corner, for every lattice constant; also after other point dictionaries have been created"""
    a = X.real("a", 0.5, 4.0)
    for c in (0.75, 1.0, 1.25):
        M.kpaths.tetragonal_bc_points(c)
    for al in (1.0, 1.75):
        M.kpaths.trigonal_points(al)
    M.kpaths.hexagonal_points(1.0, 2.0)
    pts = M.kpaths.points
    A = getattr(M.qespresso_interface, lattice)(a)
    # A = a * A1
    B = reciprocal(getattr(M.qespresso_interface, lattice)(1.0))
    B2 = [[x / a for x in r] for r in B]
    for i in range(3):
        for j in range(3):
            X.eq("lattice", sum(A[x][i] * B2[j][x] for x in range(3)), 1.0 if i == j else 0.0)
    scaled = {k: (v[0] / a, v[1]) for k, v in pts.items() if len(v[0]) == 3}
    zone(X, scaled, pts, [X.stack(r) for r in B2], B, FACES[lattice])


@harness("C17", cfgs=[dict(low=l, high=h) for l, h in ((0.5, 0.9), (1.1, 1.5), (1.5, 3.0))], thorough=[dict(low=l, high=h) for l, h in ((0.2, 0.5), (0.9, 0.99), (1.01, 1.1), (3.0, 9.0))], weight=3)
def tetragonal_points(M, X, low, high):
    """points of the body centered tetragonal lattice for every ratio c/a"""
    c = X.real("c", low, high)
    pts = M.kpaths.tetragonal_bc_points(c)
    mid = (low + high) / 2
    at = M.kpaths.tetragonal_bc_points(mid)

    def rec(c):
        return [[0.0, 1.0, 1.0 / c], [1.0, 0.0, 1.0 / c], [1.0, 1.0, 0.0 / c]]
    A = M.qespresso_interface.tetragonal_body_centered(1.0, c)
    B = rec(c)
    for i in range(3):
        for j in range(3):
            X.eq("lattice", sum(A[x][i] * B[j][x] for x in range(3)), 1.0 if i == j else 0.0)
    zone(X, pts, at, [X.stack(r) for r in B], rec(mid), FACES["bct<1" if high < 1 else "bct>1"])


@harness("C17", cfgs=[dict()])
def hexagonal_points(M, X):
    """points of the hexagonal lattice with spacing 1/r and height 1/h for every r and h"""
    r, h = X.real("r", 0.5, 2.0), X.real("h", 0.5, 2.0)
    pts = M.kpaths.hexagonal_points(r, h)
    w = 3**-.5

    def rec(r, h):
        return [[r, r * w, 0.0 * h], [0.0 * h, 2 * r * w, 0.0 * h], [0.0 * h, 0.0 * h, h]]
    A = M.qespresso_interface.hexagonal(1 / r, 1 / h)
    B = rec(r, h)
    for i in range(3):
        for j in range(3):
            X.eq("lattice", sum(A[x][i] * B[j][x] for x in range(3)), 1.0 if i == j else 0.0)
    zone(X, pts, M.kpaths.hexagonal_points(1.0, 0.75), [X.stack(x) for x in B], rec(1.0, 0.75), FACES["hexagonal"])


@harness("C17", cfgs=[dict(low=l, high=h, mirror=m) for l, h, m in ((0.75, 1.25, False), (0.75, 1.25, True), (1.65, 1.95, False), (1.65, 1.95, True))], thorough=[dict(low=l, high=h, mirror=False) for l, h in ((0.3, 0.75), (1.25, 1.55), (1.95, 2.05))], weight=3)
def trigonal_points(M, X, low, high, mirror):
    """points of the rhombohedral lattice for every angle"""
    # sine of half of the angle
    s = X.real("s", float(np.sin(low / 2)), float(np.sin(high / 2)))
    al = 2 * np.arcsin(s)
    mid = (low + high) / 2
    pts = M.kpaths.trigonal_points(al, mirror_x=mirror)
    at = M.kpaths.trigonal_points(mid, mirror_x=mirror)

    def rec(s, c):
        # columns of A: (r, 0, h), (-r/2, +-sqrt3 r/2, h) with the angle al
        r, h = s * (4 / 3)**.5, c
        w = 3**-.5
        B = [[2 / (3 * r), 0.0, 1 / (3 * h)], [-1 / (3 * r), w / r, 1 / (3 * h)], [-1 / (3 * r), -w / r, 1 / (3 * h)]]
        return B if not mirror else [[x[1], x[0], x[2]] for x in B]
    c = np.sqrt(1 - s * s * (4 / 3))
    if not mirror:
        A = M.qespresso_interface.rhombohedral(1.0, al)
        B = rec(s, c)
        for i in range(3):
            for j in range(3):
                X.eq("lattice", sum(A[x][i] * B[j][x] for x in range(3)), 1.0 if i == j else 0.0)
    else:
        B = rec(s, c)
    s0 = np.sin(mid / 2)
    zone(X, pts, at, [X.stack(r) for r in B], rec(s0, (1 - s0 * s0 * 4 / 3)**.5), FACES["rhombohedral<" if high < np.pi / 2 else "rhombohedral>"], 1)


# ---- interpolation ----------------------------------------------------------------------------------------------------
# scipy solves for the coefficients of the cubic interpolation with an iterative method (relative error 1e-5)
TOL = dict(linear=1e-6, cubic=1e-3)


def grid_points(n, low, dim, shift=0.0):
    g = (np.arange(n) + shift) / n + low
    return np.stack(np.meshgrid(*[g] * dim, indexing="ij"), axis=-1).reshape(-1, dim)


@harness("C17", cfgs=[dict(n=n, low=l, dim=d, shift=s, method=m) for n, l, d, s, m in ((4, 0.0, 1, 0.0, "linear"), (4, -0.5, 2, 0.0, "linear"), (3, 0.0, 2, 0.5, "linear"), (2, -0.25, 3, 0.25, "linear"), (4, 0.0, 2, 0.0, "cubic"), (4, -0.5, 3, 0.5, "cubic"))], weight=2)
def periodic(M, X, n, low, dim, shift, method):
    """interpolated bands are the data at the data points and their periodic images; the linear method is linear in between, for every k"""
    k = grid_points(n, low, dim, shift)
    order = np.argsort(np.sin(np.arange(len(k)) * 1.7))
    k = k[order]
    b = X.array("b", (len(k), 2), -1, 1)
    f = M.kpaths.interpolate(k, b, method=method)
    pick = range(len(k)) if len(k) <= 16 else range(0, len(k), 5)
    look = {tuple(np.round(((k[i] - low) * n) % n).astype(int) if not shift else np.floor(((k[i] - low) * n) % n).astype(int)): i for i in range(len(k))}
    X.eq("grid", len(look), n**dim)
    shifts = [np.zeros(dim), np.eye(dim)[0], -np.ones(dim)]
    for i in pick:
        for s in shifts:
            X.eq("data point", f(np.array([k[i] + s]))[0], b[i], tol=TOL[method], validate=method == "linear")
    if method != "linear":
        return
    # along one line between the points
    t = X.real("t", -1.2, 1.2)
    base = k[0].copy()
    base[1:] += 0.4 / n
    x = X.stack([t] + [base[i] for i in range(1, dim)]) if dim > 1 else X.stack([t])
    got = f(X.stack([x]))[0]
    u = (t - low) * n - shift
    X.assume(abs(u - np.round(u)) > 1e-3)
    c = int(np.floor(u))
    w0 = u - c
    ref = 0.0
    for corner in itertools.product((0, 1), repeat=dim):
        g = [(c + corner[0]) % n]
        wt = w0 if corner[0] else 1 - w0
        for j in range(1, dim):
            v = (base[j] - low) * n - shift
            g.append(int(np.floor(v + 1e-9) + corner[j]) % n)
            wt = wt * (0.4 if corner[j] else 0.6)
        ref = ref + wt * b[look[tuple(g)]]
    X.eq("linear between", got, ref)


SYMS = {"o2": lambda M: M.symmetry.Symmetry.o2(4), "inv": lambda M: M.symmetry.Symmetry.inv(2), "cubic": lambda M: M.symmetry.Symmetry.cubic(True)}


@harness("C17", cfgs=[dict(sym=s, n=n, shift=sh, per=p, method=m) for s, n, sh, p, m in (("o2", 4, 0.0, True, "linear"), ("o2", 4, 0.5, True, "cubic"), ("inv", 3, 0.0, True, "linear"), ("o2", 4, 0.5, False, "linear"), ("cubic", 4, 0.0, True, "cubic"), ("o2", 5, 0.0, False, "linear"))], weight=2)
def symmetric(M, X, sym, n, shift, per, method):
    """interpolation of the irreducible points with a symmetry has the data at all equivalent points"""
    S = SYMS[sym](M)
    dim = S.dim()
    if per:
        k = grid_points(n, -0.5, dim, shift) if n % 2 == 0 else grid_points(n, -0.5, dim, 0.5)
    else:
        k = grid_points(n, 0.0, dim, 0.5) - 0.5
    ops = [np.array(s, dtype=float) * i for s in S.S for i in ((1, -1) if S.inversion else (1,))]

    def key(x):
        return tuple(np.round((np.round(x + 0.5, 9) % 1.0) - 0.5, 6) + 0.0) if per else tuple(np.round(x, 6) + 0.0)
    cls, reps = {}, []
    for x in k[::-1]:
        if key(x) not in cls:
            for s in ops:
                cls[key(s @ x)] = len(reps)
            reps.append(x)
    b = X.array("b", (len(reps), 2), -1, 1)
    f = M.kpaths.interpolate(np.array(reps), b, sym=S, method=method, periodic=per)
    for x in k if len(k) < 40 else k[::3]:
        # away from the border of the data, which is only known up to rounding
        X.eq("equivalent point", f(np.array([x if per else x * (1 - 1e-9)]))[0], b[cls[key(x)]], tol=TOL[method], validate=method == "linear")


@harness("C17", cfgs=[dict(sym=s) for s in (None, "o2", "inv")])
def unstructured(M, X, sym):
    """the unstructured interpolation has the bands of exactly the (equivalent) data points, everything else is marked as missing"""
    k = np.array([[0.1, 0.2], [0.3, 0.3], [0.0, 0.4], [0.0, 0.0]])
    b = X.array("b", (4, 2), -1, 1)
    S = SYMS[sym](M) if sym else None
    f = M.kpaths.interpolate_unstructured(k, b, S)
    ops = [np.eye(2)] if S is None else [np.array(s, dtype=float) * i for s in S.S for i in ((1, -1) if S.inversion else (1,))]
    pts, want = [], []
    for i, x in enumerate(k):
        for s in ops:
            pts.append(s @ x + 1e-4)
            want.append(i)
    r = f(np.array(pts))
    for p, i in zip(r, want):
        X.eq("data", p, b[i])
    miss = f(np.array([[0.11, 0.2], [0.2, -0.1], [0.4, 0.4]]))
    for i in range(3):
        if sym is None or i != 1:
            for j in range(2):
                v = miss[i][j]
                X.true("missing", isinstance(v, (float, np.floating)) and bool(np.isnan(v)))


def plotted(X):
    t = [X.real(f"t{i}", 0.1, 1.0) for i in range(3)]
    c = X.array("c", (3, 3), -1, 1)
    pts = [np.array([0.25, 0.0, -0.5])]
    for i in range(3):
        pts.append(pts[-1] + t[i] * DIRS[i])
    lengths = [t[i] * float(np.linalg.norm(DIRS[i])) for i in range(3)]
    counts = [2, 1, 3]
    x = [0.0]
    for n, l in zip(counts, lengths):
        start = x[-1]
        x += [start + l * (j / n) for j in range(1, n + 1)]
    ticks = [x[0], x[2], x[3], x[6]]
    def bands(k):
        return X.stack([X.stack([c[b][0] * q[0] + c[b][1] * q[1] + c[b][2] * q[2] + 9.0 * b for b in range(3)]) for q in k])
    return pts, counts, x, ticks, bands


@harness("C17", cfgs=[dict(offset=0), dict(offset=2)])
def plot(M, X, offset):
    """a plot of bands has one curve for every band over the lengths along the path, starting at the given color, marks at the inner waypoints, and the names of all waypoints at their positions"""
    pts, counts, x, ticks, bands = plotted(X)
    p = M.kpaths.KPath(pts[0], "A")
    for i, n in enumerate(counts):
        p.to(pts[i + 1], f"P{i}", N=n)
    with Recorder(M.kpaths) as plt:
        p.plot(bands, band_offset=offset, ylim=(-3.0, 4.0))
    curves = [a for _, a, _ in plt.named("plot")]
    X.eq("skipped colors", [len(a[0]) for a in curves[:offset]], [0] * offset)
    X.eq("curves", len(curves), offset + 3)
    ref = bands(p.path)
    for b, a in enumerate(curves[offset:]):
        X.eq("positions", a[0], x)
        X.eq("energies", a[1], [r[b] for r in ref])
    X.eq("marks", [a[0] for _, a, _ in plt.named("axvline")], ticks[1:-1])
    (_, a, _), = plt.named("xticks")
    X.eq("ticks", list(a[0]), ticks)
    X.true("names", list(a[1]) == ["A", "P0", "P1", "P2"])
    (_, a, _), = plt.named("xlim")
    X.eq("limits", list(a), [x[0], x[-1]])
    (_, a, _), = plt.named("ylim")
    X.eq("energy limits", list(a), [-3.0, 4.0])


@harness("C17", cfgs=[dict(side="left", auto=False), dict(side="right", auto=False), dict(side="right", auto=True)], weight=2)
def labels(M, X, side, auto):
    """the labels of the bands at the left or right end of the plot: every band has exactly one label, it is next to its energy at
    this end, and without limits all of the bands are inside of the plot"""
    fixed = [[-1.0, 0.5, 0.52, 1.9], [0.3, -0.4, 1.2, 0.1], [0.1, 0.12, 1.1, 2.6]]
    at = 0 if side == "left" else 2
    e = [list(r) for r in fixed]
    e[at] = [fixed[at][0], X.real("a", 0.4, 0.7), X.real("b", 0.45, 0.6), fixed[at][3]]
    p = M.kpaths.KPath([0.0, 0.0, 0.0], "A")
    p.to([0.5, 0.0, 0.0], "B", N=2)
    ylim = None if auto else (-1.5, 3.0)
    with Recorder(M.kpaths) as plt:
        r = p.plot(lambda k: X.stack(e), label_bands=side, ylim=ylim)
    X.true("axes", len(r) == 2)
    lim = [a for n, a, _ in plt.named("set_ylim")]
    X.eq("both axes", len(lim), 2)
    X.eq("same limits", list(lim[0]), list(lim[1]))
    if auto:
        X.le("bands inside of the plot", lim[0][0], -1.0)
        X.le("bands inside of the plot", 2.6, lim[0][1])
    else:
        X.eq("limits", list(lim[0]), list(ylim))
    (_, a, k), = plt.named("set_yticks")
    ticks, names = a[0], k["labels"]
    X.eq("one name per tick", len(names), len(ticks))
    seen = []
    for t, n in zip(ticks, names):
        for part in n.split(","):
            lo, hi = (part.split("-") * 2)[:2]
            for b in range(int(lo), int(hi) + 1):
                seen.append(b)
                X.le("label next to the energy", np.abs(t - e[at][b]), 0.1)
    X.eq("every band has a label", seen if len(seen) != 4 else sorted(seen), [0, 1, 2, 3])


@harness("C17", cfgs=[dict(start=s, count=c, swap=w) for s, c, w in ((0, 3, False), (1, 2, False), (0, 2, False), (1, 2, True), (0, 2, True), (1, 1, False))])
def comparison(M, X, start, count, swap):
    """comparing a model with a part of its own bands plots every band of both, and each band of the part has the color of the same band of the model"""
    pts, counts, x, ticks, bands = plotted(X)
    p = M.kpaths.KPath(pts[0], "A")
    for i, n in enumerate(counts):
        p.to(pts[i + 1], f"P{i}", N=n)
    def part(k):
        return X.stack([X.stack(list(r)[start:start + count]) for r in bands(k)])
    with Recorder(M.kpaths) as plt:
        if swap:
            p.plot_comparison(part, bands)
        else:
            p.plot_comparison(bands, part)
    curves = [a for _, a, _ in plt.named("plot")]
    # split by the style of the curves
    ref = bands(p.path)
    full, sub, fc, sc = [], [], 0, 0
    first, second = [], []
    at = [i for i, (n, a, k) in enumerate(plt.calls) if n == "set_prop_cycle"]
    X.eq("color cycle restarts", len(at), 2)
    for i, (n, a, k) in enumerate(plt.calls):
        if n == "plot":
            (first if i < at[1] else second).append(a)
    a, b = (second, first) if swap else (first, second)
    X.eq("curves of the model", len([c for c in a if len(c[0])]), 3)
    X.eq("curves of the part", len([c for c in b if len(c[0])]), count)
    for color, c in enumerate(a):
        if len(c[0]):
            full.append(color)
            X.eq("positions", c[0], x)
            X.eq("energies of the model", c[1], [r[len(full) - 1] for r in ref])
    for color, c in enumerate(b):
        if len(c[0]):
            sub.append(color)
            X.eq("energies of the part", c[1], [r[start + len(sub) - 1] for r in ref])
    X.eq("colors", sub, full[start:start + count])
    X.true("the reference is dashed", all("--" in c[2:] for c in second if len(c[0])) and not any("--" in c[2:] for c in first if len(c[0])))
