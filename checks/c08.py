"""C08: symmetric completion and reduction of point sets"""
from symex.driver import harness, assumptions
from .common import *
from .c07 import closure, rot

assumptions("C08", "coordinates are either identical by construction (special positions) or separated by at least 0.05, which excludes the tie breaking of the grid sorting at 1e-4",
            "the claims about the order of the result are restricted to that separation")

GEN = dict(none=([np.eye(2)], False), c2=([rot(2, 2)], False), m=([np.diag([-1.0, 1])], False), c4=([rot(4, 2)], False), inv=([np.eye(2)], True), square=([rot(4, 2), np.diag([1.0, -1])], False),
           c3=([rot(3, 2)], False), hex3=([np.array([[0.0, -1], [1, -1]])], False), hex6=([np.array([[1.0, -1], [1, 0]])], False), d2=([np.diag([1.0, -1]), np.diag([-1.0, 1])], False),
           C4=([rot(4)], False), C2i=([rot(2)], True), Mi=([np.diag([-1.0, 1, 1])], True), I=([np.eye(3)], True), D2=([np.diag([1.0, -1, -1]), np.diag([-1.0, -1, 1])], False), C4i=([rot(4)], True))
GENERIC = [0.137, 0.291, 0.4137]


def group(M, name):
    gens, inv = GEN[name]
    d = len(gens[0])
    return M.symmetry.Symmetry.from_generator(gens, inv), closure(list(gens) + ([-np.eye(d)] if inv else [])), d


def position(X, name, pos, lo=-0.45, hi=0.45, gap=0.05, generic=GENERIC):
    """symbolic point on a special position and a generic concrete representative of the position"""
    a, b, c = X.real(name + "a", lo, hi), X.real(name + "b", lo, hi), X.real(name + "c", lo, hi) if len(pos) == 3 else 0.0
    ga, gb, gc = generic
    sub = {"a": (a, ga), "b": (b, gb), "c": (c, gc), "0": (0.0, 0.0), "h": (0.5, 0.5), "-": (-a, -ga)}
    used = [sub[x][0] for x in "abc" if x in pos]
    vals = list(used)
    for i in range(len(used)):
        for j in range(i):
            vals += [used[i] - used[j], used[i] + used[j]]
    separate(X, vals, gap)
    # a non symbolic component keeps its value
    return X.stack([sub[x][0] + a * 0.0 for x in pos]), np.array([sub[x][1] for x in pos])


def separate(X, values, gap=0.05):
    for v in values:
        X.assume((v >= gap) | (v <= -gap))


def unique(points, tol=1e-6):
    r = []
    for p in points:
        if all(np.abs(p - q).max() > tol for q in r):
            r.append(p)
    return r


def wrapped(x):
    return (x + 0.5) - np.floor(x + 0.5) - 0.5


def same(a, b, tol=1e-9):
    return bool(np.sum((a - b)**2) < tol)


def check_orbit(X, label, full, order, index, points, sort=True):
    """full contains every point of the list exactly once with the given source index"""
    hits = []
    for o in points:
        h = [i for i, f in enumerate(full) if same(f, o)]
        X.eq(f"{label}: every orbit member exactly once", len(h), 1)
        if h:
            X.eq(f"{label}: source", order[h[0]], index)
        hits += h
    return hits


P2 = ["ab", "0b", "aa", "a-", "a0", "00"]
QUICK2 = [("c2", "ab"), ("m", "ab"), ("m", "0b"), ("c4", "ab"), ("c4", "aa"), ("c4", "a0"), ("c4", "00"), ("inv", "ab"), ("inv", "0b"), ("square", "aa"), ("square", "a-"), ("square", "0b"),
          ("d2", "ab"), ("hex3", "a0")]


@harness("C08", cfgs=[dict(g=g, pos=p) for g, p in QUICK2] + [dict(g="C2i", pos="ab0"), dict(g="Mi", pos="abc"), dict(g="I", pos="abc"), dict(g="C4", pos="a0c")],
         thorough=[dict(g="square", pos="ab"), dict(g="D2", pos="abc"), dict(g="hex6", pos="ab"), dict(g="C4i", pos="aac")], weight=3)
def completion(M, X, g, pos):
    """realize_symmetric, realize_symmetric_data and r_class_size of one symbolic point on a (special) position together with the zero point"""
    sym, ops, d = group(M, g)
    k, gk = position(X, "k", pos)
    value = X.array("v", 2)
    n = len(unique([s @ gk for s in ops]))
    orbit = [s @ k for s in ops]
    reps = [orbit[[i for i, s in enumerate(ops) if np.abs(s @ gk - p).max() < 1e-6][0]] for p in unique([s @ gk for s in ops])]
    full, order = sym.realize_symmetric(X.stack([k]))
    X.eq("size of the orbit", len(full), n)
    check_orbit(X, "completion", full, order, 0, reps)
    size = sym.r_class_size(X.stack([k]))
    X.eq("r_class_size", size[0], n)
    X.eq("r_class_size of the origin alone", sym.r_class_size(X.stack([np.zeros(d)])), [1])
    X.eq("r_class_size of a list", sym.r_class_size(X.stack([k, k * 0.0, ops[-1] @ k])), [n, 1, n])
    for i in range(len(full) - 1):
        # sorted by the last component first
        a, b = full[i], full[i + 1]
        le = False
        for j in range(d):
            le = (a[j] < b[j] - 1e-3) | ((a[j] < b[j] + 1e-3) & le) if j else (a[j] < b[j] + 1e-3)
        X.true("grid order", le)
    f2, data = sym.realize_symmetric_data(X.stack([k]), X.stack([value]))
    X.eq("same points", f2, full)
    X.eq("data", data, X.stack([value] * n))


@harness("C08", cfgs=[dict(g=g, pos=p) for g, p in (("m", "ab"), ("c2", "aa"), ("c2", "hb"), ("c4", "aa"), ("c4", "hh"), ("inv", "h0"), ("m", "hb"), ("c4", "h0"), ("d2", "hb"))]
         + [dict(g="I", pos="hb0")], thorough=[dict(g="C2i", pos="abh"), dict(g="c2", pos="ab")], weight=3)
def unit_cell(M, X, g, pos):
    """completion modulo the lattice: all points in [-1/2, 1/2[, every class member once; k_weight is the inverse size of the stabiliser modulo the lattice"""
    sym, ops, d = group(M, g)
    k, gk = position(X, "k", pos)
    if "h" in pos:
        separate(X, [v - s * 0.5 for v in k for s in (1, -1) if hasattr(v, "t") and not v.is_const()] if X.symbolic else [], 0.01)
    full, order = sym.realize_symmetric(X.stack([k]), unit_cell=True)
    ref = unique([np.mod(s @ gk + 1e-9, 1) for s in ops], 1e-6)
    X.eq("size of the class", len(full), len(ref))
    for f in full:
        X.le("lower bound", -0.5, X.stack(list(f)))
        X.le("upper bound", X.stack(list(f)), 0.5 - 1e-6, tol=1e-9)
    seen = []
    for p in ref:
        s = [s for s in ops if np.abs(np.mod(s @ gk + 1e-9, 1) - p).max() < 1e-6][0]
        o = s @ k
        h = [i for i, f in enumerate(full) if all(bool((abs(f[j] - o[j]) < 1e-5) | (abs(f[j] - o[j] - 1) < 1e-5) | (abs(f[j] - o[j] + 1) < 1e-5)) for j in range(d))]
        X.eq("every class member exactly once", len(h), 1)
        seen += h
    X.eq("k_weight", sym.k_weight(X.stack([k]))[0], 1.0 / sum(1 for s in ops if np.abs((s @ gk - gk) - np.round(s @ gk - gk)).max() < 1e-6))


@harness("C08", cfgs=[dict(g=g, p=p, q=q) for g, p, q in (("m", "ab", "0b"), ("c2", "a-", "a0"), ("inv", "aa", "0b"), ("c4", "aa", "00"), ("d2", "a0", "0b"))], thorough=[dict(g="c4", p="aa", q="a0"), dict(g="c2", p="ab", q="a0"), dict(g="c2", p="ab", q="ab")], weight=4)
def reduce_and_complete(M, X, g, p, q):
    """two orbits with data: completing gives every point the data of its source, reducing gives one point per orbit with its data, completing again restores everything"""
    sym, ops, d = group(M, g)
    k, gk = position(X, "k", p)
    l, gl = position(X, "l", q)
    gl = gl * 1.7
    vk, vl = X.array("vk", 1), X.array("vl", 1)
    # different shells
    X.assume(np.sum(k * k) + 0.03 <= np.sum(l * l)) if q != "00" else X.assume(np.sum(k * k) >= 0.03)
    separate(X, [f(k[i], l[j]) for i in range(d) for j in range(d) if q != "00" and p[i] + q[j] != "00" for f in (lambda x, y: x - y, lambda x, y: x + y)], 0.01)
    full, data = sym.realize_symmetric_data(X.stack([k, l]), X.stack([vk, vl]))
    nk, nl = len(unique([s @ gk for s in ops])), len(unique([s @ gl for s in ops]))
    X.eq("number of points", len(full), nk + nl)

    def check(label, full, data):
        cnt = [0, 0]
        for i, f in enumerate(full):
            isk, isl = any(same(f, s @ k) for s in ops), any(same(f, s @ l) for s in ops)
            X.true(f"{label}: member of an orbit", isk or isl)
            X.eq(f"{label}: data of the orbit", data[i], vk if isk else vl)
            cnt[0 if isk else 1] += 1
        X.eq(f"{label}: members", cnt, [nk, nl] if label != "reduced" else [1, 1])
    check("completed", full, data)
    rk, rd = sym.reduce_symmetric_data(full, data)
    X.eq("one point per orbit", len(rk), 2)
    check("reduced", rk, rd)
    f2, d2 = sym.realize_symmetric_data(rk, rd)
    X.eq("number of points after the round trip", len(f2), nk + nl)
    check("restored", f2, d2)


@harness("C08", cfgs=[dict(g=g, p=p, q=q) for g, p, q in (("m", "ab", "0b"), ("c2", "a0", "aa"), ("c4", "a0", "aa"), ("d2", "a0", "0b"), ("I", "a00", "aa0"), ("C2i", "a0a", "0b0"))], thorough=[dict(g="c4", p="aa", q="a0"), dict(g="c2", p="ab", q="a0"), dict(g="C2i", p="a00", q="bb0")], weight=4)
def close_shells(M, X, g, p, q):
    """orbits with data at nearly the same distance: reducing gives exactly one point of both orbits, whatever the order of the points"""
    sym, ops, d = group(M, g)
    k, gk = position(X, "k", p)
    l, gl = position(X, "l", q)
    # similar lengths, but no equal points
    nk, nl = len(unique([s @ gk for s in ops])), len(unique([s @ gl for s in ops]))
    a, b = np.sum(k * k), np.sum(l * l)
    X.assume((a * 1.01 <= b) & (b <= a + 0.03))
    separate(X, [f(k[i], l[j]) for i in range(d) for j in range(d) if p[i] + q[j] != "00" for f in (lambda x, y: x - y, lambda x, y: x + y)], 0.005)
    vk, vl = X.array("vk", 1), X.array("vl", 1)
    points = [s @ k for s in rep(ops, gk)] + [s @ l for s in rep(ops, gl)]
    data = [vk] * nk + [vl] * nl
    order = np.random.default_rng(1).permutation(len(points))
    rk, rd = sym.reduce_symmetric_data(X.stack([points[i] for i in order]), X.stack([data[i] for i in order]))
    X.eq("one point per orbit", len(rk), 2)
    cnt = [0, 0]
    for f, v in zip(rk, rd):
        isk = any(same(f, s @ k) for s in ops)
        cnt[0 if isk else 1] += 1
        X.eq("data of the orbit", v, vk if isk else vl)
    X.eq("orbits", cnt, [1, 1])


def rep(ops, g):
    """one operation for every member of the orbit"""
    return [ops[[i for i, s in enumerate(ops) if np.abs(s @ g - x).max() < 1e-6][0]] for x in unique([s @ g for s in ops])]


@harness("C08", cfgs=[dict(g=g, pos=p, given=m, cell=False) for g, p, m in (("m", "ab", 2), ("inv", "ab", 2), ("c4", "aa", 2), ("c4", "aa", 3), ("c4", "a0", 4), ("square", "aa", 3), ("m", "0b", 1), ("I", "abc", 2))]
         + [dict(g=g, pos=p, given=m, cell=True) for g, p, m in (("m", "hb", 2), ("inv", "h0", 2), ("none", "hb", 2), ("c4", "hh", 2))],
         thorough=[dict(g="c4", pos="ab", given=3, cell=False), dict(g="square", pos="ab", given=2, cell=False), dict(g="C4i", pos="aac", given=3, cell=False), dict(g="c2", pos="hb", given=3, cell=True)], weight=3)
def duplicates(M, X, g, pos, given, cell):
    """data given at several equivalent points: every point of the class gets the mean of the given values, other points keep theirs"""
    sym, ops, d = group(M, g)
    k, gk = position(X, "k", pos)
    l = np.array([0.31, 0.0, 0.0])[:d] * 0.0  # the origin is never equivalent
    if cell:
        # the same point modulo the lattice, the last component is not changed
        shift = [np.zeros(d), -np.eye(d)[0], -np.eye(d)[0]]
        points = [k + s for s in shift][:2]
        if given == 3:
            points.append(ops[1] @ k)
        members = len(unique([np.mod(s @ gk + 1e-9, 1) for s in ops], 1e-6))
    else:
        reps = unique([s @ gk for s in ops])
        members = len(reps)
        points = [ops[[i for i, s in enumerate(ops) if np.abs(s @ gk - p).max() < 1e-6][0]] @ k for p in reps[:given]]
    n = len(points)
    values = [X.array(f"v{i}", 1) for i in range(n)]
    other = X.array("w", 1)
    X.merge()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        full, data = sym.realize_symmetric_data(X.stack(points + [k * 0.0 + l]), X.stack(values + [other]), unit_cell=cell, average_bad_duplicates=True)
        pts, source = sym.realize_symmetric(X.stack(points + [k * 0.0 + l]), unit_cell=cell, collect_bad_duplicates=True)
    X.eq("number of points", [len(full), len(data)], [members + 1] * 2)
    mean = sum(values) / n
    zeros = 0
    for f, v, s in zip(full, data, source):
        if same(f, np.zeros(d)):
            zeros += 1
            X.eq("other value", v, other)
            X.eq("other source", list(s), [n])
        else:
            X.eq("mean of the given values", v, mean)
            X.eq("sources", sorted(int(i) for i in s), list(range(n)))
    X.eq("the other point is there once", zeros, 1)
    X.eq("same points", pts, full)


@harness("C08", cfgs=[dict(g=g, pos=p) for g, p in (("m", "ab"), ("c4", "ab"), ("inv", "0b"))], weight=2)
def asymmetric_data(M, X, g, pos):
    """reduce_symmetric_data raises exactly if the data of an orbit differs"""
    sym, ops, d = group(M, g)
    k, gk = position(X, "k", pos)
    e = X.real("e", -1, 1)
    n = len(unique([s @ gk for s in ops]))
    X.assume((e >= 0.01) | (e <= -0.01))
    full, order = sym.realize_symmetric(X.stack([k]))
    for i in range(n):
        data = X.stack([X.stack([1.0 + (e if i == j else 0.0)]) for j in range(n)])
        raised = False
        try:
            sym.reduce_symmetric_data(full, data)
        except ValueError:
            raised = True
        X.true("asymmetric data is detected", raised)
        rk, rd = sym.reduce_symmetric_data(full, data, checked=False)
        X.eq("unchecked reduction", len(rk), 1)


@harness("C08", cfgs=[dict(g=g, pos=p) for g, p in (("m", "ab"), ("c4", "aa"), ("c4", "a0"), ("hex3", "a0"), ("hex6", "a0"), ("square", "aa"), ("inv", "ab"), ("d2", "ab"), ("C4", "a0c"), ("C2i", "ab0"), ("I", "abc"), ("none", "ab"))],
         thorough=[dict(g="square", pos="ab"), dict(g="hex6", pos="ab"), dict(g="hex3", pos="ab"), dict(g="C4i", pos="abc"), dict(g="c4", pos="ab")], weight=3)
def neighbors(M, X, g, pos):
    """complete_neighbors of {0, r}: zero first, then exactly one of +-r' for every symmetric (dual) position r'"""
    sym, ops, d = group(M, g)
    r, gr = position(X, "r", pos, -2, 2)
    zero = X.stack([np.zeros(d) + 0 * r[0]]) if X.symbolic else np.zeros((1, d))
    nb, order = sym.complete_neighbors(X.stack([zero[0], r]), return_order=True)
    ref = unique([s.T @ gr for s in ops])
    half = []
    for p in ref:
        if all(np.abs(p + q).max() > 1e-6 for q in half):
            half.append(p)
    X.eq("number of neighbors", len(nb), len(half) + 1)
    X.eq("zero first", X.stack(list(nb[0])), np.zeros(d))
    X.eq("source of zero", order[0], 0)
    X.eq("source", list(order[1:]), [1] * len(half))
    for p in half:
        s = [s for s in ops if np.abs(s.T @ gr - p).max() < 1e-6][0]
        o = s.T @ r
        X.eq("exactly one of +-r", sum(1 for m in nb if same(m, o) or same(m, -o)), 1)
    again = sym.complete_neighbors(X.stack([X.stack(list(m)) for m in nb]))
    X.eq("complete sets stay complete", len(again), len(nb))
    X.eq("plain list", len(sym.complete_neighbors(X.stack([zero[0], r]))), len(nb))
    if d == 3:
        full = X.stack([X.stack(list(m)) for m in nb])
        sym.check_neighbors(full)
        for i in range(1, len(nb) if len(half) > 1 else 1):
            raised = False
            try:
                sym.check_neighbors(X.stack([full[j] for j in range(len(nb)) if j != i]))
            except ValueError:
                raised = True
            X.true("check_neighbors rejects incomplete sets", raised)


@harness("C08", cfgs=[dict(g=g) for g in ("c2", "c4", "inv", "C2i", "Mi", "m", "square")], weight=2)
def classes(M, X, g):
    """find_classes groups exactly the symmetry equivalent points of a list with two orbits"""
    sym, ops, d = group(M, g)
    # boxes of different shells
    r, gr = position(X, "r", "abc"[:d], 0.1, 0.3, 0.01)
    if g in ("c2", "inv", "m"):
        q, gq = position(X, "q", "abc"[:d], 0.6, 0.9, 0.01)
    else:
        q = X.stack([x + 0 * r[0] for x in (0.61, 0.83, 0.7)[:d]])
    pts = [r, q, ops[-1] @ r, ops[-1] @ q]
    if len(ops) > 2:
        pts.append(ops[1] @ q)
    expect = {0: {0, 2}, 1: {1, 3} | ({4} if len(ops) > 2 else set())}
    res = sym.find_classes(X.stack(pts))
    X.true("classes", {int(a): {int(x) for x in b} for a, b in res.items()} == expect)


@harness("C08", cfgs=[dict(g=g, R=r) for g, r in (("Mi", 2.3), ("C2i", 2.3), ("C2i", 3.1), ("I", 1.1))], thorough=[dict(g="Mi", R=3.1), dict(g="C4i", R=3.1)], weight=2)
def many_neighbors(M, X, g, R):
    """check_neighbors accepts all lattice points in a sphere (one of each pair), in every scale and order, and rejects the set with one point left out"""
    sym, ops, d = group(M, g)
    n = int(R)
    pts = [np.array(p) - n for p in np.ndindex((2 * n + 1,) * d) if np.linalg.norm(np.array(p) - n) <= R]
    half = [p for p in pts if next((x for x in p if x), 0) > 0]
    half = [half[i] for i in np.random.default_rng(3).permutation(len(half))]
    half = [np.zeros(d)] + half
    s = X.real("s", 0.5, 2.0)
    full = X.stack([X.stack([float(x) * s for x in p]) for p in half])
    sym.check_neighbors(full)
    X.true("complete set", True)
    for i in (1, len(half) - 1):
        p = half[i]
        if all(np.abs(o @ p - p).max() < 1e-9 or np.abs(o @ p + p).max() < 1e-9 for o in ops):
            continue
        raised = False
        try:
            sym.check_neighbors(X.stack([full[j] for j in range(len(half)) if j != i]))
        except ValueError:
            raised = True
        X.true("incomplete set", raised)
