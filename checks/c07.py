"""C07: symmetry groups are groups for every orientation, and group averaging is the projection onto the invariants"""
import itertools
from symex.driver import harness, assumptions
from .common import *

I3 = np.eye(3)


def rot(n, d=3):
    c, s = np.cos(2 * np.pi / n), np.sin(2 * np.pi / n)
    m = np.eye(d)
    m[:2, :2] = [[c, -s], [s, c]]
    return m


def closure(gens):
    """all products of the generators (reference, written independently)"""
    d = len(gens[0])
    ops = [np.eye(d)]
    todo = [np.eye(d)]
    while todo:
        a = todo.pop()
        for g in gens:
            b = np.asarray(g, dtype=float) @ a
            if all(np.abs(b - o).max() > 1e-6 for o in ops):
                ops.append(b)
                todo.append(b)
        assert len(ops) <= 130
    return ops


MX = np.diag([-1.0, 1, 1])
C4, C3D = rot(4), np.array([[0.0, 0, 1], [1, 0, 0], [0, 1, 0]])
_a = 5**-.5
ICO = np.array([[0, 1.0, 0], [-_a, 0, 2 * _a], [2 * _a, 0, _a]])

# name: (constructor, generators of the documented group)
GROUPS = {
    "none2": (lambda S: S.none(2), [np.eye(2)]),
    "none": (lambda S: S.none(), [I3]),
    "inv2": (lambda S: S.inv(2), [-np.eye(2)]),
    "inv": (lambda S: S.inv(), [-I3]),
    "o1": (lambda S: S.o1(False), [np.eye(1)]),
    "o1i": (lambda S: S.o1(True), [-np.eye(1)]),
    "o2_3": (lambda S: S.o2(3), [rot(3, 2)]),
    "o2_4": (lambda S: S.o2(4), [rot(4, 2)]),
    "o2_6": (lambda S: S.o2(6), [rot(6, 2)]),
    "square": (lambda S: S.square(), [rot(4, 2), np.diag([1.0, -1])]),
    "cyclic2": (lambda S: S.cyclic(2, False), [rot(2)]),
    "cyclic3i": (lambda S: S.cyclic(3, True), [rot(3), -I3]),
    "cyclic4": (lambda S: S.cyclic(4, False), [rot(4)]),
    "cyclic6i": (lambda S: S.cyclic(6, True), [rot(6), -I3]),
    "dihedral2": (lambda S: S.dihedral(2, False), [rot(2), MX]),
    "dihedral3": (lambda S: S.dihedral(3, False), [rot(3), MX]),
    "dihedral3i": (lambda S: S.dihedral(3, True), [rot(3), MX, -I3]),
    "dihedral4i": (lambda S: S.dihedral(4, True), [rot(4), MX, -I3]),
    "dihedral6": (lambda S: S.dihedral(6, False), [rot(6), MX]),
    "cubic": (lambda S: S.cubic(False), [C4, C3D]),
    "cubici": (lambda S: S.cubic(True), [C4, C3D, -I3]),
    "perm3": (lambda S: S.perm3(False), [C3D, [[0, 1, 0], [1, 0, 0], [0, 0, 1]]]),
    "perm3i": (lambda S: S.perm3(True), [C3D, [[0, 1, 0], [1, 0, 0], [0, 0, 1]], -I3]),
    "even_perm3": (lambda S: S.even_perm3(), [[[0, 0, 1], [0, -1, 0], [1, 0, 0]], [[-1, 0, 0], [0, 0, 1], [0, 1, 0]]]),
    "mirror3": (lambda S: S.mirror3(False), [np.diag([1.0, -1, -1]), np.diag([-1.0, -1, 1])]),
    "mirror3i": (lambda S: S.mirror3(True), [np.diag([1.0, -1, 1]), np.diag([-1.0, 1, 1]), np.diag([1.0, 1, -1])]),
    "mirror_x": (lambda S: S.mirror_x(), [MX]),
    "mirror_xi": (lambda S: S.mirror_x(True), [MX, -I3]),
    "mirror_x2": (lambda S: S.mirror_x(False, 2), [np.diag([-1.0, 1])]),
    "mirror_xi2": (lambda S: S.mirror_x(True, 2), [np.diag([-1.0, 1]), -np.eye(2)]),
    "mirror_xy": (lambda S: S.mirror_xy(), [np.diag([-1.0, -1, 1])]),
    "mirror_xyi": (lambda S: S.mirror_xy(True), [np.diag([-1.0, -1, 1]), -I3]),
    "tetrahedral": (lambda S: S.tetrahedral(), [np.diag([-1.0, -1, 1]), C3D]),
    "tetrahedral_full": (lambda S: S.tetrahedral(True), [np.diag([-1.0, -1, 1]), C3D, C4]),
    "product": (lambda S: S.cyclic(4, False) * S.mirror_x(True), [rot(4), MX, -I3]),
    "explicit_inversion": (lambda S: S(np.array(closure([rot(4), -I3]))), [rot(4), -I3]),
    "icosahedral": (lambda S: S.icosahedral(), [rot(5), ICO @ rot(5) @ np.linalg.inv(ICO)]),
}
HEX = np.array([[1.0, -0.5], [0, 3**.5 / 2]])


def act(s, T, left, right):
    """transformation of a tensor: s^-1 from the left for the first, s from the right for the last indices"""
    inv = np.linalg.inv(s)
    for i in range(left + right):
        m = inv if i < left else s.T
        T = np.moveaxis(np.tensordot(m, T, axes=(1, i)), 0, i)
    return T


def mean(ops, T, left, right, pseudo=False):
    r = 0.0
    for s in ops:
        r = r + act(s, T, left, right) * (np.sign(round(np.linalg.det(s))) if pseudo else 1.0)
    return r * (1.0 / len(ops))


RANKS = [(1, 1, False), (1, 0, False), (0, 3, True)]
BIG = ("cubici", "cubic", "icosahedral", "dihedral4i", "dihedral6", "tetrahedral_full")


@harness("C07", cfgs=[dict(group=g, left=l, right=r, pseudo=p) for g in GROUPS for l, r, p in ((1, 1, False), (0, 1, False)) if g != "icosahedral" or l == 1]
         + [dict(group=g, left=l, right=r, pseudo=p) for g in ("inv", "mirror_xi", "dihedral3", "cubici", "tetrahedral", "square")
            for l, r, p in ((1, 1, True), (0, 2, True), (2, 0, False), (0, 3, True), (1, 0, True)) if g != "cubici" or r < 3],
         thorough=[dict(group="cubici", left=0, right=3, pseudo=True), dict(group="icosahedral", left=0, right=1, pseudo=False)], weight=2)
def named_groups(M, X, group, left, right, pseudo):
    """tensors with symbolic entries in [-2,2]; every named group: the group mean is the average over the documented operations, invariant, and idempotent"""
    make, gens = GROUPS[group]
    g = make(M.symmetry.Symmetry)
    ops = closure(gens)
    d = len(ops[0])
    X.eq("order of the group", len(g), len(ops))
    mine = np.asarray(g.get_symmetry_operations(), dtype=float)
    X.eq("number of operations", len(mine), len(ops))
    X.true("all documented operations are present", all(any(np.abs(m - s).max() < 1e-6 for m in mine) for s in ops))
    X.eq("dimension", g.dim(), d)
    T = X.array("T", (d,) * (left + right))
    ref = mean(ops, T, left, right, pseudo)
    res = g.symmetrize(T, rank=(left, right), pseudo_tensor=pseudo)
    X.eq("symmetrize is the group mean", res, ref)
    X.eq("symmetrize is idempotent", g.symmetrize(res, rank=(left, right), pseudo_tensor=pseudo), ref)
    for s in (gens if len(ops) > 8 else ops):
        s = np.asarray(s, dtype=float)
        sign = np.sign(round(np.linalg.det(s))) if pseudo else 1.0
        X.eq("invariant", act(s, res, left, right) * sign, res)


@harness("C07", cfgs=[dict(order=n, inversion=i) for n in (2, 3, 4, 6) for i in (False, True)])
def crystal_coordinates(M, X, order, inversion):
    """groups with non orthogonal matrices (hexagonal lattice basis with symbolic aspect ratio): transform, dual, transpose and mean of (1,1), (2,0) and (0,2) tensors"""
    S = M.symmetry.Symmetry
    base = S.o2(order) if not inversion else S.from_generator([rot(order, 2)], True)
    ops = closure([rot(order, 2)] + ([-np.eye(2)] if inversion else []))
    a, b, c = X.real("a", 0.5, 2) if order < 4 else 1.0, X.real("b", -1, 1), X.real("c", 0.5, 2)
    B = X.stack([[a, b], [0.0, c]])
    Bi = X.stack([[1 / a, -b / (a * c)], [0.0, 1 / c]])
    g = base.transform(B)
    X.eq("order of the transformed group", len(g), len(ops))
    X.eq("inversion flag", g.inversion, base.inversion)
    v = X.array("v", 2, -1, 1)

    def orbit(ops):
        """order independent description of the orbit of v"""
        r1, r2 = 0.0, 0.0
        for s in ops:
            w = s @ v
            r1 = r1 + w[0]**2
            r2 = r2 + w[0] * w[1]
        return X.stack([r1, r2])

    ref = [B @ s @ Bi for s in ops]
    X.eq("orbit under the transformed group", orbit(g.get_symmetry_operations()), orbit(ref))
    X.eq("orbit under the dual group", orbit(g.dual().get_symmetry_operations()), orbit([(B @ np.linalg.inv(s) @ Bi).T for s in ops]))
    X.eq("orbit under the transposed group", orbit(g.transpose().get_symmetry_operations()), orbit([m.T for m in ref]))
    for left, right in ((1, 1), (2, 0), (0, 2), (1, 0), (0, 1)):
        T = X.array(f"T{left}{right}", (2,) * (left + right), -1, 1)
        m = 0.0
        for s in ops:
            t = T
            for i in range(left + right):
                u = B @ np.linalg.inv(s) @ Bi if i < left else (B @ s @ Bi).T
                t = np.moveaxis(np.tensordot(u, t, axes=(1, i)), 0, i)
            m = m + t
        res = g.symmetrize(T, rank=(left, right))
        X.eq(f"mean of a tensor of rank {left} {right}", res * len(ops), m)
        X.eq(f"symmetrized tensor of rank {left} {right} stays", g.symmetrize(res, rank=(left, right)), res)
    X.eq("transform does not change the group", np.asarray(base.S, dtype=float)[0], np.eye(2))


def orientation(X, d):
    c, s = X.expi(X.turn("t")), None
    z = c
    c, s = (z + X.conj(z)) * 0.5, (z - X.conj(z)) * (-0.5j)
    if not X.symbolic:
        c, s = c.real, s.real
    if d == 2:
        return X.stack([[c, -s], [s, c]])
    R = X.stack([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]])
    # fixed rational tilt out of the plane
    t = np.array([[1.0, 0, 0], [0, 0.8, -0.6], [0, 0.6, 0.8]])
    return R @ t


ORIENTED = {
    "c4": ([rot(4, 2)], False), "c3": ([rot(3, 2)], False), "square": ([rot(4, 2), np.diag([1.0, -1])], False), "m2i": ([np.diag([1.0, -1])], True),
    "C2": ([rot(2)], False), "C4i": ([rot(4)], True), "D2": ([rot(2), np.diag([1.0, -1, -1])], False), "Mi": ([MX], True), "C3": ([rot(3)], False), "M": ([MX], False),
    "S4": ([-rot(4)], False), "C3v": ([rot(3), MX], False),
}


@harness("C07", cfgs=[dict(group=g) for g in ORIENTED], weight=2)
def every_orientation(M, X, group):
    """groups generated by rotated generators, every orientation: closed, correct order, equal to the transformed group, correct subgroup relations"""
    S = M.symmetry.Symmetry
    gens, inv = ORIENTED[group]
    d = len(gens[0])
    ops = closure(gens + ([-np.eye(d)] if inv else []))
    R = orientation(X, d)
    rg = X.stack([R @ g @ R.T for g in gens])
    g = S.from_generator(rg, inv)
    X.eq("order", len(g), len(ops))
    mine = g.get_symmetry_operations()
    X.eq("number of operations", len(mine), len(ops))
    back = [R.T @ m @ R for m in mine]
    for s in ops:
        X.true("operation is present", any(bool(np.sum((b - s)**2) < 1e-6) for b in back))
    base = S.from_generator(gens, inv)
    h = base.transform(R)
    X.true("equal to the transformed group", g == h)
    X.true("check", h.check())
    X.true("orthogonal", h.is_orthogonal())
    X.true("orthogonal groups are their own dual", h.dual() == h)
    X.true("contains itself", g in h)
    X.true("contains the trivial group", S.none(d) in g)
    X.eq("contains the inversion", S.inv(d) in g, any(np.abs(s + np.eye(d)).max() < 1e-6 for s in ops))
    if len(ops) > 1:
        X.true("the trivial group does not contain it", not (g in S.none(d)))
        X.true("not equal to the trivial group", not (g == S.none(d)))
    sub = S.from_generator(X.stack([rg[0]]), False)
    X.true("contains the subgroup", sub in g)
    X.eq("contained in the subgroup", g in sub, len(sub) == len(g))
    X.true("product with a subgroup", g * sub == g)
    X.true("copy", g.copy() == g)


@harness("C07", cfgs=[dict(d=2), dict(d=3)])
def projective(M, X, d):
    """space groups: transform, dual and transpose act on the rotation and on the translation and keep the group a space group"""
    R = np.diag([-1.0, 1.0, -1.0][:d])
    t = X.array("t", d, -1, 1)
    P = np.zeros((d + 1, d + 1)) + 0.0
    rows = [X.stack([*R[i], t[i]]) for i in range(d)] + [X.stack([0.0] * d + [1.0])]
    P = X.stack(rows)
    g = M.symmetry.Symmetry.space_group(X.stack([np.eye(d + 1), P]), dim=d)
    B = np.eye(d) + np.diag([0.5, -0.25][:d - 1], 1)
    B[0, 0] = 2.0
    B = B * X.real("scale", 0.5, 2)
    h = g.transform(B)
    X.true("space group", h.projective and h.space_dim() == d and g.projective and len(h) == 2)
    Bi = np.linalg.inv(np.array(B / B[0, 0] * 2, dtype=float))
    B1 = np.array(B / B[0, 0] * 2, dtype=float)
    X.eq("rotation", h.S[1][:d, :d], B1 @ R @ Bi)
    X.eq("translation", h.S[1][:d, d], B @ t)
    X.eq("last row", h.S[1][d], [0.0] * d + [1.0])
    u = g.transpose()
    X.true("transposed space group", u.projective and u.space_dim() == d)
    X.eq("transposed", u.S[1], P.T)
    w = g.dual()
    X.true("dual space group", w.projective and w.space_dim() == d)
    X.eq("dual", w.S[1].T @ P, np.eye(d + 1))
    c = g.copy()
    X.true("copy", c.projective)
    X.eq("copy", c.S, g.S)
    X.eq("point group", g.ignore_translation().S[1], R)
    # one operation without translation, two with
    C = np.diag([1.0, -1.0, -1.0][:d])
    t2 = X.stack([X.real("s", 0.1, 1), *([0.25] * (d - 1))])
    ops = [np.eye(d + 1), R @ C, R, C]
    ops = [ops[0]] + [X.stack([X.stack([*m[i], x[i]]) for i in range(d)] + [X.stack([0.0] * d + [1.0])]) for m, x in ((R @ C, t2), (R, np.zeros(d) + 0.0 * t2), (C, -t2))]
    q = M.symmetry.Symmetry.space_group(X.stack(ops), dim=d)
    r = q.remove_translation()
    X.true("operations without translation", len(r) == 2 and not r.projective and r.space_dim() == d)
    X.eq("operations without translation", r.S, [np.eye(d), R])
    X.true("space group is kept", q.projective and len(q) == 4)
    r = M.symmetry.Symmetry.strict_point_group(X.stack(ops), dim=d)
    X.eq("strict point group", r.S, [np.eye(d), R])
    X.eq("point group of all operations", M.symmetry.Symmetry.point_group(X.stack(ops), dim=d).S, [np.eye(d), R @ C, R, C])
    X.eq("groups without translation", M.symmetry.Symmetry.strict_point_group([np.eye(d), R], dim=d).S, [np.eye(d), R])


@harness("C07", cfgs=[dict(d=2, axis=0), dict(d=2, axis=1), dict(d=3, axis=0), dict(d=3, axis=2)])
def translations(M, X, d, axis):
    """mirrors with or without a translation along one axis: the ones with a translation are removed, whatever its length"""
    S = M.symmetry.Symmetry
    t = X.real("t", 0.05, 1)
    mirrors = [np.diag([-1.0 if (b >> i) & 1 else 1.0 for i in range(d)]) for b in range(2**(d - 1))]
    ops = []
    for b, m in enumerate(mirrors):
        v = [t * 1.0 if i == axis and b & 1 else 0.0 * t for i in range(d)]
        ops.append(X.stack([X.stack([*m[i], v[i]]) for i in range(d)] + [X.stack([0.0] * d + [1.0])]))
    keep = mirrors[::2]
    g = S.space_group(X.stack(ops), dim=d)
    r = g.remove_translation()
    X.true("not projective", not r.projective)
    X.eq("operations without translation", r.S, keep)
    X.eq("strict point group", S.strict_point_group(X.stack(ops), dim=d).S, keep)
    X.eq("point group", S.point_group(X.stack(ops), dim=d).S, mirrors)


FIRST = ("square", "o2_3", "inv", "cyclic4", "dihedral3i", "mirror_x", "tetrahedral", "mirror_xy", "explicit_inversion")


@harness("C07", cfgs=[dict(group=g) for g in FIRST])
def check_symmetry(M, X, group):
    """every quadratic form which is a group mean is accepted at the sampled point, a form with a part along the first axis only is not"""
    make, gens = GROUPS[group]
    g = make(M.symmetry.Symmetry)
    ops = closure(gens)
    d = len(ops[0])
    T = X.array("T", (d, d), -1, 1)
    T = mean(ops, T, 0, 2)
    r = np.array([0.8, 0.15, 0.4])[:d]
    e = X.real("e", 0.1, 1)
    c = X.array("c", 2, -1, 1)
    def foo(x):
        q = x @ T @ x
        return X.stack([q * c[0], c[1] - 0.5 * q])
    with Points([r]):
        X.true("accepted", g.check_symmetry(foo, verbose=False))
    p = np.array([0.3, 0.55, 0.7])[:d]
    with Points([r, p]):
        X.eq("rejected", bool(g.check_symmetry(lambda x: foo(x) + X.stack([0.0, (x[0] + 0.5 * x[-1]) * e]), verbose=False)), False)
    with Points([p]):
        X.eq("large tolerance", bool(g.check_symmetry(lambda x: foo(x) + X.stack([0.0, (x[0] + 0.5 * x[-1]) * e]), verbose=False, tolerance=10.0)), True)


@harness("C07", cfgs=[dict(group=g) for g in ("c4", "square", "C3v", "D2", "C4i")], weight=2)
def conjugacy(M, X, group):
    """conjugacy classes, every orientation: a partition of the operations into classes of conjugated operations; the proper rotations and the trivial group are subgroups"""
    S = M.symmetry.Symmetry
    gens, inv = ORIENTED[group]
    d = len(gens[0])
    ops = closure(gens + ([-np.eye(d)] if inv else []))
    R = orientation(X, d)
    g = S.from_generator(X.stack([R @ m @ R.T for m in gens]), inv)
    def find(m):
        """number of the operation in the reference"""
        b = R.T @ m @ R
        hits = [i for i, s in enumerate(ops) if bool(np.sum((b - s)**2) < 1e-6)]
        assert len(hits) == 1
        return hits[0]
    got = sorted(sorted(find(m) for m in c) for c in g.conjugacy_classes())
    ref = []
    for i, a in enumerate(ops):
        c = sorted(j for j, b in enumerate(ops) if any(np.abs(s @ a @ s.T - b).max() < 1e-6 for s in ops))
        if c not in ref:
            ref.append(c)
    X.true("classes", got == sorted(ref))
    def det(m):
        if d == 2:
            return m[0][0] * m[1][1] - m[0][1] * m[1][0]
        return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))
    full = closure(gens + ([-np.eye(d)] if inv else []))
    p = g.subgroup(det)
    X.eq("proper rotations", sorted(i for m in p.get_symmetry_operations() for i, s in enumerate(full) if bool(np.sum((R.T @ m @ R - s)**2) < 1e-6)), sorted(i for i, s in enumerate(full) if np.linalg.det(s) > 0))
    t = g.subgroup(lambda m: np.trace(m))
    X.eq("only the identity", len(t), 1)


@harness("C07", cfgs=[dict(n=n) for n in (4, 6)])
def equivalence(M, X, n):
    """equivalence classes of a relation with a symbolic threshold are a partition in which exactly the related operations are together"""
    S = M.symmetry.Symmetry
    g = S.o2(n) if n == 4 else S.dihedral(3, False)
    ops = [np.array([[float(x) for x in r] for r in m]) for m in g.get_symmetry_operations()]
    v = [np.sum(m * np.array([[0.2, 0.7, 0.4], [-0.3, 0.55, 0.9], [0.1, 0.35, 0.8]])[:len(m), :len(m)]) for m in ops]
    t = X.real("t", -3, 3)
    for x in v:
        X.assume((t < x - 1e-6) | (t > x + 1e-6)) if X.symbolic else None
    def val(m):
        return np.sum(m * np.array([[0.2, 0.7, 0.4], [-0.3, 0.55, 0.9], [0.1, 0.35, 0.8]])[:len(m), :len(m)])
    got = g.equivalence_classes(lambda a, b: bool(val(a) < t) == bool(val(b) < t))
    low = [i for i, x in enumerate(v) if bool(x < t)]
    ref = [c for c in (low, [i for i in range(len(v)) if i not in low]) if c]
    num = sorted(sorted(i for m in c for i, o in enumerate(ops) if np.abs(np.array(m, dtype=float) - o).max() < 1e-6) for c in got)
    X.true("classes", num == sorted(ref))
