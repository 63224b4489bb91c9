"""C09: symmetrised hamiltonians"""
from symex.driver import harness, assumptions
from .common import *

assumptions("C09", "symmetry groups, representations, orbital positions and neighbor sets are enumerated, the coefficients are symbolic")

CASES = {
    # symmetry, orbitals (kind, position), neighbors
    "1d": (lambda M: M.symmetry.Symmetry.inv(1), [("s", (0.0,)), ("p", (-0.5,))], [(0.0,), (1.0,), (2.0,)]),
    "1d-3": (lambda M: M.symmetry.Symmetry.inv(1), [("p", (0.25,)), ("s", (-0.25,)), ("s", (0.25,))], [(0.0,), (1.0,)]),
    "2d": (lambda M: M.symmetry.Symmetry.o2(4), [("s", (0.0, 0.0)), ("p", (0.5, 0.5))], [(0, 0), (1, 0), (0, 1), (1, 1), (1, -1)]),
    "2d-same": (lambda M: M.symmetry.Symmetry.o2(4), [("s", (0.0, 0.0)), ("p", (0.0, 0.0))], [(0, 0), (1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (2, -1), (1, 2), (-1, 2)]),
    "2d-rot": (lambda M: M.symmetry.Symmetry.from_generator([[[0.0, -1.0], [1.0, 0.0]]], False), [("s", (0.5, 0.5)), ("p", (0.0, 0.0)), ("s", (0.0, 0.0))], [(0, 0), (1, 0), (0, 1)]),
    "hexagonal": (lambda M: M.symmetry.Symmetry.o2(6), [("p", (0.0, 0.0)), ("s", (0.0, 0.0))], [(0, 0), (1.0, 0.0), (0.5, 3**.5 / 2), (-0.5, 3**.5 / 2)]),
    "cubic": (lambda M: M.symmetry.Symmetry.cubic(True), [("s", (0.0, 0.0, 0.0)), ("p", (0.0, 0.0, 0.0))], [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]),
    "body": (lambda M: M.symmetry.Symmetry.cubic(True), [("s", (0.0, 0.0, 0.0)), ("s", (0.5, 0.5, 0.5))], [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (1, -1, 0)]),
    "d": (lambda M: M.symmetry.Symmetry.cubic(False), [("d3", (0.0, 0.0, 0.0)), ("s", (0.0, 0.0, 0.0))], [(0, 0, 0), (1, 1, 0), (1, -1, 0), (1, 0, 1), (1, 0, -1), (0, 1, 1), (0, 1, -1)]),
    "body-open": (lambda M: M.symmetry.Symmetry.cubic(True), [("s", (0.0, 0.0, 0.0)), ("s", (0.5, 0.5, 0.5))], [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]),
    "c2-open": (lambda M: M.symmetry.Symmetry.from_generator([np.diag([-1.0, -1.0, 1.0])], True), [("s", (0.0, 0.0, 0.0)), ("p", (0.5, 0.0, 0.5))], [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1)]),
    "d2": (lambda M: M.symmetry.Symmetry.cubic(True), [("d2", (0.0, 0.0, 0.0)), ("p", (0.5, 0.5, 0.5))], [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 1)]),
}
QUICK = ["1d", "1d-3", "2d", "2d-same", "2d-rot", "hexagonal", "cubic", "body", "d", "body-open", "c2-open"]


def build(M, case):
    sym, orb, nb = CASES[case]
    S = sym(M)
    h = M.hamiltonian_symmetry.HamiltonianSymmetry(S)
    for kind, pos in orb:
        getattr(h, "append_" + kind)(pos, kind)
    return S, h, orb, [np.array(r, dtype=float) for r in nb]


def ops(S, h, orb):
    """all operations with the representation matrix of every orbital, written out from the definition of the orbitals"""
    out = []
    for n, s in enumerate(S.S):
        s = np.array(s, dtype=float)
        for inv in ((1, -1) if S.inversion else (1,)):
            us = []
            for i, (kind, _) in enumerate(orb):
                if kind == "s":
                    us.append(np.eye(1))
                elif kind == "p":
                    us.append(s * inv)
                elif kind == "d3":
                    # documented: like the p orbitals without the sign of the inversion
                    us.append(s * np.linalg.det(s))
                else:
                    us.append(e2g(s))
            out.append((s * inv, us))
    return out


def e2g(s):
    """matrices of the functions (2zz-xx-yy)/sqrt3, xx-yy under a rotation"""
    f = [np.diag([-1.0, -1.0, 2.0]) / 6**.5, np.diag([1.0, -1.0, 0.0]) / 2**.5]
    # function g(x) = x^T m x, (S g)(x) = g(S^-1 x)
    return np.array([[np.sum(f[i] * (s @ f[j] @ s.T)) for j in range(2)] for i in range(2)])


def blocks_of(orb):
    """index ranges of the orbitals"""
    dim = {"s": 1, "d2": 2, "d3": 3}
    n, out = 0, []
    for kind, pos in orb:
        d = dim.get(kind, len(pos))
        out.append((n, n + d))
        n += d
    return out, n


def couplings(X, H, nb, orb):
    """all couplings (orbital, orbital, displacement) -> matrix of a hamiltonian with the neighbors nb (one of R and -R)"""
    bl, _ = blocks_of(orb)
    c = {}
    for i, (a, b) in enumerate(bl):
        for j, (p, q) in enumerate(bl):
            for r, m in zip(nb, H):
                d = r + np.array(orb[j][1]) - np.array(orb[i][1])
                c[i, j, tuple(np.round(d, 6) + 0.0)] = m[a:b, p:q]
            for r, m in zip(nb, H):
                d = -r + np.array(orb[j][1]) - np.array(orb[i][1])
                key = (i, j, tuple(np.round(d, 6) + 0.0))
                if np.any(r != 0):
                    c[key] = dag(m[p:q, a:b])
    return c


def key(d):
    return tuple(np.round(d, 6) + 0.0)


@harness("C09", cfgs=[dict(case=c, fast=f) for c in QUICK for f in (False, True)], thorough=[dict(case="d2", fast=f) for f in (False, True)], weight=2)
def hamiltonian(M, X, case, fast):
    """symmetrising with a HamiltonianSymmetry is the mean over all operations of the couplings, couplings which are mapped out of the neighbors vanish; the result has the symmetry and stays the same when symmetrised again"""
    S, h, orb, nb = build(M, case)
    bl, n = blocks_of(orb)
    H = hr(X, "H", nb, n)
    H0 = X.carray("Hx", (n, n))
    H = X.stack([H0] + [H[i] for i in range(1, len(nb))]) if X.symbolic else np.array([H0] + list(H[1:]))
    before = X.stack(list(H)) if X.symbolic else H.copy()
    P = h.symmetrizer(nb) if fast else lambda x: h.symmetrize(x, nb)
    R = P(H)
    X.eq("the argument stays", H, before)
    H_ = X.stack([(H0 + dag(H0)) / 2] + [H[i] for i in range(1, len(nb))]) if X.symbolic else np.array([(H0 + dag(H0)) / 2] + list(H[1:]))
    c = couplings(X, H_, nb, orb)
    r = couplings(X, R, nb, orb)
    G = ops(S, h, orb)
    for (i, j, d), m in r.items():
        # the orbitals are mapped onto themselves: h(Sd) = U h(d) U^+
        im = [(c.get((i, j, key(s @ np.array(d)))), u) for s, u in G]
        if any(x is None for x, _ in im):
            ref = np.zeros(np.shape(m))
        else:
            ref = 0.0
            for x, u in im:
                ref = ref + u[i].T @ x @ u[j]
            ref = ref / len(im)
        X.eq("group mean", m, ref)
    X.eq("unchanged when repeated", P(R), R)


@harness("C09", cfgs=[dict(case=c) for c in ("1d", "2d", "2d-rot")], weight=2)
def bands(M, X, case):
    """the symmetrised hamiltonian at the transformed k-point is the transformed hamiltonian, for every k"""
    S, h, orb, nb = build(M, case)
    bl, n = blocks_of(orb)
    H = hr(X, "H", nb, n)
    R = h.symmetrizer(nb)(H)
    k = [X.turn(f"k{i}") for i in range(len(nb[0]))]
    pos = [orb[i][1] for i, (a, b) in enumerate(bl) for _ in range(a, b)]

    def full(k):
        A = fourier(X, R, nb, k)
        def ph(i, j):
            return X.expi(sum(k[x] * (pos[j][x] - pos[i][x]) for x in range(len(k))))
        return X.stack([[A[i][j] * ph(i, j) for j in range(n)] for i in range(n)])
    Hk = full(k)
    for s, us in ops(S, h, orb):
        U = np.zeros((n, n))
        for (a, b), u in zip(bl, us):
            U[a:b, a:b] = u
        si = np.linalg.inv(s).T
        sk = [sum(float(np.round(si[i, j], 9)) * k[j] for j in range(len(k))) for i in range(len(k))]
        X.eq("symmetry", full(sk), U @ Hk @ U.T)


@harness("C09", cfgs=[dict(case=c) for c in ("1d", "2d", "2d-rot", "body")], weight=2)
def transformed(M, X, case):
    """apply and realize_symmetric give the hamiltonian at the transformed k-points for every symmetric hamiltonian"""
    S, h, orb, nb = build(M, case)
    bl, n = blocks_of(orb)
    H = hr_herm(X, "H", nb, n)
    R = h.symmetrizer(nb)(H)
    dim = len(nb[0])
    k = np.array([0.15, 0.35, -0.2])[:dim]
    Hk = fourier(X, R, nb, k)
    for i, s in enumerate(S.S):
        for inv in ((False, True) if S.inversion else (False,)):
            sk = np.linalg.inv(s).T @ k * (-1 if inv else 1)
            X.eq("apply", h.apply(k, Hk, i, inv), fourier(X, R, nb, sk))
    pts = [k, np.ones(dim) * 0.1]
    fk, fH, order = h.realize_symmetric(np.array(pts), X.stack([Hk, fourier(X, R, nb, pts[1])]))
    want = {key(s @ p) for p in pts for s, _ in ops(S, h, orb)}
    X.eq("points", sorted(key(x) for x in fk), sorted(want))
    for x, m, o in zip(fk, fH, order):
        X.eq("hamiltonian", m, fourier(X, R, nb, x))
        X.true("source", any(np.allclose(s @ pts[o], x) for s, _ in ops(S, h, orb)))


# ---- unitary representations (all orbitals at the origin) -------------------------------------------------------------
REPS = {
    "s+p": (lambda R: R.one_dim(False, False) + R.o3(), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)]),
    "p+s": (lambda R: R.o3() + R.one_dim(False, False), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)]),
    "a+e": (lambda R: R.one_dim(True, True) + R.d3(False), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 1), (1, 1, -1), (1, -1, 1), (1, -1, -1)]),
    "r": (lambda R: R.o3r() + R.o3ri(), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)]),
    "2s": (lambda R: (R.one_dim(True, False) + R.one_dim(False, True)) * 2, [(0, 0, 0), (0, 1, 1), (0, 1, -1), (1, 0, 1), (1, 0, -1), (1, 1, 0), (1, -1, 0)]),
    "rot": (lambda R: R.one_dim(True, False, False) + R.d3(False, False), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, -1), (0, -1, 0), (-1, 0, 0)]),
    "v+p": (lambda R: R.so3() + R.o3(), [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)]),
    "chiral": (lambda R: R.one_dim(False, False) + R.one_dim(True, True), [(0, 0, 0), (3, 2, 1)]),
}


def rep_ops(u):
    """all operations with their full matrix"""
    n, k = u.dim(), u.inv_split
    UI = np.diag([1.0] * k + [-1.0] * (n - k))
    for s, m in zip(u.sym.S, u.U):
        yield np.array(s, dtype=float), np.array(m)
        if u.sym.inversion:
            yield -np.array(s, dtype=float), UI @ np.array(m)


@harness("C09", cfgs=[dict(case=c, fast=f) for c in REPS for f in (False, True)], weight=2)
def representation(M, X, case, fast):
    """symmetrising with a UnitaryRepresentation is the mean over all operations of U^+ H(Sr) U, with H(-r) from the inversion"""
    make_, nb = REPS[case]
    u = make_(M.unitary_representations.UnitaryRepresentation)
    if case == "chiral":
        nb = u.sym.complete_neighbors(nb)
    nb = [np.array(r, dtype=float) for r in nb]
    n, k = u.dim(), u.inv_split
    UI = np.diag([1.0] * k + [-1.0] * (n - k))
    H = X.carray("H", (len(nb), n, n))
    P = u.symmetrizer(nb) if fast else lambda x: u.symmetrize(x, nb)
    R = P(H)

    def full(A):
        c = {key(r): A[i] for i, r in enumerate(nb)}
        if u.sym.inversion:
            for i, r in enumerate(nb):
                if np.any(r != 0):
                    c[key(-r)] = UI @ A[i] @ UI
        return c
    c, r = full(H), full(R)
    G = list(rep_ops(u))
    X.eq("order", len(G), 48 if u.sym.inversion else 24)
    for d in c if case != "chiral" else list(c)[:6]:
        ref = 0.0
        for s, m in G:
            ref = ref + m.T @ c[key(s @ np.array(d))] @ m
        X.eq("group mean", r[d], ref / len(G))
    if case != "chiral":
        X.eq("unchanged when repeated", P(R), R)


@harness("C09", cfgs=[dict(case=c) for c in ("s+p", "a+e", "rot")])
def little_group(M, X, case):
    """symmetrize2 is the mean over the operations which keep the position; realize_symmetric_matrices transforms with the operation"""
    u = REPS[case][0](M.unitary_representations.UnitaryRepresentation)
    n, k = u.dim(), u.inv_split
    pts = np.array([[0.0, 0.0, 0.0], [0.0, 0.25, 0.0], [0.25, 0.25, 0.25], [0.1, 0.1, 0.3], [0.1, 0.2, 0.3]])
    H = X.carray("H", (len(pts), n, n))
    R = u.symmetrize2(pts, H)
    G = list(rep_ops(u))
    for p, h, r in zip(pts, H, R):
        st = [m for s, m in G if np.allclose(s @ p, p)]
        ref = 0.0
        for m in st:
            ref = ref + m @ h @ m.T
        X.eq("mean over the little group", r, ref / len(st))
    fk, F = u.realize_symmetric_matrices(pts[3:], R[3:])
    fk2, F2 = u.realize_symmetric_matrices(pts[3:], R[3:], sorted=False)
    X.eq("points", sorted(key(x) for x in fk), sorted({key(s @ p) for p in pts[3:] for s, _ in G}))
    for ks, ms in ((fk, F), (fk2, F2)):
        for x, m in zip(ks, ms):
            for s, v in G:
                for i in (3, 4):
                    if np.allclose(s @ pts[i], x):
                        X.eq("transformed", m, v @ R[i] @ v.T)


@harness("C09", cfgs=[dict(case=c) for c in ("generator", "sum", "product", "flipped", "multiple", "permute", "match")])
def algebra(M, X, case):
    """representations stay homomorphisms in sums, products, multiples, permutations and when they are generated, with the inversion in the center"""
    S = M.symmetry.Symmetry
    R = M.unitary_representations.UnitaryRepresentation
    # basis of the representation rotated by every angle
    t = X.angle("t")
    c, s = np.cos(t), np.sin(t)
    B = X.stack([[c, -s], [s, c]])
    Bt = X.stack([[c, s], [-s, c]])
    def rotated(neg, inv=True):
        r = R.d3(neg, inv)
        r.U = X.stack([B @ m @ Bt for m in r.U])
        return r
    k3 = 3**.5
    if case == "generator":
        Sg = [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 1, 0), (-1, 0, 0), (0, 0, 1)), ((0, 0, -1), (0, 1, 0), (1, 0, 0)), ((1, 0, 0), (0, 0, 1), (0, -1, 0))]
        Ug = [((1, 0), (0, 1)), ((1, 0), (0, -1)), ((-.5, .5 * k3), (.5 * k3, .5)), ((-.5, -.5 * k3), (-.5 * k3, .5))]
        u = R.from_generator(Sg, Ug, True, True)
        u.U = X.stack([B @ m @ Bt for m in u.U])
        ref, split = 2, 0
    elif case == "sum":
        u = R.o3() + (R.one_dim(True, False) + rotated(False))
        ref, split = 6, 3
        # the even part first
        chars = [np.trace(np.array(m)) for m in R.o3().U]
        X.eq("odd part", u.U[:, 3:, 3:], R.o3().U)
    elif case == "product":
        u = (R.one_dim(True, False) + rotated(True)) * R.o3()
        ref, split = 9, 6
    elif case == "flipped":
        u = R.o3() * (R.one_dim(True, False) + rotated(True))
        ref, split = 9, 6
    elif case == "multiple":
        u = (R.one_dim(True, False) + rotated(True)) * 2
        ref, split = 6, 2
    elif case == "permute":
        u = R.one_dim(True, False) + rotated(True)
        u.permute([0, 2, 1])
        ref, split = 3, 1
    else:
        u = rotated(False)
        other = S.cubic(True)
        other = S(np.array([np.array(other.S[i], dtype=float) for i in [0] + list(range(5, 24)) + list(range(1, 5))]), True)
        u.match_sym(other)
        X.eq("operations", [np.array(m) for m in u.sym.S], [np.array(m) for m in other.S])
        ref, split = 2, 2
    X.eq("dimension", u.dim(), ref)
    X.eq("inversion", u.inv_split, split)
    UI = np.diag([1.0] * split + [-1.0] * (ref - split))
    mats = [np.array([[float(x) for x in row] for row in m]) for m in u.sym.S]
    look = {key(m.reshape(-1)): i for i, m in enumerate(mats)}
    X.eq("order", len(look), 24)
    for i, a in enumerate(mats):
        X.eq("unitary", u.U[i] @ u.U[i].T, np.eye(ref))
        X.eq("center", UI @ u.U[i], u.U[i] @ UI)
        if i % 5 == 0:
            for j, b in enumerate(mats):
                X.eq("homomorphism", u.U[i] @ u.U[j], u.U[look[key((a @ b).reshape(-1))]])
    X.eq("accepted", u.check(), True)


@harness("C09", cfgs=[dict(case=c) for c in ("2d", "body")])
def copy(M, X, case):
    """a copy symmetrises in the same way, orbitals appended to the copy leave the original"""
    S, h, orb, nb = build(M, case)
    n = blocks_of(orb)[1]
    H = hr_herm(X, "H", nb, n)
    want = h.symmetrize(H, nb)
    c = h.copy()
    X.eq("copy", c.symmetrize(H, nb), want)
    c.append_s((0.0,) * len(nb[0]), "another")
    X.eq("original", h.symmetrize(H, nb), want)
    X.eq("dimension", c.dim(), n + 1)
    G = hr_herm(X, "G", nb, n + 1)
    h.append_s((0.0,) * len(nb[0]), "another")
    X.eq("appended", c.symmetrize(G, nb), h.symmetrize(G, nb))


@harness("C09", cfgs=[dict(case=c) for c in ("s+p", "a+e", "rot", "v+p")])
def check_symmetry(M, X, case):
    """check_symmetry accepts every symmetrised hamiltonian at every sampled k-point, and notices that a single operation or only the inversion is broken"""
    make_, nb = REPS[case]
    u = make_(M.unitary_representations.UnitaryRepresentation)
    nb = [np.array(r, dtype=float) for r in nb]
    n, p = u.dim(), u.inv_split
    UI = np.diag([1.0] * p + [-1.0] * (n - p))
    H = X.array("H", (len(nb), n, n), -1, 1)
    H = X.stack([H[i] + H[i].T if not np.any(r) else H[i] for i, r in enumerate(nb)])
    R = u.symmetrize(H, nb)

    def make(R):
        def hamilton(k):
            out = []
            for q in k:
                m = 0.0
                for i, r in enumerate(nb):
                    z = X.expi(sum(q[j] * float(r[j]) for j in range(3)))
                    m = m + R[i] * z
                    if u.sym.inversion and np.any(r):
                        m = m + (UI @ R[i] @ UI) * X.conj(z)
                out.append(m)
            return X.stack(out)
        return hamilton
    k = X.stack([X.turn("k0"), 0.15, -0.35])
    with Points([k]):
        X.true("accepted", u.check_symmetry(make(R)))
    # a term which has only a part of the symmetry
    e = X.real("e", 0.1, 1)
    z = np.zeros((n, n))
    z[n - 1, n - 1] = 1.0
    def broken(k):
        return X.stack([m + z * e * np.cos(q[0] * 2 * np.pi) for m, q in zip(make(R)(k), k)])
    with Points([np.array([0.1, 0.2, 0.45])]):
        X.eq("direction", bool(u.check_symmetry(broken)), False)
    if u.sym.inversion and 0 < p < n:
        z = np.zeros((n, n))
        z[:p, p:], z[p:, :p] = np.eye(p, n - p), np.eye(n - p, p)
        z = np.mean([np.array(m).T @ z @ np.array(m) for m in u.U], axis=0)
        if np.abs(z).max() > 1e-3:
            def broken2(k):
                return X.stack([m + z * e for m in make(R)(k)])
            with Points([np.array([0.1, 0.2, 0.45])]):
                X.eq("inversion", bool(u.check_symmetry(broken2)), False)


@harness("C09", cfgs=[dict(case=c) for c in ("o3", "so3")])
def own_matrices(M, X, case):
    """reordering the basis of a vector representation leaves the operations of its group"""
    R = M.unitary_representations.UnitaryRepresentation
    u = getattr(R, case)()
    S = np.array([[[float(x) for x in r] for r in m] for m in u.sym.S])
    r = X.array("r", 3, -1, 1)
    before = [s @ r for s in S]
    u.permute([2, 0, 1])
    X.eq("operations", [s @ r for s in u.sym.S], before)
    P = np.eye(3)[[2, 0, 1]]
    X.eq("matrices", [m @ r for m in u.U], [P @ s @ P.T @ r for s in S])


Z4 = [[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]
HEX = [[0.5, -3**.5 / 2, 0.0], [3**.5 / 2, 0.5, 0.0], [0.0, 0.0, 1.0]]
MX = [np.diag([-1.0, 1.0, 1.0]), np.diag([1.0, -1.0, 1.0]), np.diag([1.0, 1.0, -1.0])]
# generators, matrices of the generators ("v": the in plane part, in a frame of every angle), inversion, sign of the inversion
GENERATED = {
    "c4": ([Z4], [[[1j]]], False, 1),
    "c4h": ([Z4], [[[-1j]]], True, -1),
    "with identity": ([np.eye(3), Z4], [np.eye(1), [[-1]]], False, 1),
    "twice": ([Z4, Z4], [[[1j]], [[1j]]], True, 1),
    "d2": ([np.diag([-1.0, -1.0, 1.0]), np.diag([1.0, -1.0, -1.0])], [[[1]], [[-1]]], False, 1),
    "d4": ([Z4, np.diag([1.0, -1.0, -1.0])], "v", False, 1),
    "d6": ([HEX, np.diag([1.0, -1.0, -1.0])], "v", True, -1),
    "c6": ([HEX], [[[0.5 - 3**.5 / 2 * 1j]]], False, 1),
    "mirrors": (MX, [[[-1]], [[1]], [[1]]], False, 1),
    "mirrors odd": (MX, MX, False, 1),
    "line": ([np.diag([-1.0, 1.0])], [[[-1]]], True, -1),
    "plane": ([[[0.0, -1.0], [1.0, 0.0]]], [[[1j]]], True, -1),
}


def generated_ops(M, X, case):
    """the generated representation and the list of all (operation, matrix) from products of the generators"""
    gens, mats, inv, sign = GENERATED[case]
    gens = [np.array(g, dtype=float) for g in gens]
    if isinstance(mats, str):
        t = X.angle("t")
        c, s = np.cos(t), np.sin(t)
        B, Bt = X.stack([[c, -s], [s, c]]), X.stack([[c, s], [-s, c]])
        mats = [g[:2, :2] for g in gens]
    else:
        B = Bt = None
    mats = [np.array(m) for m in mats]
    # the code gets lists, which start with a copy to keep them
    u = M.unitary_representations.UnitaryRepresentation.from_generator([g.copy() for g in gens], [m.copy() for m in mats], inv, sign < 0)
    n = len(mats[0])
    full = [(np.eye(len(gens[0])), np.eye(n))]
    if inv:
        gens, mats = gens + [-np.eye(len(gens[0]))], mats + [sign * np.eye(n)]
    todo = list(full)
    while todo:
        a, v = todo.pop()
        for g, w in zip(gens, mats):
            b = g @ a
            if all(np.abs(b - o).max() > 1e-6 for o, _ in full):
                full.append((b, w @ v))
                todo.append(full[-1])
    if B is not None:
        u.U = X.stack([B @ m @ Bt for m in u.U])
        full = [(s, B @ m @ Bt) for s, m in full]
    return u, full


@harness("C09", cfgs=[dict(case=c) for c in GENERATED])
def generated(M, X, case):
    """the representation made from generators (with or without the neutral element, complex, with floating point rotations or mirrors) contains all of
    the products of the generators with the products of their matrices"""
    u, full = generated_ops(M, X, case)
    S = [np.array(s, dtype=float) for s in u.sym.S]
    X.eq("one matrix per operation", len(u.U), len(S))
    X.eq("order", len(S) * (2 if u.sym.inversion else 1), len(full))
    n, k = u.dim(), u.inv_split
    have = list(zip(S, u.U))
    if u.sym.inversion:
        UI = np.diag([1.0] * k + [-1.0] * (n - k))
        have += [(-s, UI @ m) for s, m in zip(S, u.U)]
    for s, m in full:
        i = [j for j, (o, _) in enumerate(have) if np.abs(o - s).max() < 1e-6]
        X.eq("contained once", len(i), 1)
        if len(i) == 1:
            X.eq("matrix", have[i[0]][1], m)
    X.eq("accepted", u.check(), True)


@harness("C09", cfgs=[dict(case=c, fast=f) for c in ("c4", "c4h", "twice") for f in (False, True)])
def complex_orbitals(M, X, case, fast):
    """complex representations of rotations next to an s orbital: symmetrised hamiltonians are the group mean, apply gives them at the transformed k-point"""
    u, full = generated_ops(M, X, case)
    h = M.hamiltonian_symmetry.HamiltonianSymmetry(u.sym)
    h.append(u, (0.0, 0.0, 0.0), "phase")
    h.append_s((0.0, 0.0, 0.0), "s")
    nb = [np.array(r, dtype=float) for r in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1))]
    H = hr_herm(X, "H", nb, 2)
    P = h.symmetrizer(nb) if fast else lambda x: h.symmetrize(x, nb)
    R = P(H)
    orb = [("phase", (0.0, 0.0, 0.0)), ("s", (0.0, 0.0, 0.0))]
    orb = [("s", p) for _, p in orb]
    c, r = couplings(X, H, nb, orb), couplings(X, R, nb, orb)
    for (i, j, d), m in r.items():
        ref = 0.0
        for s, v in full:
            w = [v[0, 0], 1.0]
            ref = ref + np.conj(w[i]) * c[i, j, key(s @ np.array(d))] * w[j]
        X.eq("group mean", m, ref / len(full))
    X.eq("unchanged when repeated", P(R), R)
    k = np.array([0.15, 0.35, -0.2])
    Hk = fourier(X, R, nb, k)
    for i, s in enumerate(u.sym.S):
        for inv in ((False, True) if u.sym.inversion else (False,)):
            sk = np.linalg.inv(np.array(s, dtype=float)).T @ k * (-1 if inv else 1)
            X.eq("apply", h.apply(k, Hk, i, inv), fourier(X, R, nb, sk))


@harness("C09", cfgs=[dict(case=c, fast=f) for c in ("c4", "c4h", "twice", "c6") for f in (False, True)])
def complex_representation(M, X, case, fast):
    """symmetrising with complex representations: mean over the operations of U^+ H(Sr) U; little groups and transformed matrices use U H U^+"""
    u, full = generated_ops(M, X, case)
    one = M.unitary_representations.UnitaryRepresentation(u.sym, 1)
    sign = 1.0 if u.inv_split else -1.0
    # the even part comes first
    order = [0, 1] if sign > 0 else [1, 0]
    u = u + one
    ops_ = [(s, np.diag([[v[0, 0], 1.0][i] for i in order])) for s, v in full]
    star = {key(np.round(s @ np.array([1.0, 0.0, 0.0]), 9)): s @ np.array([1.0, 0.0, 0.0]) for s, _ in full}
    nb = [np.zeros(3), np.array([0.0, 0.0, 1.0])] + [r for r in star.values()]
    if u.sym.inversion:
        nb = nb[:2] + [r for i, r in enumerate(nb[2:]) if not any(np.allclose(r, -x) for x in nb[2:][:i])]
    H = X.carray("H", (len(nb), 2, 2))
    R = u.symmetrizer(nb)(H) if fast else u.symmetrize(H, nb)
    UI = np.diag([1.0] * u.inv_split + [-1.0] * (2 - u.inv_split))

    def look(A, r):
        for x, a in zip(nb, A):
            if np.allclose(x, r):
                return a
        for x, a in zip(nb, A):
            if u.sym.inversion and np.allclose(-x, r):
                return UI @ a @ UI
        raise KeyError(r)
    for r, m in zip(nb, R):
        ref = 0.0
        for s, v in ops_:
            ref = ref + np.conj(v.T) @ look(H, s @ r) @ v
        X.eq("group mean", m, ref / len(ops_))
    def hamilton(ks):
        out = []
        for q in ks:
            m = 0.0
            for r, x in zip(nb, R):
                z = X.expi(sum(q[j] * float(r[j]) for j in range(3)))
                m = m + x * z
                if u.sym.inversion and np.any(r):
                    m = m + (UI @ x @ UI) * X.conj(z)
            out.append(m)
        return X.stack(out)
    with Points([np.array([0.15, 0.35, -0.2])]):
        X.true("accepted", u.check_symmetry(hamilton))
    pts = np.array([[0.0, 0.0, 0.3], [0.1, 0.2, 0.3]])
    F = X.carray("F", (2, 2, 2))
    L = u.symmetrize2(pts, F)
    for p, f, m in zip(pts, F, L):
        st = [v for s, v in ops_ if np.allclose(s @ p, p)]
        X.eq("little group", m, sum(v @ f @ np.conj(v.T) for v in st) / len(st))
    fk, W = u.realize_symmetric_matrices(pts[1:], F[1:])
    X.eq("points", sorted(key(x) for x in fk), sorted({key(s @ pts[1]) for s, _ in ops_}))
    for x, m in zip(fk, W):
        for s, v in ops_:
            if np.allclose(s @ pts[1], x):
                X.eq("transformed", m, v @ F[1] @ np.conj(v.T))


@harness("C09", cfgs=[dict(case=c) for c in ("s+p", "complex", "1d")], thorough=[dict(case=c) for c in ("a+e", "2d")])
def argument_forms(M, X, case):
    """lists, integer matrices and real matrices are symmetrised like the complex arrays with these entries; the argument stays"""
    if case in REPS or case == "complex":
        if case == "complex":
            u, _ = generated_ops(M, X, "c4")
            u = u + M.unitary_representations.UnitaryRepresentation(u.sym, 1)
            nb = [np.array(r, dtype=float) for r in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1))]
            nb = nb if u.sym.inversion else nb + [-r for r in nb[1:]]
        else:
            make_, nb = REPS[case]
            u = make_(M.unitary_representations.UnitaryRepresentation)
        n = u.dim()
        nb = np.array(nb, dtype=float)
        funcs = [("symmetrize", lambda x: u.symmetrize(x, nb)), ("symmetrizer", u.symmetrizer(nb)), ("symmetrize2", lambda x: u.symmetrize2(nb, x))]
    else:
        S, h, orb, nb = build(M, case)
        n = blocks_of(orb)[1]
        funcs = [("symmetrize", lambda x: h.symmetrize(x, nb)), ("symmetrizer", h.symmetrizer(nb))]
    shape = (len(nb), n, n)
    real = X.array("H", shape)
    whole = np.array([(7 * i + i * i) % 5 - 2 for i in range(len(nb) * n * n)]).reshape(shape)
    imag = np.zeros(shape) * 1j
    for name, P in funcs:
        X.eq("real " + name, P(real), P(real + imag))
        X.eq("lists " + name, P([[list(r) for r in m] for m in real]), P(real + imag))
        X.eq("integers " + name, P(whole), P(whole + imag))
        X.eq("lists of integers " + name, P(whole.tolist()), P(whole + imag))
        X.eq("argument", whole, np.array([(7 * i + i * i) % 5 - 2 for i in range(len(nb) * n * n)]).reshape(shape))
