"""C25: Slater-Koster models"""
from symex.driver import harness, assumptions
from .common import *
from . import c09

assumptions("C25", "symmetry groups, orbitals, lattices and cutoff radii are enumerated, the hamiltonians, parameters and two-centre integrals are symbolic")

CASES = ["1d", "1d-3", "2d", "2d-same", "2d-rot", "hexagonal", "cubic", "body", "d", "body-open", "c2-open"]


def start(M, X, case, unique):
    S, h, orb, nb = c09.build(M, case)
    if unique:
        h.names = [f"{n}{i}_" for i, n in enumerate(h.names)]
    sk = M.slater_koster.SlaterKoster(h, nb)
    n = h.dim()
    P = h.symmetrizer(nb)
    H = hr(X, "H", nb, n)
    return sk, P, P(H), nb, n


@harness("C25", cfgs=[dict(case=c, unique=u) for c in CASES for u in (False, True)], thorough=[dict(case="d2", unique=u) for u in (False, True)], weight=2)
def complete(M, X, case, unique):
    """setting all parameters to the entries of a symmetric hamiltonian gives that hamiltonian: the parameters are complete and independent, their names are unique"""
    sk, P, H, nb, n = start(M, X, case, unique)
    ps = sk.parameters()
    X.eq("neighbors", np.array(sk.neighbors), np.array(nb))
    for k, i, j, fac in ps.values():
        sk.set_parameter((k, i, j, fac), H[k][i, j])
    X.eq("hamiltonian", sk.model.params, H)
    # number of parameters: every independent entry once
    X.true("every entry once", len({t[:3] for t in ps.values()}) == len(ps))


@harness("C25", cfgs=[dict(case=c) for c in CASES], thorough=[dict(case="d2")], weight=2)
def setting(M, X, case):
    """setting one parameter of a model changes the entry to the value, no other parameter, and the model keeps the symmetry, for the first and every further call"""
    sk, P, H, nb, n = start(M, X, case, True)
    ps = list(sk.parameters().values())
    sk.model.params = H
    picks = sorted({0, len(ps) // 2, len(ps) - 1})
    for c in picks:
        k, i, j, fac = ps[c]
        for step in range(2):
            v = X.real(f"v{c}{step}", lo=-2, hi=2)
            if isinstance(fac, complex):
                v = v + 1j * X.real(f"w{c}{step}", lo=-2, hi=2)
            elif not np.any(real_entry(sk, P, k, i, j)):
                v = 1j * v
            before = [sk.model.params[a][b, d] for a, b, d, _ in ps]
            sk.set_parameter(ps[c], v)
            X.eq("value", sk.model.params[k][i, j], v)
            for e, (a, b, d, _) in enumerate(ps):
                if e != c:
                    X.eq("other parameters", sk.model.params[a][b, d], before[e])
            X.eq("symmetric", P(sk.model.params), sk.model.params)


def real_entry(sk, P, k, i, j):
    """is the entry allowed to be real?"""
    d = np.zeros(np.shape(sk.model.params), dtype=complex)
    d[k][i, j] = 1.0
    return [abs(complex(P(d)[k][i, j])) > 1e-6]


def two_center(o1, o2, x, v):
    """<o1|H|o2> in the two-centre approximation, x is the vector from o1 to o2 and v the integrals at that distance"""
    r = np.linalg.norm(x)
    ax = {"px": 0, "py": 1, "pz": 2}
    if r < 1e-6:
        return v["e" + o1[0]] if o1 == o2 else 0.0
    l = np.array(x) / r
    if o1 == o2 == "s":
        return v["sss"]
    if o1 == "s":
        return v["sps"] * l[ax[o2]]
    if o2 == "s":
        return -1 * v["sps"] * l[ax[o1]]
    a, b = ax[o1], ax[o2]
    return (v["pps"] - v["ppp"]) * (l[a] * l[b]) + (v["ppp"] if a == b else 0.0)


FCC = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2


def group(M, full, dim):
    S = M.symmetry.Symmetry
    return S.square() if full == "square" else S.inv(1) if full == "1d" else S.cubic(True) if full else S.none(dim)


SUB = {"s": ["s"], "p": ["px", "py", "pz"]}
LATTICES = {
    # lattice, basis, cutoff, full cubic group or none
    "sc": (np.eye(3), [("A", "sp", (0, 0, 0))], 1.1, True),
    "sc-2": (np.eye(3), [("A", "sp", (0, 0, 0))], 1.5, True),
    "fcc": (FCC, [("A", "sp", (0, 0, 0))], 0.8, True),
    "nacl": (FCC, [("A", "s", (0, 0, 0)), ("B", "p", (0.5, 0.5, 0.5))], 0.9, True),
    "cscl": (np.eye(3), [("A", "s", (0, 0, 0)), ("B", "sp", (0.5, 0.5, 0.5))], 1.1, True),
    "square": (np.eye(2), [("A", "sp", (0, 0))], 1.5, "square"),
    "chain": (np.eye(1), [("A", "sp", (0,)), ("B", "s", (0.5,))], 1.1, "1d"),
    "zns": (FCC, [("A", "s", (0, 0, 0)), ("B", "sp", (0.25, 0.25, 0.25))], 0.8, False),
}


def integrals(X, basis, D, A):
    """symbolic integrals per pair of species and distance"""
    v = {}

    def get(n1, n2, r):
        pair = tuple(sorted((n1, n2)))
        key = (pair, round(float(r), 4))
        if key not in v:
            name = "".join(pair) + str(len(v))  # not zero, as neighbors without a coupling are removed
            v[key] = {k: X.real(f"{k}_{name}", lo=0.1, hi=2) for k in (("es", "ep") if r < 1e-6 else ("sss", "sps", "pps", "ppp"))}
        return v[key]
    return get


def orbitals(A, basis):
    return [(n, a, A @ np.array(p, dtype=float)) for n, o, p in basis for x in o for a in SUB[x][:len(A)]]


def table(X, sk, A, basis, D, get):
    orbs = orbitals(A, basis)
    ref = []
    for r in np.array(sk.neighbors, dtype=float):
        rows = []
        for n1, a, p1 in orbs:
            row = []
            for n2, b, p2 in orbs:
                x = -(r + p1 - p2)
                d = np.linalg.norm(x)
                row.append(two_center(a, b, x, get(n1, n2, d)) if d <= D + 1e-6 else 0.0)
            rows.append(row)
        ref.append(rows)
    return X.stack(ref)


def check_neighbors(X, sk, A, basis, D):
    """no neighbor with a coupling is missing, except those outside of the documented range of lattice vectors"""
    orbs = orbitals(A, basis)
    got = {tuple(np.round(r, 6) + 0.0) for r in np.array(sk.neighbors, dtype=float)}
    for g in np.ndindex((5,) * len(A)):
        n = A @ (np.array(g) - 2.0)
        if np.linalg.norm(n) > D:
            continue
        X.true("neighbor", tuple(np.round(n, 6) + 0.0) in got or tuple(np.round(-n, 6) + 0.0) in got)


@harness("C25", cfgs=[dict(lat=l, partial=p) for l in LATTICES for p in (False, True)], weight=2)
def functions(M, X, lat, partial):
    """from_orbitals puts the integral functions at the right places; integrals which follow from the symmetry of the lattice can be left out"""
    A, basis, D, full = LATTICES[lat]
    sym = group(M, full, len(A))
    get = integrals(X, basis, D, A)

    def function(n1, n2, a, b):
        def f(x):
            r = np.linalg.norm(np.array(x, dtype=float))
            return two_center(a, b, -np.array(x, dtype=float), get(n1, n2, r)) if r <= D else 0.0
        return f
    I = {}
    for n1, o1, _ in basis:
        for n2, o2, _ in basis:
            for a in [y for x in o1 for y in SUB[x][:len(A)]]:
                for b in [y for x in o2 for y in SUB[x][:len(A)]]:
                    if partial and redundant(n1, n2, a, b, I, full):
                        continue
                    I[f"{n1}/{n2}:V_{a}_{b}"] = function(n1, n2, a, b)
    sk = M.slater_koster.SlaterKoster.from_orbitals(A, sym, basis, I, D)
    X.eq("hamiltonian", sk.model.params, table(X, sk, A, basis, D, get))
    check_neighbors(X, sk, A, basis, D)
    X.true("size", sk.hsym.dim() == len(orbitals(A, basis)))


def redundant(n1, n2, a, b, I, full):
    if f"{n2}/{n1}:V_{b}_{a}" in I:
        return True
    if not full:
        return False
    pa, pb = a[-1] if a != "s" else "", b[-1] if b != "s" else ""
    if pa and pb:
        # xx and xy (and the mixed elements of different species) are enough
        return (pa, pb) not in (("x", "x"), ("x", "y"))
    return (pa or pb) not in ("", "x")


def shells(A, basis, D):
    """all vectors n + A(pos1 - pos2) per pair of species"""
    out = {}
    dim = len(A)
    for n1, _, p1 in basis:
        for n2, _, p2 in basis:
            v = out.setdefault((n1, n2), [])
            for g in np.ndindex((7,) * dim):
                n = A @ (np.array(g) - 3.0)
                if np.linalg.norm(n) > D + 1e-6:
                    continue
                x = n + A @ (np.array(p1, dtype=float) - np.array(p2, dtype=float))
                if np.linalg.norm(x) <= D + 1e-6:
                    v.append(x)
    return out


@harness("C25", cfgs=[dict(lat=l, partial=p) for l in LATTICES for p in (False, True)], weight=2)
def dictionaries(M, X, lat, partial):
    """integrals can be given as dictionaries of vectors, vectors and integrals which follow from the symmetry can be left out"""
    A, basis, D, full = LATTICES[lat]
    sym = group(M, full, len(A))
    get = integrals(X, basis, D, A)
    sh = shells(A, basis, D)
    I = {}
    for n1, o1, _ in basis:
        for n2, o2, _ in basis:
            for a in [y for x in o1 for y in SUB[x][:len(A)]]:
                for b in [y for x in o2 for y in SUB[x][:len(A)]]:
                    if partial and redundant(n1, n2, a, b, I, full):
                        continue
                    f = {}
                    for x in sh[n1, n2]:
                        if partial and full and np.any(x < -1e-6) and any(np.linalg.norm(np.abs(x) - y) < 1e-6 for y in sh[n1, n2]):
                            # the vector with positive components is enough
                            continue
                        f[tuple(x)] = two_center(a, b, -x, get(n1, n2, np.linalg.norm(x)))
                    I[f"{n1}/{n2}:V_{a}_{b}"] = f
    sk = M.slater_koster.SlaterKoster.from_orbitals(A, sym, basis, I, D)
    X.eq("hamiltonian", sk.model.params, table(X, sk, A, basis, D, get))
    check_neighbors(X, sk, A, basis, D)


@harness("C25", cfgs=[dict(lat=l, kind=k) for l in ("sc", "sc-2", "fcc", "cscl", "square") for k in ("s", "sym")])
def lists(M, X, lat, kind):
    """integrals which only depend on the distance can be given as lists over all distances"""
    A, basis, D, full = LATTICES[lat]
    basis = [(n, "s", p) for n, _, p in basis]
    sym = group(M, full, len(A))
    sh = shells(A, basis, D)
    dist = sorted({round(float(np.linalg.norm(x)), 5) for v in sh.values() for x in v})
    I, val = {}, {}
    species = sorted({n for n, _, _ in basis})
    for n1 in species:
        for n2 in species:
            if n2 < n1:
                if kind == "sym":
                    continue
                I[f"{n1}/{n2}:V_s_s"] = list(I[f"{n2}/{n1}:V_s_s"])
                continue
            # the last distance is left out: no coupling
            v = [X.real(f"{n1}{n2}{i}", lo=0.1, hi=2) for i in range(len(dist) - (kind == "s"))]
            I[f"{n1}/{n2}:V_s_s"] = v
            val[n1, n2] = val[n2, n1] = v
    sk = M.slater_koster.SlaterKoster.from_orbitals(A, sym, basis, I, D)
    ref = []
    for r in np.array(sk.neighbors, dtype=float):
        rows = []
        for n1, _, p1 in basis:
            row = []
            for n2, _, p2 in basis:
                d = round(float(np.linalg.norm(r + A @ (np.array(p1, dtype=float) - np.array(p2, dtype=float)))), 5)
                v = val[n1, n2]
                row.append(v[dist.index(d)] if d in dist and dist.index(d) < len(v) else 0.0)
            rows.append(row)
        ref.append(rows)
    X.eq("hamiltonian", sk.model.params, X.stack(ref))


@harness("C25", cfgs=[dict(lat=l) for l in ("sc", "fcc", "square", "chain", "cscl")], weight=2)
def symmetric(M, X, lat):
    """the model of two-centre integrals has the symmetry of its HamiltonianSymmetry, and its parameters can be read and set back"""
    A, basis, D, full = LATTICES[lat]
    sym = group(M, full, len(A))
    get = integrals(X, basis, D, A)
    if len(basis) > 1:
        # one atom per cell, the cutoff on lattice vectors breaks the symmetry of the others
        basis = basis[:1]

    def function(n1, n2, a, b):
        def f(x):
            r = np.linalg.norm(np.array(x, dtype=float))
            return two_center(a, b, -np.array(x, dtype=float), get(n1, n2, r)) if r <= D else 0.0
        return f
    I = {f"{n1}/{n2}:V_{a}_{b}": function(n1, n2, a, b) for n1, o1, _ in basis for n2, o2, _ in basis
         for x in o1 for a in SUB[x][:len(A)] for y in o2 for b in SUB[y][:len(A)]}
    sk = M.slater_koster.SlaterKoster.from_orbitals(A, sym, basis, I, D)
    H = sk.model.params.copy()
    X.eq("symmetric", sk.symmetrizer(sk.model.params), H)
    ps = sk.parameters(real=True)
    sk.model.params = np.zeros_like(H)
    for k, i, j, fac in ps.values():
        sk.set_parameter((k, i, j, fac), H[k][i, j])
    X.eq("set back", sk.model.params, H)
    k = [X.turn(f"k{i}") for i in range(len(A))]
    h = sk.model.f(np.array([k], dtype=object) if X.symbolic else np.array([k]))[0]
    X.eq("hermitian", h, dag(h))


R2 = 2**.5
DTENSOR = {"dyz": np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0]]) / R2, "dxz": np.array([[0, 0, 1], [0, 0, 0], [1, 0, 0]]) / R2,
           "dxy": np.array([[0, 1, 0], [1, 0, 0], [0, 0, 0]]) / R2, "dx2y2": np.diag([1.0, -1.0, 0.0]) / R2, "dz": np.diag([-1.0, -1.0, 2.0]) / 6**.5}


def two_center_d(o1, o2, x, v):
    """two-centre integrals of s and d orbitals, d orbitals as x^T m x with a symmetric traceless matrix m"""
    r = np.linalg.norm(x)
    if r < 1e-6:
        return v["e" + o1] if o1 == o2 else 0.0
    l = np.array(x) / r
    sg = lambda m: float(np.sum(m * (3 * np.outer(l, l) - np.eye(3)))) / 6**.5
    pi = lambda m: R2 * (m @ l - l * (l @ m @ l))
    if o1 == o2 == "s":
        return v["sss"]
    if "s" in (o1, o2):
        return v["sds"] * sg(DTENSOR[o2 if o1 == "s" else o1])
    a, b = DTENSOR[o1], DTENSOR[o2]
    s_, p_ = sg(a) * sg(b), float(pi(a) @ pi(b))
    return v["dds"] * s_ + v["ddp"] * p_ + v["ddd"] * (float(np.sum(a * b)) - s_ - p_)


@harness("C25", cfgs=[dict(lat="sc", orb=o) for o in ("d", "sd")], weight=3)
def dorbitals(M, X, lat, orb):
    """d orbitals: from_orbitals puts the two-centre integrals at the positions of the orbitals of the HamiltonianSymmetry, the model of the nearest neighbors is symmetric"""
    A, basis, D, full = LATTICES[lat]
    v0 = {}
    for o in ["s"] + list(DTENSOR):
        # crystal field: two levels
        n = "s" if o == "s" else "t2g" if o in ("dyz", "dxz", "dxy") else "eg"
        v0["e" + o] = v0.get("_" + n)
        if v0["e" + o] is None:
            v0["e" + o] = v0["_" + n] = X.real("e_" + n, lo=0.1, hi=2)
    v1 = {k: X.real(k, lo=0.1, hi=2) for k in ("sss", "sds", "dds", "ddp", "ddd")}
    order = [x for o in orb for x in (["s"] if o == "s" else ["dyz", "dxz", "dxy", "dz", "dx2y2"])]

    def function(a, b):
        def f(x):
            r = np.linalg.norm(np.array(x, dtype=float))
            return two_center_d(a, b, -np.array(x, dtype=float), v0 if r < 1e-6 else v1) if r <= D else 0.0
        return f
    I = {f"A/A:V_{a}_{b}": function(a, b) for a in order for b in order}
    sk = M.slater_koster.SlaterKoster.from_orbitals(A, M.symmetry.Symmetry.cubic(True), [("A", orb, (0, 0, 0))], I, D)
    ref = [[[two_center_d(a, b, -r, v0 if np.linalg.norm(r) < 1e-6 else v1) for b in order] for a in order] for r in np.array(sk.neighbors, dtype=float)]
    X.eq("hamiltonian", sk.model.params, X.stack(ref))
    X.eq("symmetric", sk.symmetrizer(sk.model.params), sk.model.params)
    X.true("size", sk.hsym.dim() == len(order))
