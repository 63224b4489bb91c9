"""C11: linear algebra helpers"""
import itertools
from symex.driver import harness, assumptions
from .common import *

assumptions("C11", "shapes, lattices and the directions of right hand sides are enumerated; entries, radii and sizes are symbolic",
            "point clouds: enumerated points with a common symbolic shift; conjugate gradients: concrete positive definite matrices, right hand side and start vector proportional to a symbolic size (plus a symbolic offset of the start)")


@harness("C11", cfgs=[dict(shapes=s) for s in ([(1, 1), (2, 2)], [(2, 2), (3, 3)], [(2, 3), (1, 2)], [(1, 2), (2, 1), (2, 2)], [(2, 2), (2, 1), (1, 2)], [(2, 2), (1, 1), (1, 1), (2, 1)], [(2, 2)])])
def sums(M, X, shapes):
    """direct sums have the blocks on the diagonal, also for lists of matrices; kron products multiply: (A x B)(C x D) = AC x BD, and are associative"""
    L = M.linalg
    ms = [X.carray(f"m{i}", s, -2, 2) for i, s in enumerate(shapes)]
    got = L.direct_sum(*ms)
    R, C = sum(s[0] for s in shapes), sum(s[1] for s in shapes)
    X.eq("shape", np.shape(got), [R, C])
    r = c = 0
    owner = {}
    for m, s in zip(ms, shapes):
        for i in range(s[0]):
            for j in range(s[1]):
                owner[r + i, c + j] = m[i, j]
        r, c = r + s[0], c + s[1]
    X.eq("blocks", got, X.stack([X.stack([owner.get((i, j), 0.0) + 0j for j in range(C)]) for i in range(R)]))
    if len(ms) > 1:
        # lists of matrices
        ls = [X.stack([m, 2.0 * m, m - 1.0]) for m in ms]
        g3 = L.direct_sum(*ls)
        for i, f in enumerate((lambda m: m, lambda m: 2.0 * m, lambda m: m - 1.0)):
            X.eq("list", g3[i], L.direct_sum(*[f(m) for m in ms]))
    k = L.kron(*ms)
    X.eq("kron shape", np.shape(k), [int(np.prod([s[0] for s in shapes])), int(np.prod([s[1] for s in shapes]))])
    for idx in itertools.product(*[itertools.product(range(s[0]), range(s[1])) for s in shapes]):
        i = j = 0
        v = 1.0
        for (a, b), s, m in zip(idx, shapes, ms):
            i, j, v = i * s[0] + a, j * s[1] + b, v * m[a, b]
        X.eq("kron", k[i, j], v)
    for f in (L.direct_sum, L.kron):
        try:
            f()
            X.true("no arguments", False)
        except ValueError:
            X.true("no arguments", True)


@harness("C11", cfgs=[dict(shape=s) for s in ((2, 3), (2, 3, 2), (1, 2, 2, 3), (3, 1, 2))])
def axes(M, X, shape):
    """merge_axes flattens neighboring axes and nothing else"""
    a = X.array("a", shape)
    n = len(shape)
    for start in range(-n, n):
        for count in range(1, n - start % n + 1):
            b = M.linalg.merge_axes(a, start, count)
            s = start % n
            want = shape[:s] + (int(np.prod(shape[s:s + count])),) + shape[s + count:]
            X.eq("shape", np.shape(b), want)
            for idx in np.ndindex(*shape):
                flat = 0
                for i, m in zip(idx[s:s + count], shape[s:s + count]):
                    flat = flat * m + i
                X.eq("entry", b[idx[:s] + (flat,) + idx[s + count:]], a[idx])
    for bad in (n, -n - 1):
        try:
            M.linalg.merge_axes(a, bad, 1)
            X.true("axis out of bounds", False)
        except AssertionError:
            X.true("axis out of bounds", True)


LATTICES = {
    "chain": [[0.7]], "square": [[1.0, 0.0], [0.0, 1.0]], "skew": [[1.0, 1.0], [0.0, 1.0]], "very skew": [[1.0, 2.4], [0.0, 0.8]], "hexagonal": [[1.0, 0.5], [0.0, 3**.5 / 2]], "left": [[0.0, 1.0], [1.25, 0.0]],
    "rectangle": [[0.6, 0.0], [0.0, 1.7]], "sc": np.eye(3).tolist(), "fcc": [[0.0, 0.5, 0.5], [0.5, 0.0, 0.5], [0.5, 0.5, 0.0]], "bcc": [[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]],
    "tetragonal": np.diag([0.8, 0.8, 1.5]).tolist(), "triclinic": [[1.0, 0.3, -0.2], [0.0, 0.9, 0.4], [0.1, 0.0, 1.1]],
}


@harness("C11", cfgs=[dict(lattice=n, lo=lo, hi=hi) for n, lo, hi in (("chain", 0.1, 3.0), ("square", 0.2, 2.3), ("skew", 0.2, 2.3), ("very skew", 0.2, 2.0), ("hexagonal", 0.2, 2.3), ("left", 0.2, 2.6), ("rectangle", 0.2, 2.0),
                                                                       ("sc", 0.5, 1.5), ("fcc", 0.3, 1.1), ("bcc", 0.4, 1.1), ("tetragonal", 0.4, 1.3), ("triclinic", 0.5, 1.3))],
         thorough=[dict(lattice=n, lo=lo, hi=hi) for n, lo, hi in (("square", 2.0, 4.3), ("hexagonal", 2.0, 4.3), ("very skew", 1.5, 3.3), ("sc", 1.4, 2.6), ("fcc", 1.0, 1.8), ("bcc", 1.0, 1.9), ("triclinic", 1.2, 2.2))], max_paths=400)
def sphere(M, X, lattice, lo, hi):
    """lattice_in_sphere lists every lattice vector shorter than the radius exactly once, for every radius"""
    A = np.array(LATTICES[lattice])
    d = len(A)
    inv = np.linalg.inv(A)
    # all lattice points up to the largest radius, from the bounds |n_i| <= |rows of A^-1| r
    ext = [int(np.ceil(np.linalg.norm(inv[i]) * hi)) for i in range(d)]
    pts = np.array([n for n in itertools.product(*[range(-e, e + 1) for e in ext])])
    norms = np.linalg.norm(pts @ A.T, axis=-1)
    dist = X.real("dist", lo, hi)
    for s in np.unique(np.round(norms, 9)):
        if lo - 0.01 < s < hi + 0.01:
            X.assume(abs(dist - s) >= 1e-4)
    got = M.linalg.lattice_in_sphere(A.copy(), dist)
    got = np.array([[float(x) for x in p] for p in got]).reshape(-1, d)
    n = np.round(got @ inv.T)
    X.le("lattice points", np.max(np.abs(n @ A.T - got)), 1e-9)
    found = {tuple(int(x) for x in p) for p in n}
    X.eq("each once", len(found), len(n))
    for p, r in zip(pts, norms):
        if tuple(int(x) for x in p) in found:
            X.le("inside of the sphere", r, dist)
        else:
            X.le("every point inside is listed", dist, r)


SPD = {"1": [[2.0]], "2": [[2.0, 1.0], [1.0, 3.0]], "2c": [[2.0, 1.0 - 0.5j], [1.0 + 0.5j, 3.0]], "3": [[2.0, 0.5, 0.0], [0.5, 1.0, -0.25], [0.0, -0.25, 4.0]], "diag": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 5.0]],
       "4": [[4.0, 1.0, 0.0, 0.5], [1.0, 3.0, 0.5, 0.0], [0.0, 0.5, 2.0, -0.5], [0.5, 0.0, -0.5, 1.0]]}


@harness("C11", cfgs=[dict(mat=m, dirs=p, start=s, shape=sh) for m in SPD for p in range(2) for s, sh in ((False, None), (True, None))]
         + [dict(mat="4", dirs=0, start=s, shape=(2, 2)) for s in (False, True)] + [dict(mat="2", dirs=2, start=False, shape=None)], max_paths=60)
def cg(M, X, mat, dirs, start, shape):
    """conjugate_gradient_solve solves A x = b to the requested residual, from any start, without changing its arguments"""
    A = np.array(SPD[mat])
    n = len(A)
    rng = np.random.default_rng(5 + dirs)
    v = rng.integers(1, 5, n) / 2.0 * (1 if dirs == 0 else np.array([(-1)**i for i in range(n)]))
    if np.iscomplexobj(A):
        v = v * (1.0 + 0.5j)
    if dirs == 2:
        # an eigenvector: one step
        v = np.linalg.eigh(A)[1][:, 0]
    t = X.real("t", 0.1, 4)
    calls = []

    def op(x):
        calls.append(1)
        y = A @ np.reshape(x, (-1,)) if shape else A @ x
        return np.reshape(y, shape) if shape else y
    x0 = None
    b = t * v
    if start:
        # any start whose residual is proportional to t
        s = X.array("s", n, -2, 2)
        x0 = s + 0 * v
        b = A @ x0 + t * v
    sol = np.linalg.solve(A, v)
    want = t * sol if not start else x0 + t * sol
    if shape:
        b, want = np.reshape(b, shape), np.reshape(want, shape)
        x0 = None if x0 is None else np.reshape(x0, shape)
    b0, s0 = b * 1.0, None if x0 is None else x0 * 1.0
    x = M.linalg.conjugate_gradient_solve(op, b, x0, err=1e-6)
    X.eq("solution", x, want, tol=1e-5)
    X.eq("b stays", b, b0)
    if start:
        X.eq("x0 stays", x0, s0)
    X.le("steps", len(calls), n + 3)
    if dirs == 2:
        X.le("one step", len(calls), 3)


@harness("C11", cfgs=[dict(kind=k) for k in ("integer", "list start", "zero")])
def cg_input(M, X, kind):
    """conjugate_gradient_solve takes integers, and a right hand side of zero"""
    A = np.array(SPD["2"])
    s = X.real("s", 0.5, 2) if kind != "list start" else 1.0
    err = X.real("err", 1e-7, 1e-5)
    op = lambda x: s * (A @ x)
    if kind == "zero":
        x = M.linalg.conjugate_gradient_solve(op, np.array([0.0, 0.0]))
        X.eq("zero", x, [0.0, 0.0])
    else:
        b = np.array([1, 2])
        x = M.linalg.conjugate_gradient_solve(op, b, np.array([1, 0]) if kind == "list start" else None, err=err)
        X.eq("solution", x, np.linalg.solve(A, b) / s, tol=1e-4)
        X.eq("b stays", b, [1, 2])


@harness("C11", cfgs=[dict(n=n, d=d, moved=m) for n, d in ((2, 1), (3, 2), (3, 3)) for m in (False, True)], max_paths=200)
def clouds(M, X, n, d, moved):
    """pointcloud_distance of two orderings of the same points is zero; a point which is moved by less than half of the spacing counts with its distance"""
    o = X.array("o", d, -1, 1)
    pts = [o + np.random.default_rng(i).uniform(3 * i - 0.5, 3 * i + 0.5, d) for i in range(n)]
    delta = X.array("d", d, 0.01, 0.3) if moved else np.zeros(d)
    for perm in itertools.permutations(range(n)):
        a = X.stack(pts)
        b = X.stack([pts[i] + delta if i == 0 else pts[i] for i in perm])
        got = M.linalg.pointcloud_distance(a, b)
        X.eq("distance", got * got, sum(x * x for x in delta), tol=1e-9)
        X.eq("arguments stay", a, X.stack(pts))
