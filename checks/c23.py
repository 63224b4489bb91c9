"""C23: transport integrals and tensors"""
from symex.driver import harness, assumptions
from .common import *

assumptions("C23", "the samples of the Fermi surface (positions, areas) and the model (velocities, inverse masses) are arbitrary values within the bounds; band velocities are at least 0.2 eV/(2 pi) in one direction",
            "lattices, temperatures and chemical potentials are enumerated; the 1e-8 in the denominator of the code is covered by the tolerance")

LAT = {"cubic": np.eye(3) * 2.0, "tri": np.array([[1.0, 0.25, 0.5], [0.0, 1.5, -0.25], [0.125, 0.0, 2.0]]), "left": np.array([[0.0, 1.0, 0.25], [1.5, 0.0, 0.0], [0.0, 0.5, 1.0]])}
E = 1.602176634e-19
HBAR = 1.05457181764616e-34
KB = 8.617333262e-5
V0 = np.array([[1.2, -0.4, 0.7], [-0.3, 0.9, 1.1], [0.6, 1.3, -0.8]])
EPS = np.zeros((3, 3, 3))
for _p, _s in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((2, 1, 0), -1), ((1, 0, 2), -1)):
    EPS[_p] = _s


class Dos:
    """double for the density of states with given surface samples"""

    def __init__(self, X, samples, model, A, T, mu, fermi, gap=0.0, erange=(-10.0, 10.0)):
        self.model, self.A = model, A
        self._s, self._gap, self._fermi, self._mu, self._r, self.X = samples, gap, fermi, dict(zip(T, mu)), erange, X
        self.asked = []

    def bandgap(self, electrons):
        return self._gap

    def chemical_potential(self, electrons, T, N=30, **k):
        return np.array([self._mu[t] for t in T])

    def fermi_energy(self, electrons, **k):
        return self._fermi

    def energy_range(self):
        return self._r

    def fermi_surface_samples(self, e, improved_points=True, improved_weights=False, weight_by_gradient=False, normalize=None):
        assert normalize is None and not weight_by_gradient
        self.asked.append(e)
        k, b, w = self._s(e)
        return self.X.stack(list(k)), np.array(b, dtype=np.int64), self.X.stack(list(w)), sum(w)


class Model:
    """double for the model: velocities and inverse masses per sample (two bands, the other one has wrong values)"""

    def __init__(self, X, v, h, bands):
        self.X, self.v, self.h, self.b = X, v, h, bands

    def put(self, rows, wrong):
        def el(n, i):
            return rows[n][i] if self.b[n] == 0 else wrong, wrong if self.b[n] == 0 else rows[n][i]
        shape = np.shape(wrong)
        r = np.empty((len(rows),) + shape + (2,), dtype=object)
        for n in range(len(rows)):
            for i in np.ndindex(shape):
                r[(n,) + i + (self.b[n],)] = rows[n][i]
                r[(n,) + i + (1 - self.b[n],)] = wrong[i]
        return self.X.stack(list(r)) if self.X.symbolic else r.astype(float)

    def bands_grad(self, k):
        assert len(k) == len(self.v)
        return np.zeros((len(k), 2)), self.put(self.v, np.ones(3) * 7.0)

    def bands_grad_hess(self, k):
        return self.bands_grad(k) + (self.put(self.h, np.ones((3, 3)) * 5.0),)


def velocities(X, n, free):
    """velocities and their norms; free: one with a free scale"""
    if not free:
        return list(V0[:n]), [np.sqrt(x @ x) for x in V0[:n]]
    assert n == 1
    s = X.real("s", 0.25, 2.0)
    return [X.stack(V0[0] * s)], [s * np.sqrt(V0[0] @ V0[0])]


def si(A, dosA):
    """transformation of the gradients in the space of the samples to m/s"""
    return A @ np.linalg.inv(dosA) * (1e-10 / (2 * np.pi) * E / HBAR)


@harness("C23", cfgs=[dict(lattice=l, cell=c, tau=t, spin=s) for l, c, t, s in (("tri", "unit", None, 2), ("left", "unit", "const", 1), ("tri", "same", "k", 2), ("cubic", "unit", "k", 2), ("left", "same", None, 2))]
         + [dict(lattice="tri", cell="unit", tau=None, spin=2, free=True)])
def conductivity(M, X, lattice, cell, tau, spin, free=False):
    """conductivity tensor at T=0: spin e^2/V sum tau v v / |grad|; rank 3 tensor e^3/V sum tau^2 v (M^-1 x v) / |grad|"""
    A = LAT[lattice]
    dosA = A if cell == "same" else np.eye(3)
    n = 1 if free else 3
    v, norm = velocities(X, n, free)
    if tau == "k":
        h = [X.stack(V0 + V0.T + i * np.eye(3)) for i in range(n)]
    else:
        h = [X.stack([[X.real(f"h{i}_{min(a, b)}{max(a, b)}", -2.0, 2.0) for b in range(3)] for a in range(3)]) for i in range(n)]
    w = X.array("w", n, 0.1, 1.0)
    k = X.array("k", (n, 3), -0.5, 0.5)
    bands = [0, 1, 0][:n]
    dos = Dos(X, lambda e: (k, bands, w), Model(X, v, h, bands), dosA, [0.0], [0.25], 0.25)
    f = 1.0
    B = 2 * np.pi * np.linalg.inv(A @ np.linalg.inv(dosA)).T
    if tau is None:
        t, tk = None, [1.0] * n
    elif tau == "const":
        t, tk = 0.75, [0.75] * n
    else:
        def t(q):
            return X.stack([1.0 + q[i] @ np.array([0.02, -0.01, 0.03]) for i in range(len(q))])
        tk = [1.0 + (B @ k[i]) @ np.array([0.02, -0.01, 0.03]) for i in range(n)]
    I = M.bulk_properties.KIntegral(dos, 3.0, [0.0])
    X.eq("energies", dos.asked, [0.25])
    # the cell can also be a list of vectors
    cellA = A.tolist() if lattice == "left" else A
    s2, s3 = I.conductivity_hall_tensor(cellA, spin_factor=spin, tau=t)
    G = si(A, dosA)
    V = abs(np.linalg.det(A)) * 1e-30
    # scaled to numbers of the order of one
    c2 = E**2 / E / V * 1e-10 * (1e-10 / (2 * np.pi) * E / HBAR)**2 * 1e10
    u = [A @ np.linalg.inv(dosA) @ x for x in v]
    ref2 = sum(spin * w[i] / norm[i] * tk[i] * X.stack([[u[i][a] * u[i][b] for b in range(3)] for a in range(3)]) for i in range(n))
    X.eq("conductivity", s2[0] / c2, ref2, tol=1e-5)
    if tau != "k" or lattice == "cubic":
        T = A @ np.linalg.inv(dosA)
        c3 = E**3 / E / V * (1e-10 / (2 * np.pi) * E / HBAR)**2 * (1e-10 / (2 * np.pi))**2 * E / HBAR**2
        m = [T @ h[i] @ T.T for i in range(n)]
        for a in range(3):
            for b in range(3):
                for c in range(3):
                    r = 0.0
                    for i in range(n):
                        for d in range(3):
                            for s in range(3):
                                if EPS[c, d, s]:
                                    r = r + EPS[c, d, s] * spin * tk[i]**2 * (w[i] / norm[i]) * u[i][a] * m[i][b][d] * u[i][s]
                    X.eq("rank 3", s3[0][a][b][c] / c3, r, tol=1e-4)
    if tau is None:
        X.eq("drude", I.drude_factor(cellA, spin_factor=spin)[0] / c2, ref2, tol=1e-5)
    L = I.transport_coefficients(cellA, spin_factor=spin, tau=t)
    X.eq("shape", np.shape(L), (3, 1, 3, 3))
    X.eq("L0", L[0][0] / c2, ref2, tol=1e-5)
    # only the energy at the Fermi level contributes
    X.eq("L1", L[1:] / c2, np.zeros((2, 1, 3, 3)))


@harness("C23", cfgs=[dict(lattice=l, hessians=h) for l, h in (("tri", False), ("left", True))])
def real_space(M, X, lattice, hessians):
    """integrate_df_A passes positions, velocities and inverse masses in SI units and reciprocal space, moments are powers of the energy relative to the chemical potential"""
    A = LAT[lattice]
    n = 2
    v, norm = velocities(X, n, False)
    h = [X.stack([[X.real(f"h{i}_{min(a, b)}{max(a, b)}", -2.0, 2.0) for b in range(3)] for a in range(3)]) for i in range(n)]
    w = X.array("w", n, 0.1, 1.0)
    k = X.array("k", (n, 3), -0.5, 0.5)
    I = M.bulk_properties.KIntegral(Dos(X, lambda e: (k, [1, 0], w), Model(X, v, h, [1, 0]), np.eye(3), [0.0], [0.25], 0.25), 3.0, [0.0])
    seen = []

    def g(e, v, *r):
        seen.append((e, v) + r)
        return X.stack([1.0, 2.0])
    r = I.integrate_df_A(A, g, hessians=hessians, moments=1)
    X.eq("integral", r, [[w[0] / norm[0] + 2 * w[1] / norm[1]], [0.0]])
    e, vs, *rest = seen[0]
    X.eq("energy", e, 0.25)
    B = 2 * np.pi * np.linalg.inv(A).T
    for i in range(n):
        X.eq("velocity", vs[i] * (HBAR / E * 2 * np.pi * 1e10), A @ v[i])
        X.eq("position", rest[-1][i], B @ k[i])
        if hessians:
            X.eq("inverse mass", rest[0][i] * (HBAR**2 / E * (2 * np.pi * 1e10)**2), A @ h[i] @ A.T)


@harness("C23", cfgs=[dict(n=1), dict(n=2)])
def insulator(M, X, n):
    """no conductivity of an insulator at T=0, in the same shape as for a metal"""
    mu = X.real("mu", -1.0, 1.0)
    v, norm = velocities(X, 1, False)
    I = M.bulk_properties.KIntegral(Dos(X, None, Model(X, v, v, [0]), np.eye(3), [0.0], [mu], mu, gap=0.5), 2.0, [0.0])
    X.eq("transport", I.transport_coefficients(LAT["tri"], max_a=n), np.zeros((n + 1, 1, 3, 3)))
    s2, s3 = I.conductivity_hall_tensor(LAT["tri"])
    X.eq("rank 2", s2, np.zeros((1, 3, 3)))
    X.eq("rank 3", s3, np.zeros((1, 3, 3, 3)))


@harness("C23", cfgs=[dict(T=t, shift=s) for t, s in (((300.0,), 0.0), ((0.0, 600.0), 0.0), ((100.0, 300.0, 1000.0), 0.0), ((300.0,), 0.002), ((500.0, 1000.0), -0.004))])
def finite_temperature(M, X, T, shift, rtol=None):
    """without tolerance, the energies and weights of the integration are exact for quadratic functions of the energy and their first moments, for all temperatures"""
    F = 0.25
    c = X.array("c", 3, -1.0, 1.0)
    v = [np.array([0.0, 2.0, 0.0])]
    scale = KB * max(T)
    dos = Dos(X, None, Model(X, v, v, [0]), np.eye(3), T, [F + shift * t / max(T) for t in T], F)
    dos._s = lambda e: (np.zeros((1, 3)), [0], [2.0 * (c[0] + c[1] * ((e - F) / scale) + c[2] * ((e - F) / scale)**2)])
    I = M.bulk_properties.KIntegral(dos, 3.0, list(T), rtol=-1.0)
    L = I.integrate_df(lambda e, v, k: np.ones(1), moments=2)
    X.eq("shape", np.shape(L), (3, len(T)))
    # moments of -f'(x): 1, pi^2/3, 7 pi^4/15
    mom = [1.0, 0.0, np.pi**2 / 3, 0.0, 7 * np.pi**4 / 15]
    for j, t in enumerate(T):
        m = shift * t / max(T) / scale
        r = t / max(T)
        # polynomial around mu: x = (e - mu)/scale
        p = [c[0] + c[1] * m + c[2] * m**2, c[1] + 2 * c[2] * m, c[2]]
        for a in range(3):
            ref = sum(p[i] * mom[i + a] * r**(i + a) for i in range(3))
            X.eq(f"moment {a}", L[a][j] / scale**a, ref, tol=0.02 * (1 + mom[a + a % 2]))


@harness("C23", cfgs=[dict(n=n, case=c) for n, c in ((3, "T"), (3, "mu"))])
def weights(M, X, n, case):
    """integration weights: the moments of the derivative of the Fermi function are exact up to the number of energies; at T=0 only the Fermi energy has a weight"""
    x = np.array([-2.0, 0.0, 1.5])
    f = getattr(M.bulk_properties, "_integration_weights", None)
    if f is None:
        return X.true("no such function", True)
    t = X.real("t", 0.75, 1.0) if case == "T" else 0.9
    mu = X.real("mu", -0.1, 0.1) if case == "mu" else 0.05
    y, w = f(x, np.array([1 / t, 1e20]) if not X.symbolic else X.stack([1 / t, 1e20]), X.stack([mu, 0.0]), -10.0, 10.0, rtol=-1.0)
    X.eq("energies", y, x)
    mom = [1.0, 0.0, np.pi**2 / 3, 0.0, 7 * np.pi**4 / 15]
    for i in range(n):
        X.eq("moment", sum(w[0][j] * (x[j] - mu)**i for j in range(n)), mom[i] * t**i)
    X.eq("zero temperature", w[1], [1.0 if a == 0.0 else 0.0 for a in x])


@harness("C23", cfgs=[dict(n=1), dict(n=2)])
def tensors(M, X, n):
    """Peltier, Seebeck, thermal conductivity and Hall tensors solve their defining equations"""
    b = M.bulk_properties
    d = np.array([[3.0, 0.5, 0.25], [0.5, 2.0, -0.5], [0.25, -0.5, 4.0]])
    if n == 1:
        L0 = X.stack(d)
        L1, L2 = X.array("L1", (3, 3)), X.array("L2", (3, 3))
    else:
        # free conductivity in two components
        p, q = X.real("p", 0.0, 1.0), X.real("q", -0.5, 0.5)
        L0 = X.stack([[3.0 + p, 0.5 + q, 0.0], [0.5 + q, 2.0, 0.0], [0.0, 0.0, 4.0]])
        L1, L2 = X.stack(np.array([[1.0, 2.0, 0.0], [-1.0, 0.5, 0.0], [0.0, 0.0, 2.0]])), X.stack(np.array([[0.5, 1.0, 0.0], [2.0, 0.25, 0.0], [0.0, 0.0, 1.0]]))
    L = X.stack([L0, L1, L2])
    T = X.real("T", 10.0, 400.0) if n == 1 else 20.0
    X.eq("conductivity", b.conductivity(L), L0)
    X.eq("peltier", b.peltier(L) @ L0, L1)
    X.eq("seebeck", L0 @ b.seebeck(L, T) * T, L1)
    P = b.peltier(L)
    X.eq("thermal conductivity", b.electronic_thermal_conductivity(L, T) * T, L2 - P @ L1)
    s3 = X.array("s3", (3, 3, 3)) if n == 1 else X.stack(EPS * 2.0 + 0.5)
    R = b.hall_coefficients(L0, s3)
    for k in range(3):
        X.eq("hall", L0 @ X.stack([[R[i][j][k] for j in range(3)] for i in range(3)]) @ L0, X.stack([[s3[y][x][k] for y in range(3)] for x in range(3)]))


@harness("C23", cfgs=[dict(lattice="tri"), dict(lattice="left")])
def cubic_hall(M, X, lattice):
    """Hall coefficient of cubic metals: sum (v M^-1 v - v^2 tr M^-1) / |grad| over the squared conductivity"""
    A = LAT[lattice]
    n = 2
    v, norm = velocities(X, n, False)
    h = [X.stack([[X.real(f"h{i}_{min(a, b)}{max(a, b)}", -2.0, 2.0) for b in range(3)] for a in range(3)]) for i in range(n)]
    w = np.array([0.75, 0.5])
    I = M.bulk_properties.KIntegral(Dos(X, lambda e: (np.zeros((n, 3)), [1, 0], w), Model(X, v, h, [1, 0]), np.eye(3), [0.0], [0.25], 0.25), 3.0, [0.0])
    R = I.hall_coefficient_metal_cubic(A.tolist() if lattice == "left" else A, spin_factor=2)[0]
    u = [A @ x * (1e-10 / (2 * np.pi) * E / HBAR) for x in v]
    m = [A @ x @ A.T for x in h]
    a = sum(w[i] / norm[i] * (u[i] @ m[i] @ u[i] - (u[i] @ u[i]) * sum(m[i][j][j] for j in range(3))) for i in range(n)) * ((1e-10 / (2 * np.pi))**2 * E / HBAR**2)
    b = sum(w[i] / norm[i] * (u[i] @ u[i]) for i in range(n))
    V = abs(np.linalg.det(A)) * 1e-30
    # e sigma_H / sigma_0^2
    X.eq("coefficient", R / 1e-10, (2 / 6) / (2 / 3)**2 * a / b**2 * V / 1e-10, tol=1e-4)


@harness("C23", cfgs=[dict(neighbors=n, limit=l) for n, l in ((1, None), (3, None), (3, 2), (4, 3), (4, 1))], weight=2)
def free_electrons(M, X, neighbors, limit):
    """free electrons: sorted parabolas around the reciprocal lattice points with their own gradients and constant inverse mass, limited to the lowest bands"""
    G = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.5], [0.5, 1.0, 0.0]])[:neighbors]
    F = M.bulk_properties.FreeElectrons(G, limit)
    k = X.array("k", (2, 3), -0.75, 0.75)
    if neighbors > 1:
        k = X.stack([k[0], [0.0625, -0.125, 0.25]])
    b, g, h = F.bands_grad_hess(k)
    b2, g2 = F.bands_grad(k)
    fac = 3.80998211 * (2 * np.pi)**2
    m = limit or neighbors
    X.eq("shapes", np.shape(b) + np.shape(g) + np.shape(h), (2, m) + (2, 3, m) + (2, 3, 3, m))
    for i in range(2):
        d = [k[i] - q for q in G]
        e = [x @ x for x in d]
        # the order is found by comparison
        rest = list(range(neighbors))
        for j in range(m):
            low = rest[0]
            for q in rest[1:]:
                if e[q] < e[low]:
                    low = q
            rest.remove(low)
            X.eq("energy", b[i][j] / fac, e[low])
            X.eq("gradient", g[i, :, j] / fac, 2 * d[low])
            X.eq("inverse mass", h[i, :, :, j] / fac, 2 * np.eye(3))
    X.eq("bands", F(k) / fac, b / fac)
    X.eq("bands_grad", [b2 / fac], [b / fac])
    X.eq("bands_grad", [g2 / fac], [g / fac])
