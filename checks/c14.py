"""C14: Fermi energy, band gap and total energy from the state counts"""
from symex.driver import harness, assumptions
from .common import *
from .c12 import locate

assumptions("C14", "the state count of each band is a given continuous function of the energy (a double for the smearing method, whose exactness is the subject of C12)",
            "electron counts and energies closer than 1e-4 to a band edge filling are left out, except for the exact integers")


class patched:
    """replaces the smearing method by a band with the given state count between its lowest and highest sample"""

    def __init__(self, M, kind, knee=0.25):
        self.mods = [M.density_of_states, M.smearing]

        class Ramp:
            def __init__(self, k_smpl=None, A=None, values=None, *a, **kw):
                f = list(values.flat)
                self.lo, self.hi = f[0], f[-1]

            def _t(self, e):
                return (e - self.lo) / (self.hi - self.lo)

            def volume(self, e):
                return np.array([self.volume_dvolume(e)[0]])

            def dvolume(self, e):
                return np.array([self.volume_dvolume(e)[1]])

            def volume_dvolume(self, e):
                v, d = counts(kind, self._t(e), knee)
                return np.array([v]), np.array([d / (self.hi - self.lo)])
        self.cls = Ramp

    def __enter__(self):
        self.mods = [m for m in self.mods if hasattr(m, "CubesSmearing")]
        self.old = [m.CubesSmearing for m in self.mods]
        for m in self.mods:
            m.CubesSmearing = self.cls

    def __exit__(self, *a):
        for m, o in zip(self.mods, self.old):
            m.CubesSmearing = o


def counts(kind, t, knee=0.25):
    """states and density of a band between 0 and 1"""
    if kind == "linear":
        return t, 1.0
    if kind == "knee":
        # slow, then fast
        if t < 0.5:
            return 2 * knee * t, 2 * knee
        return knee + 2 * (1 - knee) * (t - 0.5), 2 * (1 - knee)
    if kind == "flat":
        # almost no states at the band bottom: a newton step from there leaves the band
        return counts("knee", t, 0.05)
    if kind == "square":
        return t * t, 2 * t
    return t * t * (3 - 2 * t), 6 * t * (1 - t)


def total(kind, bands, e):
    """exact number of states"""
    r = 0.0
    for lo, hi in bands:
        if hi <= e:
            r = r + 1.0
        elif lo < e:
            r = r + counts(kind, (e - lo) / (hi - lo))[0]
    return r


def dos(M, bands, cls=None):
    """model with bands between the given edges"""
    def model(k):
        n = len(k)
        return np.array([[lo + (hi - lo) * i / (n - 1) for lo, hi in bands] for i in range(n)])
    return (cls or M.density_of_states.DensityOfStates)(model, N=2, check=False)


BANDS = {
    "insulator": [(-1.0, 0.5), (1.25, 2.0)],
    "semimetal": [(-1.0, 0.5), (0.25, 2.0)],
    "two gaps": [(-2.0, -1.0), (0.0, 1.0), (1.5, 3.5)],
    "mixed": [(-2.0, -1.0), (0.0, 1.0), (0.5, 3.5)],
    "touch": [(-1.0, 0.5), (0.5, 2.0)],
    "one": [(-1.0, 0.5)],
}


@harness("C14", cfgs=[dict(case=c, kind=k) for c in BANDS for k in ("linear", "knee", "flat")], weight=3)
def fermi_energy(M, X, case, kind):
    """for every partial filling the Fermi energy has exactly this number of states below it"""
    bands = BANDS[case]
    n = len(bands)
    el = X.real("electrons", 0.02, n - 0.02)
    s = X.real("shift", -0.5, 0.5)
    marks = [total(kind, bands, x) for b in bands for x in (b[0], (b[0] + b[1]) / 2, b[1])]
    locate(X, el, marks + list(range(n + 1)), 0.01)
    with patched(M, kind):
        D = dos(M, [(a + s, b + s) for a, b in bands])
        e = D.fermi_energy(el)
    X.eq("states below the Fermi energy", total(kind, bands, e - s), el, tol=1e-6)


@harness("C14", cfgs=[dict(case=c, filling=f) for c in BANDS for f in range(len(BANDS[c]) + 1)], weight=1)
def integer_filling(M, X, case, filling):
    """integer fillings: middle of the gap, or the energy with this number of states if there is no gap; the band gap is the distance of the band edges"""
    n = len(BANDS[case])
    s, w = X.real("shift", -0.5, 0.5), X.real("scale", 0.5, 2.0)
    bands = [(a * w + s, b * w + s) for a, b in BANDS[case]]
    with patched(M, "linear"):
        D = dos(M, bands)
        X.eq("energy range", list(D.energy_range()), [bands[0][0], bands[-1][1]])
        if 0 < filling < n:
            gap = BANDS[case][filling][0] - BANDS[case][filling - 1][1]
            X.eq("band gap", D.bandgap(filling), max(gap, 0.0) * w)
        e = D.fermi_energy(filling)
        if filling in (0, n):
            X.eq("empty or full", e, bands[0][0] if filling == 0 else bands[-1][1])
            return
        if gap > 0:
            X.eq("middle of the gap", e, (bands[filling][0] + bands[filling - 1][1]) / 2)
        else:
            X.eq("states", total("linear", BANDS[case], (e - s) / w), filling)
        X.eq("no gap at partial fillings", D.bandgap(filling - 0.5), 0.0)


@harness("C14", cfgs=[dict(case=c, kind=k, N=N) for c in ("insulator", "semimetal", "mixed") for k, N in (("linear", 2), ("smooth", 4), ("linear", 5))], weight=2)
def energy(M, X, case, kind, N):
    """the total energy at T=0 is the integral of energy times density up to mu, for every mu below, inside and above of the bands"""
    bands = BANDS[case]
    mu = X.real("mu", -2.5, 4.0)
    s = X.real("shift", -0.5, 0.5)
    locate(X, mu, [x for b in bands for x in b])
    with patched(M, kind):
        D = dos(M, [(a + s, b + s) for a, b in bands])
        r = D.energy(mu + s, N=N)
        r3 = D.energy(mu + s, N=N, spin_factor=1)
    ref, cnt = 0.0, 0.0
    for lo, hi in bands:
        if mu < lo:
            continue
        t = 1.0 if hi < mu else (mu - lo) / (hi - lo)
        c = counts(kind, t)[0]
        # int (lo + (hi - lo) t) n'(t) dt
        m = t * t / 2 if kind == "linear" else 2 * t**3 - 1.5 * t**4
        ref = ref + lo * c + (hi - lo) * m
        cnt = cnt + c
    X.eq("energy of a single spin", r3, ref + s * cnt, tol=1e-6)
    X.eq("energy", r, 2 * (ref + s * cnt), tol=1e-6)


@harness("C14", cfgs=[dict(shape=(3, 2), electrons=e) for e in (0, 1 / 3, 2 / 3, 1, 4 / 3, 5 / 3, 2)] + [dict(shape=(2, 2, 2), electrons=e) for e in (0.25, 1, 1.75, 2)] + [dict(shape=(4, 1), electrons=0.5)])
def naive(M, X, shape, electrons):
    """the naive Fermi energy (sorted samples) has the wanted number of samples below it, in the middle between its neighbors; the naive energy adds the samples below it"""
    n = int(np.prod(shape))
    nk = n // shape[-1]
    e = X.sorted_array("e", n, -2, 2, gap=0.05)
    # any order of the samples
    order = np.array([(3 * i + 1) % n if n % 3 else (5 * i + 1) % n for i in range(n)])
    assert len(set(order)) == n
    bands = X.stack([e[i] for i in order]).reshape(shape)
    mu = M.density_of_states.naive_fermi_energy(bands, electrons)
    i = round(nk * electrons)
    ref = e[0] if i == 0 else e[-1] if i == n else (e[i - 1] + e[i]) / 2
    X.eq("naive Fermi energy", mu, ref)
    if 0 < i < n:
        total = 0.0
        for v in list(e)[:i]:
            total = total + v
        X.eq("naive energy", M.density_of_states.naive_energy(bands, mu, 0), 2 * total / nk)
        X.eq("naive energy per spin", M.density_of_states.naive_energy(bands, mu, 0, spin_factor=1), total / nk)


@harness("C14", cfgs=[dict(shape=(2, 2)), dict(shape=(3, 1))])
def naive_thermal(M, X, shape):
    """at finite temperature every sample counts with its Fermi occupation"""
    n = int(np.prod(shape))
    e = X.array("e", n, -1, 1)
    mu = X.real("mu", -1, 1)
    T = 2000.0
    u = M.density_of_states.naive_energy(X.stack(list(e)).reshape(shape), mu, T, spin_factor=1)
    kT = M.density_of_states.k_B * T
    ref = 0.0
    for v in list(e):
        ref = ref + v / (1 + np.exp((v - mu) / kT))
    X.eq("thermal energy", u, ref * shape[-1] / n, tol=1e-6)
