"""C02: parameter representations are equivalent (params_complex / set_params_complex / variants / AsymTightBindingModel)"""
from symex.driver import harness, assumptions
from .common import *

SETS = {"1d": N1, "2d": N2, "2ds": N2s, "3d": N3, "3ds": N3s, "half": NH}
VARIANTS = [(False, False), (True, False), (False, True), (True, True)]


def make(M, nbs, n, c, e, sym=None):
    B, S = M.bandstructure, M.symmetry
    return B.BandStructureModel.init_tight_binding(sym or S.Symmetry.none(len(nbs[0])), nbs, n, cos_reduced=c, exp=e)


@harness("C02", cfgs=[dict(nb=nb, n=2, cos_reduced=c, exp=e) for nb in ("1d", "2d", "half") for c, e in VARIANTS],
         thorough=[dict(nb="3d", n=3, cos_reduced=c, exp=e) for c, e in VARIANTS])
def round_trip(M, X, nb, n, cos_reduced, exp):
    """set_params_complex followed by params_complex; coefficients in [-2,2]"""
    nbs = SETS[nb]
    H_r = hr(X, "H", nbs, n)
    model = make(M, nbs, n, cos_reduced, exp)
    model.set_params_complex(H_r)
    X.eq("params_complex returns what was set", model.params_complex(), H_r)
    X.eq("number of coefficient functions matches the number of parameters", len(model.params), len(nbs) if exp else 2 * len(nbs) - 1)
    X.eq("reading does not change the model", model.params_complex(), H_r)


@harness("C02", cfgs=[dict(nb=nb, n=2, src=s, dst=t) for nb in ("1d", "2ds") for s in range(4) for t in range(4) if s != t])
def convert(M, X, nb, n, src, dst):
    """a model with arbitrary hermitian params in one variant, converted to another variant through the complex coefficients; every k"""
    nbs = SETS[nb]
    m1 = make(M, nbs, n, *VARIANTS[src])
    P = hr_herm(X, "P", [0] * len(m1.params), n)
    if VARIANTS[src][1]:
        P = hr(X, "Q", [0] * len(m1.params), n)
    m1.params = P
    m2 = make(M, nbs, n, *VARIANTS[dst])
    m2.set_params_complex(m1.params_complex())
    m3 = M.tight_binding_asym.AsymTightBindingModel.new(nbs, n)
    m3.set_from_complex(m1.params_complex())
    k = X.stack([X.turns("k", len(nbs[0]))])
    H = m1.f(k)
    X.eq("same H(k) after conversion", m2.f(k), H)
    X.eq("same H(k) in AsymTightBindingModel", m3.H.f(k), H)
    X.eq("params_complex of the AsymTightBindingModel", m3.params_complex(), m1.params_complex())


@harness("C02", cfgs=[dict(nb=nb, cos_reduced=c) for nb in ("1d", "3ds") for c in (False, True)])
def inversion_variant(M, X, nb, cos_reduced):
    """models with inversion as coefficient symmetry (odd dimensions) keep hermitian coefficient matrices (cosine series); every k"""
    S, nbs = M.symmetry, SETS[nb]
    d = len(nbs[0])
    model = make(M, nbs, 2, cos_reduced, False, S.Symmetry.inv(d))
    H_r = hr_herm(X, "H", nbs, 2)
    model.set_params_complex(H_r)
    k = X.turns("k", d)
    X.eq("H(k) of the inversion symmetric model", model.f(X.stack([k]))[0], fourier(X, H_r, nbs, k))
    X.eq("round trip", model.params_complex(), H_r)


ROT4 = [np.eye(2), np.array([[0.0, -1.0], [1.0, 0.0]]), -np.eye(2), np.array([[0.0, 1.0], [-1.0, 0.0]])]
# group, neighbors, has inversion
GROUPS = {
    "rot4": (lambda S: S(ROT4), [(0, 0), (1, 0), (2, 1)]),
    "mirror": (lambda S: S([np.eye(2), np.diag([1.0, -1.0])]), [(0, 0), (1, 0), (1, 1)]),
    "cubic": (lambda S: S.cubic(True), [(0, 0, 0), (1, 0, 0), (1, 1, 0)]),
    "inv3": (lambda S: S.inv(3), [(0, 0, 0), (1, 0, 0), (0, 1, -1)]),
}


@harness("C02", cfgs=[dict(group=g, src=s, dst=t) for g in GROUPS for s in range(4) for t in range(4) if s < t or g == "mirror" and s != t])
def convert_symmetric(M, X, group, src, dst):
    """models with a group as coefficient symmetry: hermitian coefficients give the same H(k) in all variants, they are the coefficients of the sums over all operations"""
    make_sym, nbs = GROUPS[group]
    sym = make_sym(M.symmetry.Symmetry)
    H_r = hr_herm(X, "H", nbs, 1) if group == "cubic" else hr_herm(X, "H", nbs, 2)
    m1 = make(M, nbs, 1 if group == "cubic" else 2, *VARIANTS[src], sym)
    m1.set_params_complex(H_r)
    m2 = make(M, nbs, 1 if group == "cubic" else 2, *VARIANTS[dst], sym)
    m2.set_params_complex(m1.params_complex())
    k = X.turns("k", len(nbs[0]))
    ref = H_r[0]
    for R, m in zip(nbs[1:], H_r[1:]):
        for s in sym.S:
            ph = 0.0
            for a, b in zip(k, s @ np.array(R)):
                ph = ph + a * b
            z = X.expi(ph)
            ref = ref + z * m + X.conj(z) * m
    X.eq("sums over all operations", m1.f(X.stack([k]))[0], ref)
    X.eq("other variant", m2.f(X.stack([k]))[0], ref)
    X.eq("round trip", m2.params_complex(), H_r)
