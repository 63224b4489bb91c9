"""C01: H(k) is the documented hermitian Fourier series"""
from symex.driver import harness, assumptions
from .common import *

SETS = {"1d": N1, "2d": N2, "2ds": N2s, "3d": N3, "3ds": N3s, "half": NH, "onsite": [(0, 0)]}
VARIANTS = [(False, False), (True, False), (False, True), (True, True)]


@harness("C01", cfgs=[dict(nb=nb, n=2, cos_reduced=c, exp=e) for nb in ("1d", "2d", "3ds", "half") for c, e in VARIANTS] + [dict(nb="onsite", n=2, cos_reduced=c, exp=e) for c, e in VARIANTS] + [dict(nb="3d", n=3, cos_reduced=c, exp=e) for c, e in VARIANTS],
         thorough=[dict(nb="2d", n=4, cos_reduced=c, exp=e) for c, e in VARIANTS])
def bandstructure_f(M, X, nb, n, cos_reduced, exp):
    """BandStructureModel without coefficient symmetry, parameters set from complex H_R; every k (periodic angles), coefficients in [-2,2]"""
    nbs = SETS[nb]
    B, S = M.bandstructure, M.symmetry
    d = len(nbs[0])
    model = B.BandStructureModel.init_tight_binding(S.Symmetry.none(d), nbs, n, cos_reduced=cos_reduced, exp=exp)
    H_r = hr(X, "H", nbs, n)
    model.set_params_complex(H_r)
    k = X.turns("k", d)
    q = X.turns("q", d)
    H, Hq = model.f(X.stack([k, q]))
    X.eq("H(k) = sum_R H_R exp(2 pi i k R) + h.c.", H, fourier(X, H_r, nbs, k))
    X.eq("every k of the batch", Hq, fourier(X, H_r, nbs, q))
    if nb != "half":
        shift = np.array([1, -2, 3][:d])
        X.eq("periodic", model.f(X.stack([k + shift]))[0], H)
    X.eq("H(k) hermitian", H, dag(H))
    H1 = model.f(k)
    X.eq("single k and list of k agree", H1, H)
    X.eq("number of bands", model.band_count(), n)


@harness("C01", cfgs=[dict(nb=nb, n=2) for nb in ("1d", "2d", "3ds", "half", "onsite")] + [dict(nb="3d", n=3), dict(nb="1d", n=1)], thorough=[dict(nb="3d", n=4)])
def series_f(M, X, nb, n):
    """HermitianFourierSeries / AsymTightBindingModel; every k, coefficients in [-2,2]"""
    nbs = SETS[nb]
    A = M.tight_binding_asym
    H_r = hr(X, "H", nbs, n)
    ser = A.HermitianFourierSeries(nbs, H_r)
    d = len(nbs[0])
    k = X.turns("k", d)
    q = X.turns("q", d)
    H = ser.f(X.stack([k, q]))
    X.eq("H(k)", H[0], fourier(X, H_r, nbs, k))
    X.eq("H(q)", H[1], fourier(X, H_r, nbs, q))
    X.eq("hermitian", H, dag(H))
    X.eq("single k", ser.f(k), H[0])
    m = A.AsymTightBindingModel(ser)
    X.eq("model", m.H.f(X.stack([q, k])), X.stack([H[1], H[0]]))
    X.eq("default overlap", m.S.f(X.stack([q, k])), X.stack([np.eye(n)] * 2))
    X.eq("unit matrix series", A.HermitianFourierSeries.unit_matrix(nbs, n).f(k), np.eye(n))
