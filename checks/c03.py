"""C03: df and ddf are the exact first and second derivatives of f"""
from symex.driver import harness, assumptions
from .common import *

SETS = {"1d": N1, "2d": N2, "2ds": N2s, "3d": N3, "3ds": N3s, "half": NH, "onsite": [(0, 0)]}
VARIANTS = [(False, False), (True, False), (False, True), (True, True)]


def check(X, f, df, ddf, d):
    k = X.turns("k", d)

    def at(i, t):
        return X.stack([t if j == i else k[j] for j in range(d)])
    D = df(X.stack([k]))[0]
    DD = ddf(X.stack([k]))[0]
    for i in range(d):
        X.eq(f"df[{i}]", D[i], X.deriv(lambda t: f(X.stack([at(i, t)]))[0], k[i]), tol=1e-5)
        for j in range(d):
            X.eq(f"ddf[{i},{j}]", DD[i, j], X.deriv(lambda t: df(X.stack([at(j, t)]))[0][i], k[j]), tol=1e-4, ctol=1e-4)
    X.eq("single k and list of k agree (df)", df(k), D)
    X.eq("single k and list of k agree (ddf)", ddf(k), DD)


@harness("C03", cfgs=[dict(nb=nb, n=2, cos_reduced=c, exp=e) for nb in ("1d", "2d", "3ds", "half", "onsite") for c, e in VARIANTS],
         thorough=[dict(nb="3d", n=3, cos_reduced=c, exp=e) for c, e in VARIANTS])
def bandstructure_df(M, X, nb, n, cos_reduced, exp):
    """BandStructureModel; symbolic differentiation of the executed f and df; every k, coefficients in [-2,2]"""
    nbs = SETS[nb]
    B, S = M.bandstructure, M.symmetry
    d = len(nbs[0])
    model = B.BandStructureModel.init_tight_binding(S.Symmetry.none(d), nbs, n, cos_reduced=cos_reduced, exp=exp)
    model.set_params_complex(hr(X, "H", nbs, n))
    check(X, model.f, model.df, model.ddf, d)


@harness("C03", cfgs=[dict(nb=nb, n=2) for nb in ("1d", "2d", "3ds", "half", "onsite")], thorough=[dict(nb="3d", n=3)])
def series_df(M, X, nb, n):
    """HermitianFourierSeries; every k, coefficients in [-2,2]"""
    nbs = SETS[nb]
    ser = M.tight_binding_asym.HermitianFourierSeries(nbs, hr(X, "H", nbs, n))
    check(X, ser.f, ser.df, ser.ddf, len(nbs[0]))


@harness("C03", cfgs=[dict(sym=s, cos_reduced=c) for s in ("inv2", "c4", "cubic") for c in (False, True)])
def symmetric_coefficients(M, X, sym, cos_reduced):
    """coefficient functions summed over a symmetry group; every k, coefficients in [-2,2]"""
    S, B = M.symmetry, M.bandstructure
    if sym == "inv2":
        g, nbs = S.Symmetry.inv(2), [(0, 0), (1, 0), (2, 1)]
    elif sym == "c4":
        g, nbs = S.Symmetry.from_generator([[[0, -1], [1, 0]]], False), [(0, 0), (1, 0), (2, 1)]
    else:
        g, nbs = S.Symmetry.cubic(True), [(0, 0, 0), (1, 0, 0), (1, 1, 0)]
    d = len(nbs[0])
    model = B.BandStructureModel.init_tight_binding(g, nbs, 1, cos_reduced=cos_reduced, exp=False)
    model.params = hr_herm(X, "P", [0] * len(model.params), 1)
    check(X, model.f, model.df, model.ddf, d)
