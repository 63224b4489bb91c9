"""C19: models written to files and read again, files of wannier90"""
import json
import numpy as np
from symex.driver import harness, assumptions
from symex.files import scratch, write, txt
from .common import *

assumptions("C19", "the neighbors, the number of bands, the group and the layout of the files are enumerated, the coefficients and k are symbolic",
            "numbers are written as text and read again without rounding (repr of a float is exact); the json module is modelled by itself on text with symbolic tokens",
            "wannier90: H(k) = sum_R exp(2 pi i k R) H(R) / ndegen(R), H(-R) = H(R)^H in the file")

NU = [(0, 0), (1, 1), (1, 0), (0, 2), (0, 1)]      # not sorted by length
SORTS = {"1d": N1, "2d": N2s, "half": NH, "unsorted": NU, "3d": N3s}


def params(X, nbs, n, real=False):
    if real:
        return X.stack([X.hermitian(f"H{i}", n, -2, 2, real=True) for i in range(len(nbs))])
    return hr(X, "H", nbs, n)


@harness("C19", cfgs=[dict(nbs=b, n=n) for b in SORTS for n in (1, 2)] + [dict(nbs="2d", n=3)])
def json_module(M, X, nbs, n):
    """json_tb_format: load after save gives the same coefficients, sorted by the length of the neighbors; the documented layout"""
    X.merge()
    neighbors = SORTS[nbs]
    H = params(X, neighbors, n)
    with scratch(X):
        M.json_tb_format.save("m.json", neighbors, H)
        with open("m.json") as f:
            data = json.load(f)
        nb, P = M.json_tb_format.load("m.json")
    X.true("keys", sorted(data) == ["band_count", "neighbors", "params"])
    X.eq("band count", data["band_count"], n)
    X.true("dimensions", all(p["v"] == 1 and list(p["dim"]) == [n, n] and len(p["data"]) == n * n and all(len(e) == 2 for e in p["data"]) for p in data["params"]))
    X.eq("neighbors of the file", np.array(data["neighbors"]), np.array(neighbors, dtype=float))
    d = np.linalg.norm(np.array(nb, dtype=float), axis=-1)
    X.true("sorted", bool(np.all(np.diff(d) >= -1e-9)))
    X.eq("number", len(nb), len(neighbors))
    for r, p in zip(nb, P):
        i = [k for k, q in enumerate(neighbors) if np.allclose(q, np.array(r, dtype=float))]
        X.true("every neighbor once", len(i) == 1)
        X.eq("coefficients", p, H[i[0]], tol=1e-9)


@harness("C19", cfgs=[dict(n=1), dict(n=2)])
def json_real(M, X, n):
    """files with real valued entries and complex valued entries written by other programs"""
    neighbors = [(0.0, 0.0), (2.0, 0.0), (0.0, 1.0)]
    R = [X.array(f"R{i}", (n, n), -2, 2) for i in range(3)]
    C = [X.carray(f"C{i}", (n, n), -2, 2) for i in range(3)]
    t = lambda v: "@Q@" + txt(v) + "@Q@"

    def text(mats, f):
        o = dict(neighbors=neighbors, band_count=n, params=[dict(v=1, dim=[n, n], data=[f(e) for row in m for e in row]) for m in mats])
        s = json.dumps(o)
        return s.replace('"@Q@', '"' if X.symbolic else '').replace('@Q@"', '"' if X.symbolic else '')
    with scratch(X):
        write("r.json", text(R, t))
        write("c.json", text(C, lambda e: [t(X.conj(e) * 0.5 + e * 0.5) if not X.symbolic else t(e.real), t(e.imag)]) if X.symbolic
              else text(C, lambda e: [t(e.real), t(e.imag)]))
        nb, P = M.json_tb_format.load("r.json")
        nb2, P2 = M.json_tb_format.load("c.json")
    for k, i in enumerate((0, 2, 1)):
        X.eq("neighbors", nb[k], neighbors[i])
        X.eq("real entries", P[k], R[i])
        X.eq("neighbors 2", nb2[k], neighbors[i])
        X.eq("complex entries", P2[k], C[i])


@harness("C19", cfgs=[dict(nbs=b, n=n, cr=cr, ex=ex, lcr=l[0], lex=l[1]) for b, n in (("2d", 2), ("3d", 1), ("half", 1)) for cr, ex in ((False, True), (True, True), (True, False), (False, False))
                      for l in ((False, True),) + (((True, False),) if b == "2d" else ())])
def model_json(M, X, nbs, n, cr, ex, lcr, lex):
    """BandStructureModel saved as json and loaded in any parameter specification has the same hamiltonian for all k"""
    X.merge()
    neighbors = SORTS[nbs]
    B = M.bandstructure.BandStructureModel
    H = hr(X, "H", neighbors, n, 0.1, 2.0)       # the smallest coefficients are part of json_module
    m = B.init_tight_binding(M.symmetry.Symmetry.none(len(neighbors[0])), neighbors, n, cos_reduced=cr, exp=ex)
    m.set_params_complex(H)
    with scratch(X):
        m.save("model.json")
        m2 = B.load("model.json", cos_reduced=lcr, exp=lex)
        a = M.tight_binding_asym.AsymTightBindingModel.load("model.json")
    k = X.stack([X.turn(f"k{i}") for i in range(len(neighbors[0]))])
    ref = fourier(X, H, neighbors, k)
    X.eq("hamiltonian", m2.f(X.stack([k]))[0], ref, tol=1e-8)
    X.eq("the saved model is unchanged", m.f(X.stack([k]))[0], ref, tol=1e-8)
    X.eq("AsymTightBindingModel", a.H.f(X.stack([k]))[0], ref, tol=1e-8)


@harness("C19", cfgs=[dict(nbs="2d", n=2), dict(nbs="half", n=1), dict(nbs="unsorted", n=1)])
def asym_json(M, X, nbs, n):
    """AsymTightBindingModel saved as json and loaded has the same hamiltonian for all k"""
    X.merge()
    neighbors = SORTS[nbs]
    A = M.tight_binding_asym
    H = hr(X, "H", neighbors, n, 0.1, 2.0)
    tb = A.AsymTightBindingModel(A.HermitianFourierSeries(neighbors, H))
    with scratch(X):
        tb.save("model.json")
        tb2 = A.AsymTightBindingModel.load("model.json")
        m2 = M.bandstructure.BandStructureModel.load("model.json", format="json")
    k = X.stack([X.turn(f"k{i}") for i in range(len(neighbors[0]))])
    ref = fourier(X, H, neighbors, k)
    X.eq("hamiltonian", tb2.H.f(X.stack([k]))[0], ref, tol=1e-8)
    X.eq("BandStructureModel", m2.f(X.stack([k]))[0], ref, tol=1e-8)


@harness("C19", cfgs=[dict(group=g, nbs=b, n=n, cr=cr, ex=ex) for g, b, n in (("none", "2d", 2), ("inv", "2d", 2), ("rot", "rot", 1), ("cube", "cube", 1))
                      for cr, ex in ((True, False), (False, True), (False, False))])
def python_format(M, X, group, nbs, n, cr, ex):
    """the python format keeps parameters, neighbors and symmetry: the loaded model has the same hamiltonian for all k"""
    S = M.symmetry.Symmetry
    sym = dict(none=S.none, inv=S.inv, rot=lambda d: S.even_cyclic(2), cube=lambda d: S.cubic(False))
    neighbors = dict(rot=[(0, 0), (1, 0)], cube=[(0, 0, 0), (1, 0, 0)]).get(nbs) or SORTS[nbs]
    B = M.bandstructure.BandStructureModel
    if group == "cube":
        sym = S.cubic(True)
    elif group == "rot":
        sym = S([np.eye(2), np.array([[0.0, -1.0], [1.0, 0.0]]), -np.eye(2), np.array([[0.0, 1.0], [-1.0, 0.0]])])
    else:
        sym = sym[group](2)
    H = hr_herm(X, "H", neighbors, n) if sym.inversion or group == "rot" else hr(X, "H", neighbors, n)
    m = B.init_tight_binding(sym, neighbors, n, cos_reduced=cr, exp=ex)
    m.set_params_complex(H)
    with scratch(X):
        m.save("model.repr")
        m2 = B.load("model.repr")
    k = X.stack([X.turn(f"k{i}") for i in range(len(neighbors[0]))])
    K = X.stack([k])
    X.eq("hamiltonian", m2.f(K)[0], m.f(K)[0], tol=1e-8)
    X.true("symmetry", len(m2.sym) == len(sym) and bool(m2.sym.inversion) == bool(sym.inversion) and (len(sym.S) == 0 or np.allclose(m2.sym.S, sym.S)))
    X.true("neighbors", np.allclose(np.array(m2.neighbors, dtype=float), np.array(m.neighbors, dtype=float)))


LATTICE = np.array([[0.0, 1.5, 1.5], [1.5, 0.0, 1.25], [-1.5, 1.5, 0.5]])
# (R list of the file, degeneracies)
FILES = {
    "unit": ([(-1, 0, 0), (0, 0, 0), (1, 0, 0)], [1, 1, 1]),
    "pairs": ([(-1, 0, 0), (0, 0, 0), (1, 0, 0)], [2, 1, 2]),
    "first": ([(0, -1, 0), (-1, 1, 0), (0, 0, 0), (1, -1, 0), (0, 1, 0)], [1, 3, 1, 3, 1]),
    "origin": ([(0, 0, -1), (0, 0, 0), (0, 0, 1)], [1, 2, 1]),
    "neighbors": ([(-1, 0, 0), (1, 0, 0), (0, 0, 0), (0, 1, -1), (0, -1, 1)], [2, 2, 1, 3, 3]),    # R next to -R
    "many": ([(-1, 0, 0), (-1, 1, 1), (0, -1, 0), (0, 0, 0), (0, 1, 0), (1, -1, -1), (1, 0, 0)], [2, 4, 6, 1, 6, 4, 2]),
}


def w90(X, case, n):
    Rs, deg = FILES[case]
    mats = {}
    for i, R in enumerate(Rs):
        neg = tuple(-x for x in R)
        if R == neg:
            mats[R] = X.hermitian(f"H{i}", n, -2, 2)
        elif neg in mats:
            mats[R] = dag(mats[neg])
        else:
            mats[R] = X.carray(f"H{i}", (n, n), -2, 2)
    return Rs, deg, mats


def reference(X, Rs, deg, mats, k):
    H = 0.0
    for R, d in zip(Rs, deg):
        z = X.expi(sum(a * b for a, b in zip(k, R)))
        H = H + z * mats[R] / d
    return H


def degeneracies(deg, per=15):
    return "".join("".join(f"{d:5d}" for d in deg[i:i + per]) + "\n" for i in range(0, len(deg), per))


def hr_text(Rs, deg, mats, n, per=15):
    s = " written on  1Jan2024 at 00:00:00\n" + f"{n:12d}\n{len(Rs):12d}\n" + degeneracies(deg, per)
    for R in Rs:
        for j in range(n):
            for i in range(n):
                v = mats[R][i, j]
                s += "".join(f"{x:5d}" for x in R) + f"{i + 1:5d}{j + 1:5d} {txt(v.real)} {txt(v.imag)}\n"
    return s


def tb_text(Rs, deg, mats, pos, n, per=15):
    s = " written on  1Jan2024 at 00:00:00\n" + "".join("  ".join(repr(float(x)) for x in row) + "\n" for row in LATTICE)
    s += f"{n:12d}\n{len(Rs):12d}\n" + degeneracies(deg, per)
    for R in Rs:
        s += "\n" + "".join(f"{x:5d}" for x in R) + "\n"
        for j in range(n):
            for i in range(n):
                v = mats[R][i, j]
                s += f"{i + 1:5d}{j + 1:5d} {txt(v.real)} {txt(v.imag)}\n"
    for R in Rs:
        s += "\n" + "".join(f"{x:5d}" for x in R) + "\n"
        for j in range(n):
            for i in range(n):
                v = pos[R][i, j]
                s += f"{i + 1:5d}{j + 1:5d} " + " ".join(f"{txt(e.real)} {txt(e.imag)}" for e in v) + "\n"
    return s


@harness("C19", cfgs=[dict(case=c, n=n, per=p, model=m) for c, n, p in (("unit", 2, 15), ("pairs", 2, 15), ("first", 1, 2), ("origin", 1, 15), ("neighbors", 1, 15), ("many", 1, 3), ("many", 2, 15)) for m in ("band", "asym")],
         thorough=[dict(case="many", n=3, per=5, model="band"), dict(case="first", n=3, per=15, model="asym")])
def wannier_hr(M, X, case, n, per, model):
    """a model loaded from a wannier90 ..._hr.dat file has the hamiltonian of wannier90 for all k"""
    Rs, deg, mats = w90(X, case, n)
    with scratch(X):
        write("a_hr.dat", hr_text(Rs, deg, mats, n, per))
        m = M.bandstructure.BandStructureModel.load("a_hr.dat") if model == "band" else M.tight_binding_asym.AsymTightBindingModel.load("a_hr.dat")
    k = X.stack([X.turn(f"k{i}") for i in range(3)])
    f = m.f if model == "band" else m.H.f
    X.eq("hamiltonian", f(X.stack([k]))[0], reference(X, Rs, deg, mats, k), tol=1e-8)


@harness("C19", cfgs=[dict(case=c, n=n, per=p, model=m) for c, n, p in (("unit", 2, 15), ("pairs", 1, 15), ("first", 1, 2), ("origin", 2, 15), ("neighbors", 1, 15), ("many", 1, 3)) for m in ("band", "asym", "qe")],
         thorough=[dict(case="many", n=2, per=5, model="band")])
def wannier_tb(M, X, case, n, per, model):
    """a model loaded from a wannier90 ..._tb.dat file has the hamiltonian of wannier90 for all k; position matrix elements belong to their neighbors"""
    Rs, deg, mats = w90(X, case, n)
    pos = {}
    if model == "qe":
        pos = {R: X.carray(f"r{i}", (n, n, 3), -2, 2) for i, R in enumerate(Rs)}
    else:
        pos = {R: np.ones((n, n, 3)) * (0.25 + 0.5j) for R in Rs}
    k = X.stack([X.turn(f"k{i}") for i in range(3)])
    with scratch(X):
        write("a_tb.dat", tb_text(Rs, deg, mats, pos, n, per))
        nb, P, r, _, A = M.wannier90_tb_format.load_tb("a_tb.dat")
        if model == "qe":
            q = M.qespresso_interface.QECrystal("a", np.eye(3), [(0, 0, 0)], ["Cu"], 10.0)
            nb, P, r = q.read_wannier_tb()
            H = fourier(X, P, [tuple(int(x) for x in R) for R in nb], k)
        elif model == "band":
            H = M.bandstructure.BandStructureModel.load("a_tb.dat").f(X.stack([k]))[0]
        else:
            H = M.tight_binding_asym.AsymTightBindingModel.load("a_tb.dat").H.f(X.stack([k]))[0]
    X.eq("lattice", A, LATTICE)
    X.eq("hamiltonian", H, reference(X, Rs, deg, mats, k), tol=1e-8)
    for R, e in zip(nb, r):
        R = tuple(int(x) for x in R)
        X.eq("position matrix elements", e, pos[R] / deg[Rs.index(R)], tol=1e-8)
