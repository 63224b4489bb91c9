"""C18: crystals which are passed to Quantum Espresso and wannier90"""
import contextlib
import io
import os
import re
import numpy as np
from symex.driver import harness, assumptions
from symex.files import scratch, write, txt, num
from .common import *

assumptions("C18", "lattice parameters, angles, positions and cutoffs are symbolic, the number and types of atoms and the lattices of multi atom crystals are enumerated",
            "Quantum Espresso itself is not run: the written input is compared with the crystal, numbers are written as text without rounding")

MASS = dict(H=1.008, C=12.011, Si=28.0855, Fe=55.845, Cu=63.546, Au=196.9666, Na=22.98977, Cl=35.45)
BOHR = 0.529177210


def conventional(name, X):
    """(arguments, angles, vectors of the conventional cell as columns, centering vectors in conventional coordinates)"""
    a, b, c = X.real("a", 0.5, 3), X.real("b", 0.5, 3), X.real("c", 0.5, 3)
    ortho = [[a, 0.0, 0.0], [0.0, b, 0.0], [0.0, 0.0, c]]
    tetra = [[a, 0.0, 0.0], [0.0, a, 0.0], [0.0, 0.0, c]]
    cube = [[a, 0.0, 0.0], [0.0, a, 0.0], [0.0, 0.0, a]]
    I, B, F = [(.5, .5, .5)], [(.5, .5, 0)], [(.5, .5, 0), (.5, 0, .5), (0, .5, .5)]
    return dict(sc=((a,), cube, []), fcc=((a,), cube, F), bcc=((a,), cube, I),
                orthorhombic=((a, b, c), ortho, []), orthorhombic_base_centered=((a, b, c), ortho, B),
                orthorhombic_body_centered=((a, b, c), ortho, I), orthorhombic_face_centered=((a, b, c), ortho, F),
                tetragonal=((a, c), tetra, []), tetragonal_body_centered=((a, c), tetra, I))[name]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


class Fixed:
    """concrete lattice parameters"""
    def real(self, name, lo, hi):
        return dict(a=1.25, b=1.5, c=2.0)[name]


@harness("C18", cfgs=[dict(name=n) for n in ("sc", "fcc", "bcc", "orthorhombic", "orthorhombic_base_centered", "orthorhombic_body_centered", "orthorhombic_face_centered", "tetragonal", "tetragonal_body_centered")])
def centered(M, X, name):
    """the lattice vectors span exactly the conventional cell with its centering, the cell is right handed"""
    f = getattr(M.qespresso_interface, name)
    args, conv, center = conventional(name, X)
    A = f(*args)
    a0, c0, _ = conventional(name, Fixed())
    A0 = np.array(f(*a0), dtype=float)
    V = np.concatenate([np.eye(3), np.array(center).reshape(-1, 3).T], axis=1)     # generators in conventional coordinates
    N = np.linalg.solve(A0, np.array(c0).T @ V)
    X.true("integer combinations", np.linalg.norm(N - np.round(N)) < 1e-9)
    C = X.stack(conv).T
    X.eq("contains the conventional cell and the centering", A @ np.round(N), C @ V)
    X.eq("volume", det3(A), det3(conv) / (1 + len(center)))


@harness("C18", cfgs=[dict()])
def hexagonal(M, X):
    """hexagonal lattice: two vectors of length a with 120 degrees, one of length c orthogonal to them"""
    a, c = X.real("a", 0.5, 3), X.real("c", 0.5, 3)
    A = M.qespresso_interface.hexagonal(a, c)
    X.eq("metric", A.T @ A, X.stack([X.stack([a * a, -a * a / 2, 0.0]), X.stack([-a * a / 2, a * a, 0.0]), X.stack([0.0, 0.0, c * c])]))
    X.eq("volume", det3(A), a * a * c * 3**.5 / 2)


@harness("C18", cfgs=[dict()])
def rhombohedral(M, X):
    """rhombohedral lattice: three vectors of length a with pairwise angle alpha"""
    a = X.real("a", 0.5, 3)
    alpha = X.angle("alpha", 0.2, 2.0)
    A = M.qespresso_interface.rhombohedral(a, alpha)
    G = A.T @ A
    ca = np.cos(alpha) if not X.symbolic else M.np.cos(alpha)
    for i in range(3):
        for j in range(i + 1):
            X.eq("metric", G[i, j], a * a if i == j else a * a * ca)
    X.le("right handed", 1e-6, det3(A))


@harness("C18", cfgs=[dict(name=n) for n in ("monoclinic", "monoclinic_base_centered")])
def monoclinic(M, X, name):
    """monoclinic lattices: a orthogonal to b, b orthogonal to c, angle beta between a and c"""
    a, b, c = X.real("a", 0.5, 3), X.real("b", 0.5, 3), X.real("c", 0.5, 3)
    beta = X.angle("beta", 0.2, 2.9)
    A = getattr(M.qespresso_interface, name)(a, b, c, beta)
    cb, sb = M.np.cos(beta), M.np.sin(beta)
    N = np.eye(3) if name == "monoclinic" else np.array([[1.0, -1.0, 0.0], [1.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
    C = A @ N       # conventional cell
    X.eq("metric", C.T @ C, X.stack([X.stack([a * a, 0.0, a * c * cb]), X.stack([0.0, b * b, 0.0]), X.stack([a * c * cb, 0.0, c * c])]))
    X.eq("volume", det3(A) * (1 if name == "monoclinic" else 2), a * b * c * sb)


@harness("C18", cfgs=[dict(beta=b) for b in (1.2, 2.0)] + [dict(beta=0.7, sharp=True)], thorough=[dict(beta=b) for b in (None, 1.2, 2.0, 1.0)] + [dict(beta=0.5, sharp=True), dict(beta=2.4, sharp=True)], weight=20)
def triclinic(M, X, beta, sharp=False):
    """triclinic lattice: lengths a, b, c and angles alpha (b, c), beta (a, c), gamma (a, b)"""
    a, b, c = X.real("a", 0.5, 3), X.real("b", 0.5, 3), X.real("c", 0.5, 3)
    alpha, gamma = X.angle("alpha", 1.3, 1.8), X.angle("gamma", 1.2, 1.9)
    if sharp:
        alpha, gamma = X.angle("alpha", 0.55, 0.75), X.angle("gamma", 0.6, 0.8) if beta < 1 else X.angle("gamma", 2.2, 2.5)
    if beta is None:
        beta = X.angle("beta", 1.3, 1.7)
    A = M.qespresso_interface.triclinic(a, b, c, alpha, beta, gamma)
    ca, cb, cg = (M.np.cos(t) for t in (alpha, beta, gamma))
    G = A.T @ A
    X.eq("a", G[0, 0], a * a)
    X.eq("b", G[1, 1], b * b)
    X.eq("c", G[2, 2], c * c, tol=1e-5)
    X.eq("gamma", G[0, 1], a * b * cg)
    X.eq("beta", G[0, 2], a * c * cb)
    X.eq("alpha", G[1, 2], b * c * ca, tol=1e-5)
    X.eq("upright", X.stack([A[1, 0], A[2, 0], A[2, 1]]), [0.0, 0.0, 0.0])
    for i in range(3):
        X.le("right handed", 0.0, A[i, i])


def rejected(f, *a):
    try:
        f(*a)
    except AssertionError:
        return True
    return False


@harness("C18", cfgs=[dict(name=n, nargs=m, bad=i) for n, m in (("triclinic", 3), ("monoclinic", 3), ("monoclinic_base_centered", 3), ("orthorhombic", 3), ("orthorhombic_base_centered", 3), ("orthorhombic_body_centered", 3),
                                                               ("orthorhombic_face_centered", 3), ("tetragonal", 2), ("tetragonal_body_centered", 2), ("rhombohedral", 1)) for i in range(m)])
def invalid_lengths(M, X, name, nargs, bad):
    """lattices with a negative length are rejected"""
    angles = dict(triclinic=(1.4, 1.5, 1.6), monoclinic=(1.2,), monoclinic_base_centered=(1.2,), rhombohedral=(1.0,)).get(name, ())
    ls = [X.real("bad", -2, -0.01) if i == bad else 1.0 + i for i in range(nargs)]
    X.true("rejected", rejected(getattr(M.qespresso_interface, name), *ls, *angles))


@harness("C18", cfgs=[dict(case=c) for c in ("alpha", "beta", "gamma", "sum", "triangle", "monoclinic", "monoclinic_base_centered", "rhombohedral", "rhombohedral small")])
def invalid_angles(M, X, case):
    """impossible combinations of angles are rejected"""
    q = M.qespresso_interface
    if case in ("alpha", "beta", "gamma"):
        t = X.real("t", 3.15, 6.0)
        X.true("rejected", rejected(q.triclinic, 1.0, 1.0, 1.0, *[t if c == case else 0.1 for c in ("alpha", "beta", "gamma")]))
    elif case == "sum":
        t = X.angle("t", 2.2, 3.0)
        X.true("rejected", rejected(q.triclinic, 1.0, 1.0, 1.0, t, 2.1, 2.1))
    elif case == "triangle":
        t = X.angle("t", 1.1, 2.9)
        X.true("rejected", rejected(q.triclinic, 1.0, 1.0, 1.0, t, 0.5, 0.5))
    elif case == "rhombohedral":
        X.true("rejected", rejected(q.rhombohedral, 1.0, X.real("t", 2.1, 6.0)))
    elif case == "rhombohedral small":
        X.true("rejected", rejected(q.rhombohedral, 1.0, X.real("t", -1.0, -0.01)))
    else:
        X.true("rejected", rejected(getattr(q, case), 1.0, 1.0, 1.0, X.real("t", 3.15, 6.0)))
        X.true("rejected", rejected(getattr(q, case), 1.0, 1.0, 1.0, X.real("s", -3.0, -0.01)))


CELLS = {
    "cubic": np.diag([3.0, 3.0, 3.0]),
    "fcc": np.array([[-1.5, 0.0, -1.5], [0.0, 1.5, 1.5], [1.5, 1.5, 0.0]]),
    "skew": np.array([[3.0, 0.5, -1.0], [0.25, 2.5, 0.75], [0.0, -0.5, 4.0]]),
    "left": np.array([[0.0, 2.0, 0.0], [2.5, 0.0, 0.5], [0.0, 0.0, 3.0]]),
}
ATOMS = {"Cu": ["Cu"], "NaCl": ["Na", "Cl"], "CuCuAu": ["Cu", "Au", "Cu"]}


def crystal(M, X, cell, atoms, unit="angstrom", scale=True, ecut=None):
    s = X.real("scale", 0.5, 2.0) if scale else 1.0
    A = CELLS[cell] * s
    basis = X.array("x", (len(ATOMS[atoms]), 3), 0, 1)
    q = M.qespresso_interface.QECrystal("verif", A, basis, ATOMS[atoms], 30.0 if ecut is None else ecut, unit=unit)
    return q, A, basis


@harness("C18", cfgs=[dict(cell=c, atoms=a, unit=u) for c, a, u in (("cubic", "Cu", "angstrom"), ("fcc", "Cu", "bohr"), ("skew", "NaCl", "angstrom"), ("left", "CuCuAu", "angstrom"), ("left", "NaCl", "bohr"))])
def density(M, X, cell, atoms, unit):
    """the mass density is the mass of the atoms per volume of the cell; scale_to_density scales all lattice vectors to reach the target"""
    q, A, basis = crystal(M, X, cell, atoms, unit)
    s = q.A[0, 1] / CELLS[cell][0, 1] if CELLS[cell][0, 1] else q.A[0, 0] / CELLS[cell][0, 0]
    m = sum(MASS[t] for t in ATOMS[atoms]) * 1.66053907e-27
    V = abs(np.linalg.det(CELLS[cell])) * (1e-30 if unit == "angstrom" else (BOHR * 1e-10)**3)
    X.eq("mass density", q.mass_density() * s * s * s / (m / V), 1.0, tol=2e-3)
    X.eq("lattice vectors in m", q.lattice_vectors_in_m() * 1e10, A * (1.0 if unit == "angstrom" else BOHR), tol=1e-6)
    A0 = A * 1.0
    target = m / V / X.real("t", 0.9, 1.1)**3
    q.scale_to_density(target)
    X.eq("reaches the density", q.mass_density() / (m / V), target / (m / V), tol=1e-6)
    X.eq("the given lattice is not changed", A, A0)
    X.eq("uniform scaling", q.A * CELLS[cell][1, 1] if CELLS[cell][1, 1] else q.A * CELLS[cell][1, 0], CELLS[cell] * (q.A[1, 1] if CELLS[cell][1, 1] else q.A[1, 0]), tol=1e-6)


def namelist(text):
    """all key = value pairs of the fortran namelists"""
    head = re.split(r"\n(?:CELL_PARAMETERS|ATOMIC_SPECIES)", text)[0]
    r = {}
    for k, v in re.findall(r"(\w+(?:\(\d+\))?)\s*=\s*('[^']*'|\"[^\"]*\"|[^,\s]+)", head):
        assert k not in r, f"{k} given twice"
        r[k] = v.strip("'\"")
    return r


def cards(text):
    """cards of the input as lists of lines"""
    r, cur = {}, None
    for line in text.split("\n"):
        w = line.split()
        if w and w[0] in ("CELL_PARAMETERS", "ATOMIC_SPECIES", "ATOMIC_POSITIONS", "K_POINTS"):
            cur = r.setdefault(w[0], [])
            cur.append(" ".join(w[1:]).strip("{}()"))
        elif w and cur is not None:
            cur.append(w)
    return r


def check_crystal_cards(X, c, q, A, basis, atoms, unit):
    X.true("cell unit", c["CELL_PARAMETERS"][0] == unit)
    for i in range(3):
        X.eq("lattice vectors are the rows", [num(t) for t in c["CELL_PARAMETERS"][1 + i]], A[:, i])
    X.true("three lattice vectors", len(c["CELL_PARAMETERS"]) == 4)
    X.true("position unit", c["ATOMIC_POSITIONS"][0] == "crystal")
    X.eq("number of atoms", len(c["ATOMIC_POSITIONS"]) - 1, len(basis))
    for line, t, b in zip(c["ATOMIC_POSITIONS"][1:], ATOMS[atoms], basis):
        X.true("type", line[0] == t and len(line) == 4)
        X.eq("position", [num(e) for e in line[1:]], b)
    species = {l[0]: l for l in c["ATOMIC_SPECIES"][1:]}
    X.true("species", sorted(species) == sorted(set(ATOMS[atoms])) and len(species) == len(c["ATOMIC_SPECIES"]) - 1)
    for t, l in species.items():
        X.true("pseudopotential", l[2] == t + ".UPF")
        X.eq("mass", float(l[1]), MASS[t], tol=MASS[t] * 1e-3)


@harness("C18", cfgs=[dict(call=f, cell=c, atoms=a, unit=u, hot=h) for f, c, a, u, h in (
    ("scf", "skew", "NaCl", "angstrom", False), ("scf", "fcc", "Cu", "bohr", True), ("scf2", "cubic", "Cu", "angstrom", True), ("scf1", "cubic", "Cu", "bohr", False), ("relax0", "fcc", "NaCl", "angstrom", False), ("nscf", "skew", "CuCuAu", "angstrom", True), ("nscf", "cubic", "Cu", "angstrom", False),
    ("nscf_nosym", "skew", "NaCl", "bohr", True), ("bands", "skew", "NaCl", "angstrom", False), ("relax", "left", "CuCuAu", "angstrom", True))])
def input_files(M, X, call, cell, atoms, unit, hot):
    """the input written for pw.x describes the crystal, the cutoff, the temperature, the k-points and the number of bands"""
    e = X.real("ecut", 10, 100)
    q, A, basis = crystal(M, X, cell, atoms, unit, ecut=e)
    q.T = X.real("T", 1, 1000) if hot else 0.0
    runs = []
    q._run = lambda *a: runs.append(a)
    pp, M.qespresso_interface.pp_files = M.qespresso_interface.pp_files, {t: t + ".UPF" for t in ATOMS[atoms]}
    try:
        with scratch(X):
            if call == "scf":
                q.scf(4, 5, k_grid_size3=6)
            elif call == "scf2":
                q.scf(4, 5)
            elif call == "scf1":
                q.scf(4)
            elif call == "relax0":
                q.relax(fix_volume=True)
            elif call == "relax":
                q.relax(3)
            elif call == "bands":
                q.bands(7, M.qespresso_interface.k_points([(X.real("k0", 0, 1), 0.0, 0.5), (0.25, 0.5, 0.0)], "crystal"))
            else:
                getattr(q, call)(M.qespresso_interface.k_grid(6, 5), **{"band_count": 9})
            X.eq("one run", len(runs), 1)
            with open(f"verif.{runs[0][1]}.in") as f:
                text = f.read()
    finally:
        M.qespresso_interface.pp_files = pp
    n = namelist(text)
    case, call = call, call.rstrip("012")
    X.true("program", runs[0][0] == "pw")
    X.true("calculation", n["calculation"] == {"nscf_nosym": "nscf", "relax": "vc-relax"}.get(call, call))
    X.true("prefix", n["prefix"] == "verif")
    X.true("no predefined lattice", n["ibrav"] == "0")
    X.eq("nat", int(n["nat"]), len(ATOMS[atoms]))
    X.eq("ntyp", int(n["ntyp"]), len(set(ATOMS[atoms])))
    X.eq("cutoff", num(n["ecutwfc"]), e)
    if call != "bands":
        X.true("smearing", (n["smearing"] == "fermi-dirac") == hot)
        X.eq("smearing energy (Ry)", num(n["degauss"]), q.T * 6.33362e-6 if hot else 0.02, tol=1e-7)
    if call in ("nscf", "nscf_nosym"):
        X.eq("bands", int(n["nbnd"]), 9)
        X.true("symmetry", (call == "nscf_nosym") == (n.get("nosym") in ("true", ".true.") and n.get("noinv") in ("true", ".true.")))
    c = cards(text)
    check_crystal_cards(X, c, q, A, basis, atoms, unit)
    k = c["K_POINTS"]
    if call == "bands":
        X.eq("bands", int(n["nbnd"]), 7)
        X.true("k unit", k[0] == "crystal" and k[1] == ["2"])
        X.eq("k", [num(t) for t in k[2]], [X.real("k0", 0, 1), 0.0, 0.5, 1.0])
        X.eq("k", [num(t) for t in k[3]], [0.25, 0.5, 0.0, 1.0])
    else:
        grid = dict(scf=[4, 5, 6], scf2=[4, 5, 4], scf1=[4, 4, 4], relax=[3, 3, 3], relax0=[4, 4, 4]).get(case, [6, 5, 6])
        X.true("k grid", k[0] == "automatic" and [int(t) for t in k[1]] == grid + [0, 0, 0])


def same_words(X, label, a, b):
    """two texts have the same words and the same numbers"""
    X.true(label, len(a) == len(b))
    for x, y in zip(a, b):
        try:
            u, v = num(x), num(y)
        except ValueError:
            X.true(label, x == y)
            continue
        X.eq(label, u, v)


@harness("C18", cfgs=[dict(cell=c, atoms=a, unit=u, grid=g) for c, a, u, g in (("skew", "NaCl", "angstrom", None), ("fcc", "CuCuAu", "bohr", 2))])
def wannier_input(M, X, cell, atoms, unit, grid):
    """the input written for wannier90 contains the crystal, the windows and the k-points of the calculation; k-paths are in crystal coordinates"""
    q, A, basis = crystal(M, X, cell, atoms, unit)
    ks = [(i / 2, j / 2, l / 2) for i in range(2) for j in range(2) for l in range(2)]
    K = X.array("dk", (8, 3), -1e-3, 1e-3) + np.array(ks)
    w = [X.real(f"w{i}", -5, 5) for i in range(4)]
    q.read_bands_crystal = lambda incomplete=False: (K, np.zeros((8, 5)), None, 0.0)
    q._run_simple = lambda *a: None
    An = np.array([[0.5, 0.5, 0.0], [0.5, 0.0, 0.5], [0.0, 0.5, 0.5]])
    p0, p1, p2 = X.array("p0", 3, -1, 1), X.array("p1", 3, -1, 1), np.array([0.5, 0.5, 0.5])
    path = M.kpaths.KPath(p0, "A").to(p1, "B", N=3).to(p2, "C", N=2)
    with scratch(X):
        q.prepare_wannier((w[0], w[1]), (w[2], w[3]), wannier_count=4, grid_size=grid)
        with open("verif.win") as f:
            text = f.read()
        kp = q.k_path_wannier(path, An)
        q.prepare_plot_wannier_bands(path, An, wannier_count=4, grid_size=grid)
        with open("verif.win") as f:
            plot = f.read()
    # evaluation of the model of wannier90 along the path: the same crystal and k-points, and the path
    second = [l.split() for l in plot.split("\n")]
    keys = {l[0]: l[2] for l in second if len(l) >= 3 and l[1] == "="}
    X.true("evaluation", keys["num_bands"] == "5" and keys["num_wann"] == "4" and keys["restart"] == "plot" and keys["bands_plot"] == "true" and keys["num_iter"] == "0" and keys["dis_num_iter"] == "0")
    X.true("samples of the first segment", keys["bands_num_points"] == "3")
    lines = [l.split() for l in text.split("\n")]
    for name in ("unit_cell_cart", "atoms_frac", "kpoints"):
        cut = lambda t: t[t.index(["begin", name]):t.index(["end", name])]
        same_words(X, "same data", sum(cut(second), []), sum(cut(lines), []))
    same_words(X, "path", plot[plot.index("begin kpoint_path"):plot.index("end kpoint_path") + len("end kpoint_path")].split(), kp.split())
    key = {l[0]: l[2] for l in lines if len(l) >= 3 and l[1] == "="}
    X.true("counts", key["num_bands"] == "5" and key["num_wann"] == "4")
    for name, v in zip(("dis_win_min", "dis_win_max", "dis_froz_min", "dis_froz_max"), w):
        X.eq(name, num(key[name]), v)

    def block(name):
        a = [l for l in lines].index(["begin", name])
        return lines[a + 1:lines.index(["end", name])]
    cell_ = block("unit_cell_cart")
    X.true("unit", cell_[0][0] == unit)
    for i in range(3):
        X.eq("lattice vectors are the rows", [num(t) for t in cell_[1 + i]], A[:, i])
    for l, t, b in zip(block("atoms_frac"), ATOMS[atoms], basis):
        X.true("type", l[0] == t)
        X.eq("position", [num(e) for e in l[1:]], b)
    X.eq("atoms", len(block("atoms_frac")), len(basis))
    got = block("kpoints")
    X.eq("number of k-points", len(got), 8)
    if grid is None:
        for l, k in zip(got, K):
            X.eq("k-points", [num(t) for t in l], k)
    else:
        X.true("k-points", sorted(tuple(float(t) for t in l) for l in got) == ks)
    X.true("grid", [l[2:] for l in lines if l[:2] == ["mp_grid", "="]] == [["2", "2", "2"]])
    seg = [l.split() for l in kp.split("\n")]
    X.true("path block", seg[0] == ["begin", "kpoint_path"] and seg[-1] == ["end", "kpoint_path"] and len(seg) == 4)
    for l, (na, a), (nb, b) in zip(seg[1:], (("A", p0), ("B", p1)), (("B", p1), ("C", p2))):
        X.true("names", l[0] == na and l[4] == nb)
        X.eq("start in crystal coordinates", [num(t) for t in l[1:4]], a @ An)
        X.eq("end in crystal coordinates", [num(t) for t in l[5:8]], b @ An)


def xml_crystal(A, basis, atoms, section, smearing=""):
    """the xml of pw.x: lengths in bohr, cartesian positions"""
    v = lambda x: " ".join(txt(e) for e in x)
    pos = "".join(f'<atom name="{t}" index="{i + 1}">{v(A @ b)}</atom>' for i, (t, b) in enumerate(zip(ATOMS[atoms], basis)))
    sp = "".join(f'<species name="{t}"><mass>1.0</mass><pseudo_file>{t}.UPF</pseudo_file></species>' for t in sorted(set(ATOMS[atoms])))
    other = "input" if section == "output" else "output"
    return (f'<?xml version="1.0"?><qes:espresso xmlns:qes="http://x" Units="Hartree atomic units"><parallel_info><nprocs>8</nprocs><ntasks>2</ntasks><npool>4</npool><ndiag>3</ndiag></parallel_info>'
            f'<{other}><atomic_species/></{other}>'
            f'<{section}><atomic_species>{sp}</atomic_species><atomic_structure nat="{len(basis)}"><atomic_positions>{pos}</atomic_positions>'
            f'<cell><a1>{v(A[:, 0])}</a1><a2>{v(A[:, 1])}</a2><a3>{v(A[:, 2])}</a3></cell></atomic_structure>{smearing}<basis><ecutwfc>15.0</ecutwfc></basis></{section}></qes:espresso>')


@harness("C18", cfgs=[dict(cell=c, atoms=a, out=o) for c, a, o in (("cubic", "Cu", True), ("skew", "NaCl", True), ("left", "CuCuAu", True), ("skew", "CuCuAu", False), ("fcc", "NaCl", False))])
def from_disk(M, X, cell, atoms, out):
    """from_disk: lattice in angstrom, atoms in crystal coordinates, types and pseudopotentials of the calculation"""
    s = X.real("scale", 0.5, 2.0)
    A = CELLS[cell] * s
    basis = X.array("x", (len(ATOMS[atoms]), 3), 0, 1)
    qe = M.qespresso_interface
    pp, qe.pp_files = qe.pp_files, {}
    try:
        with scratch(X):
            write("qe-data/verif.xml", xml_crystal(A, basis, atoms, "output" if out else "input"))
            q = qe.from_disk("verif", read_output=out)
            X.true("available", q.read_available())
        got = dict(qe.pp_files)
    finally:
        qe.pp_files = pp
    X.true("pseudopotentials", got == {t: t + ".UPF" for t in ATOMS[atoms]})
    X.true("unit", q.unit == "angstrom" and q.name == "verif")
    X.eq("lattice", q.A, A * BOHR, tol=1e-6)
    X.eq("positions", q.basis, basis, tol=1e-6)
    X.true("types", [str(t) for t in q.types] == ATOMS[atoms])
    X.true("parallel", (q.nk, q.nd, q.ni, q.nt) == (4, 3, 8, 2))


@harness("C18", cfgs=[dict(call=c) for c in ("bandx", "dos", "projections", "overlaps", "epsilon", "overlaps_for_wannier", "overlaps_for_wannier_sym", "fermi_surface", "wannier", "run")])
def post_processing(M, X, call):
    """the input of the programs which evaluate a calculation names the data of the calculation and the files which are read afterwards; programs are started with the input which was written"""
    e = X.real("ecut", 10, 100)
    q, A, basis = crystal(M, X, "skew", "NaCl", ecut=e)
    runs, cmds = [], []
    if call != "run":
        q._run = lambda *a: runs.append(a)
        q._run_simple = lambda *a: runs.append(a)
    system, os.system = os.system, lambda c: cmds.append(c) or 0
    try:
        with scratch(X), contextlib.redirect_stdout(io.StringIO()):
            if call == "overlaps":
                q.projections(lwrite_overlaps=True)
            elif call == "epsilon":
                q.dielectric_function(nw=123)
            elif call == "overlaps_for_wannier_sym":
                q.overlaps_for_wannier(use_sym=True)
            elif call == "run":
                q.set_multitasking_parameters(nk=3, ni=1, nd=4, nt=5)
                q._run("pw", "scf")
            else:
                getattr(q, call)()
            name = dict(bandx="bandx", dos="dos", projections="projwfc", overlaps="projwfc", epsilon="epsilon", fermi_surface="fs").get(call, "pw2wan")
            if call not in ("wannier", "run"):
                with open(f"verif.{name}.in") as f:
                    text = f.read()
    finally:
        os.system = system
    if call == "wannier":
        X.true("program", runs == [("wannier90", "verif", "verif.wout")])
        return
    if call == "run":
        words = cmds[0].split()
        X.true("one command", len(cmds) == 1 and "pw.x" in words)
        opts = dict(zip(words, words[1:]))
        X.true("parallelisation and input", opts["-nk"] == "3" and opts["-nd"] == "4" and opts["-nt"] == "5" and opts["-in"] == "verif.scf.in" and opts["tee"] == "verif.scf.out")
        return
    n = namelist(text)
    X.true("data of the calculation", n["prefix"] == "verif" and n["outdir"] == "./qe-data/")
    if call == "epsilon":
        X.true("program", len(cmds) == 1 and "epsilon.x" in cmds[0] and "< verif.epsilon.in" in cmds[0])
        X.true("energies", n["nw"] == "123")
        X.eq("largest energy", num(n["wmax"]), e)
    else:
        program = dict(bandx="bands", dos="dos", projections="projwfc", overlaps="projwfc", fermi_surface="fs").get(call, "pw2wannier90")
        X.true("program", runs == [(program, name)])
    if call == "bandx":
        X.true("read afterwards", n["filband"] == "verif.Bandx.dat")
    if call == "dos":
        X.true("read afterwards", n["fildos"] == "verif.Dos.dat")
    if call in ("projections", "overlaps"):
        X.true("overlaps", (n["lwrite_overlaps"].strip(".").lower() in ("true", "t")) == (call == "overlaps"))
    if program_overlaps(call):
        X.true("seed", n["seedname"] == "verif" and n["write_mmn"].strip(".") == "true" and n["write_amn"].strip(".") == "true")
        X.true("symmetry", (n.get("write_dmn") is not None) == call.endswith("sym"))
    if call == "fermi_surface":
        X.true("shown", len(cmds) == 1 and "verif_fs.bxsf" in cmds[0])


def program_overlaps(call):
    return call.startswith("overlaps_for")
