"""C24: readers of the results of Quantum Espresso"""
import os
import numpy as np
from symex.driver import harness, assumptions
from symex.files import scratch, write, write_bin, txt
from .common import *
from .c18 import CELLS, BOHR

assumptions("C24", "numbers in the files are symbolic, the number of k-points, bands, orbitals, plane waves and symmetries is enumerated; cells are enumerated up to a symbolic scale",
            "the files have the layout of Quantum Espresso 7.3, numbers are written as text without rounding", "spinor wavefunctions (npol = 2) are not part of the claim")

HA, RY = 27.211386245988, 13.605693122994
EYE, INV = np.eye(3), -np.eye(3)
C4 = np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
M_ = np.array([[0.0, 1, 0], [1, 0, 0], [0, 0, -1]])
SKEW = np.array([[-1.0, -1, 0], [0, 1, 0], [0, 0, 1]])
C3 = np.array([[0.0, -1, 0], [1, -1, 0], [0, 0, 1]])
GROUPS = {
    "none": ([], []),
    "trivial": ([EYE], [0]),
    "inversion": ([EYE, INV], [0, 0]),
    "c4": ([EYE, C4, C4 @ C4, C4 @ C4 @ C4], [0, 0, 0, 0]),
    "mirror": ([EYE, SKEW], [0, 0]),
    "c3": ([EYE, C3, C3 @ C3], [0, 0, 0]),
    "glide": ([EYE, SKEW], [0, 1]),
    "screw": ([EYE, C4 @ C4, C4, C4 @ C4 @ C4], [0, 0, 1, 1]),
    "half inversion": ([EYE, M_, INV, -M_], [0, 1, 0, 1]),
}


def crystal(M, unit="angstrom", types=("Cu",), name="verif"):
    return M.qespresso_interface.QECrystal(name, np.eye(3), np.zeros((len(types), 3)), list(types), 30.0, unit=unit)


def v(x):
    return " ".join(txt(e) for e in x)


def wrapped(x, n):
    """numbers in lines of n"""
    return "\n".join(v(x[i:i + n]) for i in range(0, len(x), n))


@harness("C24", cfgs=[dict(cell=c, group=g, unit=u, inc=i) for c, g, u, i in (
    ("cubic", "none", "angstrom", False), ("fcc", "trivial", "bohr", False), ("skew", "mirror", "angstrom", True), ("left", "c4", "bohr", True), ("skew", "inversion", "angstrom", False),
    ("skew", "glide", "angstrom", False), ("cubic", "screw", "bohr", False), ("skew", "half inversion", "angstrom", True), ("cubic", "c3", "angstrom", False))])
def bands_crystal(M, X, cell, group, unit, inc):
    """read_bands_crystal: k-points in crystal coordinates, energies in eV, lattice in the unit of the crystal, symmetries of the reciprocal lattice"""
    q = crystal(M, unit)
    s = X.real("scale", 0.5, 2.0)
    A = CELLS[cell] * s
    B = np.linalg.inv(CELLS[cell]).T * 3.0
    K = X.array("k", (3, 3), -1, 1)
    E = X.array("e", (3, 4), -2, 2)
    ef = X.real("ef", -2, 2)
    S, moved = GROUPS[group]
    t = X.array("t", 3, 0.1, 0.4)
    T = [t * (0.5 if m else 0.0) for m in moved]
    frac = any(moved)
    sym = "".join(f"<symmetry><info>crystal_symmetry</info><rotation rank='2'>\n{wrapped(list(np.ravel(r)), 3)}\n</rotation>"
                  + (f"<fractional_translation>{v(ti)}</fractional_translation>" if frac or i % 2 else "") + "</symmetry>" for i, (r, ti) in enumerate(zip(S, T)))
    ks = "".join(f"<ks_energies><k_point weight='0.5'>{v(B @ k)}</k_point><npw>10</npw><eigenvalues size='4'>\n{wrapped(list(e), 3)}\n</eigenvalues><occupations size='4'>1 1 0 0</occupations></ks_energies>" for k, e in zip(K, E))
    xml = (f"<?xml version='1.0'?><qes:espresso xmlns:qes='http://x' Units='Hartree atomic units'><input><cell><a1>1 0 0</a1><a2>0 1 0</a2><a3>0 0 1</a3></cell></input>"
           f"<output><atomic_structure><cell><a1>{v(A[:, 0])}</a1><a2>{v(A[:, 1])}</a2><a3>{v(A[:, 2])}</a3></cell></atomic_structure><symmetries>{sym}</symmetries>"
           f"<basis_set><reciprocal_lattice><b1>{v(B[:, 0])}</b1><b2>{v(B[:, 1])}</b2><b3>{v(B[:, 2])}</b3></reciprocal_lattice></basis_set>"
           f"<band_structure><fermi_energy>{txt(ef)}</fermi_energy>{ks}</band_structure></output></qes:espresso>")
    with scratch(X):
        write("qe-data/verif.save/data-file-schema.xml" if inc else "qe-data/verif.xml", xml)
        k, bands, sym, fermi = q.read_bands_crystal(**({"incomplete": True} if inc else {}))
        X.true("available", q.read_available() == (not inc))
    X.eq("k-points in crystal coordinates", k, K, tol=1e-6)
    X.eq("energies in eV", bands, E * HA, tol=1e-5)
    X.eq("fermi energy", fermi, ef * HA, tol=1e-5)
    X.eq("lattice", q.A, A * (BOHR if unit == "angstrom" else 1.0), tol=1e-6)
    S = S or [EYE]
    Sk = [np.round(np.linalg.inv(r).T) for r in S]
    X.eq("number of symmetries", len(sym), len(S))
    for g, r, m in zip(sym, Sk, moved or [0]):
        X.eq("operation of the reciprocal lattice", g[:3, :3], r)
        if frac:
            ti = t * (0.5 if m else 0.0)
            X.eq("translation", g[3, :3], -(ti @ r))
            X.eq("no column", g[:3, 3], [0.0, 0.0, 0.0])
    # the groups which are made of them
    Sy = M.symmetry.Symmetry
    full, point, strict = Sy.space_group(sym), Sy.point_group(sym), Sy.strict_point_group(sym)
    X.true("space group is projective", full.projective == frac and not point.projective and not strict.projective)
    X.eq("dimension", full.space_dim(), 3)
    ops = lambda g: sorted(tuple(np.round(np.ravel(np.array(o, dtype=float))).astype(int).tolist()) for o in np.asarray(g.get_symmetry_operations()))
    ref = lambda rs: sorted(tuple(np.round(np.ravel(r)).astype(int).tolist()) for r in rs)
    X.true("point group", ops(point) == ref(Sk))
    X.true("strict point group", ops(strict) == ref([r for r, m in zip(Sk, moved or [0]) if not m]))
    X.eq("space group", len(full), len(S))


@harness("C24", cfgs=[dict(nb=n, nk=k, per=p) for n, k, p in ((1, 2, 3), (4, 3, 3), (12, 2, 10), (6, 1, 1))])
def bandx_raw(M, X, nb, nk, per):
    """read_bandx_raw: k-points and bands of the output of bands.x"""
    q = crystal(M)
    K, E = X.array("k", (nk, 3), -1, 1), X.array("e", (nk, nb), -20, 20)
    with scratch(X):
        write("verif.Bandx.dat", f" &plot nbnd= {nb:3d}, nks= {nk:5d} /\n" + "".join(f"            {v(k)}\n  {wrapped(list(e), per)}\n" for k, e in zip(K, E)))
        k, e = q.read_bandx_raw()
    X.eq("k", k, K)
    X.eq("bands", e, E)


@harness("C24", cfgs=[dict(n=n, points=p) for n, p in ((3, 2), (6, 0), (5, 4))])
def bandx(M, X, n, points):
    """read_bandx: positions of the high symmetry points and the plottable bands"""
    q = crystal(M)
    x, E, hs = X.array("x", n, 0, 5), X.array("e", n, -20, 20), X.array("h", points, 0, 5) if points else []
    with scratch(X):
        write("verif.bandx.out", "".join(f"     high-symmetry point:  0.5000 0.5000 0.0000   x coordinate   {txt(h)}\n     something else\n" for h in hs)
              + "\n     Plottable bands (eV) written to file other.dat.gnu\n     Bands written to file verif.Bandx.dat\n")
        write("other.dat.gnu", "".join(f"  {txt(a)}  {txt(b)}\n" + ("\n" if i == 1 else "") for i, (a, b) in enumerate(zip(x, E))))
        sx, z = q.read_bandx()
    X.eq("high symmetry points", len(sx), points)
    for a, b in zip(sx, hs):
        X.eq("positions", a, b)
    X.eq("bands", z, X.stack([x, E]))


@harness("C24", cfgs=[dict(nk=k, nb=b, nw=w, spins=s, ov=o, other=f) for k, b, w, s, o, f in ((1, 2, 3, 1, False, False), (2, 3, 2, 1, True, False), (2, 2, 2, 2, False, True), (1, 2, 2, 2, True, False))])
def projections(M, X, nk, nb, nw, spins, ov, other):
    """read_projections: energies in eV, projections as (k, band, spin, orbital), overlap matrices"""
    q = crystal(M)
    K, E, ef = X.array("k", (nk, 3), -1, 1), X.array("e", (nk, nb), -2, 2), X.real("ef", -2, 2)
    P = X.carray("p", (nk, nb, spins, nw))
    O = X.carray("o", (nk, spins * nw, spins * nw)) if ov else None
    ne = X.real("electrons", 1, 20)
    pair = lambda z: "\n".join(f"{txt(a.real)} {txt(a.imag)}" for a in np.ravel(z))
    order = [(s, w) for s in range(spins) for w in range(nw)][::-1]
    xml = f"<?xml version='1.0'?><PROJECTIONS><HEADER NUMBER_OF_BANDS='{nb}' NUMBER_OF_K-POINTS='{nk}' NUMBER_OF_SPIN_COMPONENTS='{spins}' NUMBER_OF_ATOMIC_WFC='{nw}' NUMBER_OF_ELECTRONS='{txt(ne)}' FERMI_ENERGY='{txt(ef)}'/><EIGENSTATES>"
    for i in range(nk):
        xml += f"<K-POINT Weight='1.0'>\n{v(K[i])}\n</K-POINT><E>\n{wrapped(list(E[i]), 2)}\n</E><PROJS>"
        xml += "".join(f"<ATOMIC_WFC index='{w + 1}' spin='{s + 1}'>\n{pair(P[i, :, s, w])}\n</ATOMIC_WFC>" for s, w in order) + "</PROJS>"
    xml += "</EIGENSTATES>"
    if ov:
        xml += "<OVERLAPS>" + "".join(f"<OVPS dim='{spins * nw}' spin='1'>\n{pair(O[i])}\n</OVPS>" for i in range(nk)) + "</OVERLAPS>"
    xml += "</PROJECTIONS>"
    with scratch(X):
        name = "elsewhere.xml" if other else "qe-data/verif.save/atomic_proj.xml"
        write(name, xml)
        k, bands, p, fermi, n = q.read_projections(*(["elsewhere.xml"] if other else []))
    if ov:
        p, o = p
        X.eq("overlaps", o, O)
    X.eq("k", k, K)
    X.eq("energies in eV", bands, E * RY, tol=1e-5)
    X.eq("projections", p, P)
    X.eq("fermi energy", fermi, ef * RY, tol=1e-5)
    X.eq("electrons", n, ne)


@harness("C24", cfgs=[dict(types=t) for t in (("Cu",), ("Na", "Cl"), ("Cu", "Au", "Cu"), ())])
def orbital_order(M, X, types):
    """read_projections_order_spilling: orbitals of all atoms in order, spilling parameter"""
    q = crystal(M, types=types)
    sp = X.real("spilling", 0, 1)
    n = max(len(types), 2 if not types else 1)
    text = "some header\n\nLowdin Charges: \n\n"
    want = []
    c = X.array("charge", 4, 0, 5)
    for i in range(n):
        a = f"     Atom # {i + 1:3d}: total charge = {txt(c[0])}, "
        text += a + f"s = {txt(c[1])}, \n" + a + f"p =  {txt(c[2])}, pz= {txt(c[3])}, px=  0.34, py=  0.34, \n"
        names = ["s", "pz", "px", "py"]
        if i == 0:
            text += a + "d =  9.6, dz2=  1.9, dxz=  1.9, dyz=  1.9, dx2-y2=  1.9, dxy=  1.9, \n"
            names += ["dz2", "dxz", "dyz", "dx2-y2", "dxy"]
        want += [f"{i + 1}{types[i] if types else ''}_{m}" for m in names]
    text += f"     Spilling Parameter:   {txt(sp)}\n\n     PROJWFC      :      0.79s CPU      0.89s WALL\n"
    with scratch(X):
        write("verif.projwfc.out", text)
        order, spilling = q.read_projections_order_spilling()
    X.true("orbitals", list(order) == want)
    X.eq("spilling", spilling, sp)


def record(items):
    return [("x", [0] * 4)] + items + [("x", [0] * 4)]


def cplx(z):
    return ("d", [e for a in np.ravel(z) for e in (a.real, a.imag)])


class SortedListing:
    """os with a fixed order of the files (the file system may return any)"""

    def __getattr__(self, name):
        return (lambda *a: sorted(os.listdir(*a))) if name == "listdir" else getattr(os, name)


@harness("C24", cfgs=[dict(cell=c, order=o, nb=b) for c, o, b in (("cubic", (1,), 2), ("fcc", (2, 3, 4, 1), 1), ("skew", (2, 3, 1), 2), ("left", (3, 1, 2), 1), ("fcc", (2, 1), 3), ("skew", (4, 2, 3, 1), 1))])
def wavefunctions(M, X, cell, order, nb):
    """read_wavefunctions: k-points in crystal coordinates, plane waves and coefficients of all k-points in the order of the k-points"""
    q = crystal(M)
    B = np.linalg.inv(CELLS[cell]).T * X.real("scale", 0.5, 2.0)
    n = len(order)
    K = X.array("k", (n, 3), -1, 1)
    G = [np.array([[(3 * i + j + l) % 5 - 2 for l in range(3)] for j in range(2 + i % 2)]) for i in range(n)]
    C = [X.carray(f"c{i}", (nb, len(g))) for i, g in enumerate(G)]
    with scratch(X):
        for at, ik in enumerate(order):
            i = ik - 1
            items = record([("i", ik), ("d", list(B @ K[i])), ("i", 1), ("i", 0), ("d", 1.0)])
            items += record([("i", len(G[i])), ("i", len(G[i])), ("i", 1), ("i", nb)])
            items += record([("d", list(B[:, 0]) + list(B[:, 1]) + list(B[:, 2]))])
            items += record([("i", [int(x) for x in np.ravel(G[i])])])
            for b in range(nb):
                items += record([cplx(C[i][b])])
            write_bin(X, f"qe-data/verif.save/wfc{at + 1}.dat", items)
        write("qe-data/verif.save/data-file-schema.xml", "")
        write("qe-data/verif.save/wfc.txt", "")
        real, M.qespresso_interface.os = M.qespresso_interface.os, SortedListing()
        try:
            k, g, c = q.read_wavefunctions()
        finally:
            M.qespresso_interface.os = real
    X.eq("k-points in crystal coordinates", k, K)
    X.eq("number", [len(g), len(c)], [n, n])
    for i in range(n):
        X.true("plane waves", np.array_equal(np.asarray(g[i], dtype=float), G[i]))
        X.true("shape", tuple(np.shape(c[i])) == (nb, len(G[i]), 1))
        X.eq("coefficients", c[i][:, :, 0], C[i])


@harness("C24", cfgs=[dict(cell=c, spins=s, n=n) for c, s, n in (("cubic", 1, 2), ("skew", 1, 4), ("left", 2, 3), ("fcc", 2, 2))])
def charge_density(M, X, cell, spins, n):
    """read_charge_density: reciprocal vectors and complex fourier coefficients for every spin"""
    q = crystal(M)
    B = np.linalg.inv(CELLS[cell]).T * X.real("scale", 0.5, 2.0)
    G = np.array([[X.int(f"g{i}{j}", -9, 9) for j in range(3)] for i in range(n)], dtype=object) if X.symbolic else [[X.int(f"g{i}{j}", -9, 9) for j in range(3)] for i in range(n)]
    R = X.carray("r", (spins, n))
    with scratch(X):
        items = record([("i", 0), ("i", n), ("i", spins)]) + record([("d", list(B[:, 0]) + list(B[:, 1]) + list(B[:, 2]))])
        items += record([("i", [x if X.symbolic else int(x) for x in np.ravel(G)])])
        for s in range(spins):
            items += record([cplx(R[s])])
        write_bin(X, "qe-data/verif.save/charge-density.dat", items)
        g, rho = q.read_charge_density()
    X.eq("coefficients", rho, R)
    X.eq("reciprocal vectors", g, X.stack([X.stack([sum(B[a, l] * G[i][l] for l in range(3)) for a in range(3)]) for i in range(n)]))


@harness("C24", cfgs=[dict(n=3, header=h) for h in (True, False)] + [dict(n=5, header=True)])
def density_of_states(M, X, n, header):
    """read_dos: energies, density and integrated density, fermi energy"""
    q = crystal(M)
    D = X.array("d", (n, 3), -20, 20)
    ef = X.real("ef", -20, 20)
    with scratch(X):
        write("verif.Dos.dat", ("#  E (eV)   dos(E)     Int dos(E) EFermi =   " + txt(ef) + " eV\n" if header else "#  E (eV)   dos(E)     Int dos(E)\n") + "".join(f" {v(r)}\n" for r in D))
        d, fermi = q.read_dos()
    for i in range(3):
        X.eq("columns", d[i], D[:, i])
    if header:
        X.eq("fermi energy", fermi, ef)
    else:
        X.true("no fermi energy", fermi is None)


@harness("C24", cfgs=[dict(n=n) for n in (2, 4)])
def dielectric(M, X, n):
    """read_dielectric_function: energies and complex dielectric function"""
    q = crystal(M)
    w, R, I = X.array("w", n, 0, 20), X.array("r", (n, 3), -9, 9), X.array("i", (n, 3), -9, 9)
    with scratch(X):
        for name, D in (("epsr", R), ("epsi", I)):
            write(f"{name}_verif.dat", "# energy grid [eV]     epsr_x  epsr_y  epsr_z\n#\n\n" + "".join(f" {txt(a)} {v(d)}\n" for a, d in zip(w, D)))
        e, eps = q.read_dielectric_function()
    X.eq("energies", e, w)
    X.eq("dielectric function", eps, R + 1j * I)


@harness("C24", cfgs=[dict(types=t) for t in (("Cu",), ("Na", "Cl"), ("Cu", "Au", "Cu"), ("H", "H", "C", "H"))])
def pseudopotentials(M, X, types):
    """the number of electrons is the sum over all atoms, the cutoff is the largest of all pseudopotentials"""
    q = crystal(M, types=types)
    kinds = sorted(set(types))
    z = {t: 3 + 2 * i for i, t in enumerate(kinds)}
    cut = {t: X.real("cut_" + t, 5, 100) for t in kinds}
    qe = M.qespresso_interface
    pp, qe.pp_files = qe.pp_files, {t: t + ".UPF" for t in kinds + ["Fe"]}
    try:
        with scratch(X):
            for t in kinds:
                write(f"pseudo/{t}.UPF", f"<UPF version='2.0.1'><PP_INFO>x</PP_INFO><PP_HEADER element='{t}' z_valence='{z[t]:.1f}' wfc_cutoff='{txt(cut[t])}' rho_cutoff='200.0'/></UPF>")
            X.eq("electrons", q.read_valence_electrons(), sum(z[t] for t in types))
            q.set_cutoff_from_pseudopotentials()
    finally:
        qe.pp_files = pp
    for t in kinds:
        X.le("cutoff suffices for all", cut[t], q.kinetic_energy_cutoff)
    X.true("cutoff is one of them", any_eq(X, q.kinetic_energy_cutoff, list(cut.values())))


def any_eq(X, a, bs):
    r = False
    for b in bs:
        r = r | (abs(a - b) < 1e-12)
    return r
