NOTES = {
"C01": dict(oracle="The documented series H_0 + sum (e^{2 pi i kR} H_R + h.c.), written out in the harness with symbolic cos/sin of every angle.", cost=5,
  outside="The hermitian convention for R = 0 and degenerate neighbor lists (R and -R both present) is not claimed."),
"C02": dict(oracle="The coefficients which were put in; for conversions the H(k) of both models at every k.", cost=8,
  outside="Non hermitian coefficient lists, which no parametrisation can represent."),
"C03": dict(oracle="Symbolic differentiation of the executed f and df.", cost=5),
"C04": dict(oracle="Implicit differentiation of the characteristic polynomial, which does not involve eigenvectors.", cost=24,
  outside="Degenerate bands: second derivatives of models (the matrix functions are claimed); hess1 of eigh_grad_hess is not rotated into the basis of the first derivative there, the documentation does not say what it should be.",
  corrected="Claims at exact degeneracy were dropped, since second derivatives of single bands do not exist there."),
"C05": dict(oracle="H(k) of the derived model in terms of the H(k) of the operands: H + c S, c H, block diagonal sums, permuted entries, H(A^T k); for limits the list of promised terms.", cost=14),
"C06": dict(oracle="Folding: one band models by the direct sum over the coset representatives; two band models by the characteristic polynomial at all folded k-points.", cost=7),
"C07": dict(oracle="Closures of the generators as plain matrix lists in the harness; group means over these lists.", cost=22,
  outside="the axial vector representation `append_d3` names (documentation discrepancy)."),
"C08": dict(oracle="The orbit of the point under the closed list of matrices, modulo the lattice where documented.", cost=52),
"C09": dict(oracle="The mean over the operations with explicit phases, written with the matrices of the representation; H(-R) = H(R)^+.", cost=28,
  outside="append_diamond_* with inversion (marked as TODO in the code, its character under the inversion is -2)."),
"C10": dict(oracle="Closed formulas of the cut cube (sums of powers of positive parts over the corners), of the tetrahedron, and of the spherical cap, and their derivatives.", cost=17,
  outside="Planes closer than 1e-4 to a corner; gradients the code clips on purpose (checked with a tolerance of 1e-3)."),
"C11": dict(oracle="Block structure, products of Kronecker factors, the list of all lattice vectors in an enclosing box, and the residual of the solution.", cost=7,
  outside="lattice_in_sphere rounds R instead of the number of cells (inefficient, but the result is right)."),
"C12": dict(oracle="For each cell the exact share of the linear function of its own eight corners (formula of C10).", cost=52),
"C13": dict(oracle="Sum over cells of the exact share; band edges as extrema of the samples or of the parabola.", cost=22),
"C14": dict(oracle="The given state count of each band: N(mu) = n, edges of the gap, integrals of the given densities.", cost=10,
  outside="DensityOfStates.energy at low temperatures with mu far above all bands (inaccurate quadrature)."),
"C15": dict(oracle="Energy of the model at the returned points, areas of the samples scaled to the cell, the sign of the energy at the samples, contours requested from the plotting library.", cost=12,
  outside="fermi_surface_samples(normalize='band') together with weight_by_gradient divides by the area (undocumented combination); export_3D_fermi_surface and plot_3D need skimage."),
"C16": dict(oracle="Closed formulas of the convolutions, characterised by derivative and limits; the moments of polynomials for Gauss rules; the root of the smeared state count.", cost=17,
  outside="KIntegral.heat_capacity and hall_coefficient (deprecated)."),
"C17": dict(oracle="Straight lines through waypoints; high symmetry points by distances to the nearest reciprocal lattice points (kind of corner of the Brillouin zone); data at nodes.", cost=20,
  outside="Cubic interpolation between nodes; queries exactly on the border of non periodic data; interactive_widget."),
"C18": dict(oracle="Lengths, angles and centering vectors computed from the lattice vectors; the text of the input files, parsed by the harness.", cost=18,
  outside="The units of ecutwfc/degauss in from_disk (not documented)."),
"C19": dict(oracle="H(k) before and after; for wannier90 files the formula of its documentation with degeneracies and R vectors of the text.", cost=10,
  outside="model_json and asym_json use coefficients in [0.1, 2] (no zero entries); wannier files contain R and -R; BandStructureModel.save of wannier90 files leaves numpy's print options changed."),
"C20": dict(oracle="Weighted standard deviation written out; minimum over offsets and assignments by enumeration of the (few) alternatives inside of one solver query.", cost=12),
"C21": dict(oracle="Fixed points: unchanged coefficients; linear problems: the least squares solution; error before and after for the others.", cost=13,
  outside="Convergence for coupled bands; use_lstsq_stepsize together with pinv (experimental, makes no progress); asym `start` leaves out normalize(); the keep_zeros mask of optimize_cg is computed before normalize()."),
"C22": dict(oracle="The bar characters (eighths) as function of the symbolic errors; the list of entries kept by the harness.", cost=30,
  corrected="The first `entries` harness used concrete iteration numbers and missed logger-count-jump; they are symbolic integers now."),
"C23": dict(oracle="Sums over the symbolic surface samples with SI constants written out in the harness; defining equations of the tensors.", cost=9,
  outside="The 1e-8 in denominators is covered by the tolerance."),
"C24": dict(oracle="Files written by the harness in the layout of Quantum Espresso with symbolic numbers: what was written is what has to be read.", cost=13,
  outside="npol = 2; the sign convention of fractional translations; the cartesian g vectors of read_charge_density are claimed as the code documents them; QE's cell_dofree 'ibravshape'."),
"C25": dict(oracle="The entries of the hamiltonian which were put in; the two-centre table of Slater and Koster for s, p, d; the group mean of C09.", cost=54,
  outside="d orbitals only for nearest neighbors of the simple cubic lattice; partial dictionaries only for s and p; max_distance cuts by lattice vectors, for cells with several atoms the result is not symmetric and no symmetry is claimed; SlaterKosterOriginal (unfinished)."),
"C26": dict(oracle="The documented series; models of C01/C02 with the same data; U H(k) U^+ for every operation.", cost=8,
  outside="Reference data in the order of the representation whose border levels are more degenerate than the representation (accepted); groups without inversion other than the trivial one and even dimensions (cannot be constructed)."),
}
CAUGHT = {
"apply-complex-conj": "complex_orbitals", "copied-class-complex-conj": "complex_representation", "phonon-overlap-conj": "electron_phonon",
"asym-small-terms": "series_f", "params-complex-alias": "round_trip", "ddf-projected-length": "symmetric_coefficients", "geigh-first-overlap": "batch",
"overlap-gradient-fast-path": "orthonormal_point, overlap_model", "direct-sum-dtype": "sum_of_types", "cleanup-drops-origin": "cleanup", "supercell-mirrored-coupling": "one_band, two_bands",
"symmetrize-transpose": "named_groups", "class-size-inversion": "completion", "bad-duplicate-first-source": "duplicates", "parity-symmetrizer-mirror": "representation",
"tetra-dual-swap": "tetra", "kron-three-factors": "sums", "extra-gradient-lattice": "samples", "extra-dvolume-corner": "extrapolated_grid", "midpoint-range-offset": "sampling",
"fermi-slight-doping": "fermi_energy", "surface-field-index": "field", "seebeck-temperature-order": "seebeck", "comparison-color-offset": "comparison", "scf-third-grid-size": "input_files",
"wannier-position-overwritten": "wannier_tb", "windowed-loss-window-offset": "window", "cg-offset-eigenvectors": "selected_bands", "optimize-offset-eigenvectors": "selected_bands",
"logger-count-jump": "entries", "peltier-order": "tensors", "tau-cartesian-k": "conductivity", "projections-spin": "projections", "wavefunction-order": "wavefunctions", "sk-swapped-parity": "functions",
"autofit-last-improvement": "autofit", "curve-upper-tail": "smeared_curve", "cuts-accumulate-z": "cuts", "nuclei-per-type": "density", "ref-degeneracy": "fitting_order", "sk-dict-rotation": "dictionaries",
"hist-skipped-reference": "histogram", "json-small-parts": "json_module", "sphere-corner-signs": "sphere", "bandgap-below-full": "integer_filling", "hr-rounded": "wannier_hr", "comparison-fewer-bands": "comparison",
}
SEED_TEXT = """
Bugs which were missed at first and led to stronger checks: logger-count-jump (C22 `entries` was rewritten with symbolic iteration numbers), bad-duplicate-first-source
(C08 `duplicates` was added), geigh-first-overlap (C04 `batch`; the engine searches witnesses on all paths before the expensive queries), overlap-gradient-fast-path (C04 `orthonormal_point`),
direct-sum-dtype (tracking of float64 arrays in the encoding, C05 `sum_of_types`), seebeck-temperature-order and the selected bands of the fits (C16 `seebeck`, C21 `selected_bands`),
cuts-accumulate-z (the cuts of C15 started at z=0; they don't anymore) and ref-degeneracy (C26 `fitting_order` was added).
A chemical potential kept from the previous temperature of a batch (rejected as a seed, the tests notice it) was not decided by C16, since the states far from the band edges do not depend on the temperature;
`chemical_potential` has close temperatures near both band edges now. Mutation of single expressions led to C04 `degenerate` and `shapes`, C07 `translations`, C12 `linear_band_blocks`, C13 `gradients`, C17 `labels` and C21 `fixed_k0`.
Earlier bugs which changed lines of own `fix:` commits were replaced.
"""
