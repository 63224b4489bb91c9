GEN = """Bounded: every value of the symbolic inputs within the stated ranges for the enumerated configurations (sizes, dimensions, neighbor sets).
Floats are modelled as reals with a stated tolerance; trusted: the symbolic numpy facade (validated against the real code on every run) and z3."""

prop("C01", "H(k) is the documented hermitian Fourier series at every k",
     """For every model, the hamiltonian evaluated at any k equals the documented Fourier series H_0 + sum_R (exp(2 pi i k.R) H_R + h.c.)
     of its complex coefficients, is hermitian, and is periodic under reciprocal lattice shifts when the neighbors are lattice vectors.
     Evaluating a batch of k-points gives the same as evaluating them one by one, and the cosine/sine and exponential parametrisations describe the same series.""",
     "inputs,configurations", "every coefficient, every k, every batch; neighbor sets in 1 to 3 dimensions with integer and fractional positions",
     "the tests evaluate a few random models and compare bands to stored references; they never quantify over coefficients and k",
     "tight_binding_asym.py bandstructure.py", [("HermitianFourierSeries.f", SRC + "tight_binding_asym.py"), ("BandStructureModel.f, init_tight_binding", SRC + "bandstructure.py")], GEN)

prop("C02", "Complex Fourier coefficients round trip through every parametrisation",
     """Setting the complex Fourier coefficients of a model and reading them back returns the same coefficients for every parametrisation (cosine/sine, reduced, exponential, inversion symmetric).
     Converting a model into another parametrisation or into an asymmetric model does not change its hamiltonian at any k.""",
     "inputs,configurations", "every hermitian-compatible coefficient set, every parametrisation, every k",
     "tests round trip one stored model; the quantifier is over all coefficients and all parametrisations",
     "bandstructure.py tight_binding_asym.py", [("params_complex, set_params_complex", SRC + "bandstructure.py")], GEN)

prop("C03", "Derivatives of H(k) are the exact derivatives",
     """The first and second derivatives of the hamiltonian which a model reports are exactly the partial derivatives of the hamiltonian it evaluates, for every coefficient set and k,
     in every parametrisation and for symmetrised coefficient functions. The second derivative is symmetric in the two directions.""",
     "inputs,configurations", "every coefficient set and every k for the enumerated parametrisations and symmetry groups",
     "tests compare finite differences at a few k; wrong terms which vanish there are invisible",
     "tight_binding_asym.py bandstructure.py symmetry.py", [("df, ddf", SRC + "tight_binding_asym.py"), ("df, ddf", SRC + "bandstructure.py"), ("realize_symmetric", SRC + "symmetry.py")], GEN)

prop("C04", "Band energies, velocities and inverse masses are the exact band derivatives",
     """The energies, gradients and hessians of the bands which a model reports are the (generalised) eigenvalues of its hamiltonian and their exact first and second derivatives in k,
     wherever the bands are not degenerate; at a degenerate level of a hermitian matrix the gradients are the first order changes of the levels in each direction and the second order changes include
    all other levels. This includes models with a k-dependent overlap matrix, single matrices and batches of matrices. The electron phonon coupling of two states is the difference of their velocities times their overlap.""",
     "inputs,configurations", "every spectrum with a gap, every eigenvector frame, every derivative matrix, every k",
     "tests sample single models; sign and factor errors for complex eigenvectors or overlap terms are not reached",
     "linalg.py tight_binding_asym.py bandstructure.py", [("geigh, eigh_grad, geigh_grad, eigh_grad_hess", SRC + "linalg.py"), ("bands, bands_grad, bands_grad_hess, electron_phonon_coupling", SRC + "tight_binding_asym.py, bandstructure.py")],
     GEN + " The eigen solver is replaced by its contract (ascending eigenvalues, orthonormal eigenvectors).")

prop("C05", "Model algebra acts on the bands as documented",
     """Adding a number shifts all bands, multiplying scales all bands, adding two models gives the direct sum of the bands, permuting orbitals reorders them, and a lattice transformation maps H(k) to H(A^T k);
     none of these changes the operands. Adding zero neighbors, removing zero neighbors and normalising the basis does not change the bands, and the neighbor limiting operations remove exactly the terms they promise to remove.
     Randomising changes every coefficient by the drawn random numbers of the requested scale and leaves the neighbors and the original alone.""",
     "inputs,configurations", "every coefficient set, scalar and k for the enumerated models and lattice matrices",
     "tests do not cover the algebra except for one scaled model",
     "tight_binding_asym.py bandstructure.py linalg.py", [("__add__, __mul__, copy, permute, transform, normalize", SRC + "tight_binding_asym.py, bandstructure.py"), ("limit_neighbors, limit_neighbor_count, cleanup_neighbors, add_neighbors", SRC + "tight_binding_asym.py")], GEN)

prop("C06", "A supercell describes the same solid with folded bands",
     """For every non singular integer cell matrix, the bands of the supercell model at k are exactly the bands of the original model at all k + q, where q runs over the k-points which fold onto k.
     The supercell has |det| times as many bands, its overlap matrix is folded the same way and the original model is unchanged. Free electrons have exactly the lowest parabolas of all reciprocal lattice vectors as bands.""",
     "inputs,configurations", "every coefficient set and every k for the enumerated lattices, neighbor sets and cell matrices (determinant up to 3)",
     "tests only build one diagonal supercell of a diagonal lattice",
     "tight_binding_asym.py bandstructure.py symmetry.py", [("supercell", SRC + "tight_binding_asym.py, bandstructure.py"), ("supercell_neighbors", SRC + "symmetry.py")], GEN)

prop("C07", "Symmetry groups are complete groups in every representation",
     """Every symmetry group which is constructed, generated, multiplied, intersected, transformed into another basis or dualised is closed under multiplication and inverses, contains every operation exactly once and has the documented order,
     in any orientation. Equality and containment do not depend on how the group is stored (with or without the inversion factored out).
     Symmetrising a tensor is the group mean over all operations: the result is invariant, symmetrising twice changes nothing and invariant tensors stay unchanged.
     Operations with translations represent the same points with the translations removed.
     Conjugacy and equivalence classes are a partition of the operations, and the symmetry check of a function accepts exactly the invariant ones.""",
     "inputs,configurations", "every tensor, every rotation angle or basis change; all named point groups and the enumerated generator sets",
     "tests check a few fixed groups in one orientation and no tensor; storage dependent mistakes need a specific pair of groups",
     "symmetry.py", [("from_generator, named constructors, __mul__, __eq__, __contains__, transform, transpose, subgroup, symmetrize, check_symmetry, equivalence_classes, conjugacy_classes", SRC + "symmetry.py")], GEN)

prop("C08", "Symmetric completion and reduction of point sets lose and duplicate nothing",
     """Completing a set of points by a symmetry contains every symmetry equivalent point exactly once, with the data of the point it came from (the mean, if averaging values given at equivalent points), also modulo the lattice where all points lie in [-1/2, 1/2[.
     Reducing a symmetric data set returns one point per class with its data, completing again restores everything, and data which is not symmetric is rejected.
     Class sizes and weights are the orbit size and the inverse stabiliser size, and find_classes groups exactly the equivalent points.
     Completing a neighbor set has zero first and contains exactly one of each pair of a position and its negative; checking neighbor sets accepts exactly the complete ones.""",
     "inputs,configurations", "every point on the enumerated general and special positions of the enumerated groups, every data value",
     "tests complete a few grids; special positions, cell borders and groups without inversion are where points get lost or doubled",
     "symmetry.py", [("realize_symmetric, realize_symmetric_data, reduce_symmetric_data", SRC + "symmetry.py"), ("complete_neighbors, check_neighbors, k_weight, r_class_size, find_classes", SRC + "symmetry.py")], GEN)

prop("C10", "Volumes of cell cuts are exact for linear bands",
     """The volume which an energy level cuts from a cube, a tetrahedron, or a cube divided into tetrahedra, and its derivative in the energy (the density of states of the cell), are exact for a linear band:
     zero below, everything above, monotonous between, equal to the exact volume and surface for every gradient, independent of the order of the corners and of mirroring.
     The surface samples lie on the level surface inside of the cell, the tetrahedra add up to the cube.""",
     "inputs,configurations", "every energy level, every gradient and corner energies (one scale fixed, scaling checked separately), every order of the corners",
     "tests compare a single density of states curve with a tolerance; mistakes for special orders of the corner energies average out",
     "linalg.py density_of_states.py", [("cube_cut_volume, cube_cut_surface, parallelepiped, tetra_cut_volume, tetra cubes, sphere", SRC + "density_of_states.py")], GEN)

prop("C12", "Every smearing method assigns each k-grid cell its exact share",
     """Cubes, extrapolated cubes, tetrahedra and spheres smearing give for every energy the number of states, the density of states and the surface samples which the function interpolated from the eight corners of each cell has,
     summed over all cells exactly once, with and without periodic wrapping, in every lattice. For a linear band this is the exact result in every cell.
     The surface samples lie on the level surface inside their cell, with gradients and areas in reciprocal space.""",
     "inputs,configurations", "every energy level away from cell corner values for the enumerated grids, band values, gradients and lattices",
     "tests compare one smeared curve with a tolerance; a cell which is left out, wrapped wrongly or scaled in a skewed lattice changes it by less",
     "smearing.py density_of_states.py", [("CubesSmearing, ExtraCubesSmearing, TetraSmearing, SphereSmearing", SRC + "smearing.py"), ("cube and tetrahedra cuts", SRC + "density_of_states.py")], GEN)

prop("C13", "Density of states counts the states of the model at every energy",
     """The number of states below an energy, the density of states and their band resolved versions are the sums over the bands of the model, for every energy, normalised to one state per band;
     the density is the derivative of the number of states. The model is evaluated on the k-grid of the cell given by the lattice vectors. Band edges are the extrema of the bands, refined between grid points where derivatives are available. With gradients of the model every grid point has a cell of its share of the sampled volume, in which the band is linear.
     Full curves are sorted energies from the lowest to the highest band edge with the states and densities of these energies. Models which are not periodic with the given lattice are rejected.""",
     "inputs,configurations", "every energy, band offset or position of the band edge for the enumerated models, smearing methods and lattices",
     "tests compare a density of states of a free electron model with tolerances of several percent",
     "density_of_states.py smearing.py", [("DensityOfStates.__init__, states_below, states_density, density, full_curve, check", SRC + "density_of_states.py")], GEN)

prop("C14", "Fermi energy, band gap and total energy follow from the state count",
     """The Fermi energy for any electron count has exactly this number of states below it; for integer fillings with a gap it is the middle of the gap, and the reported band gap is the distance of the band edges (zero for metals).
     The total energy at zero temperature is the integral of the energy times the density of states up to the Fermi energy, also when bands lie completely below or above. The estimates from the sorted energies of the samples agree: the naive Fermi energy has the filled samples below it, the naive energy is the mean over the samples.""",
     "inputs,configurations", "every electron count, every position of the bands and chemical potential in the enumerated arrangements of bands (gapped, touching, overlapping)",
     "tests check one free electron metal; gaps, touching bands and completely filled bands are not sampled",
     "density_of_states.py", [("fermi_energy, bandgap, energy, naive_fermi_energy, naive_energy", SRC + "density_of_states.py")], GEN + " The state count of a band is replaced by a given function (its exactness is C12).")

prop("C16", "Integrals with the Fermi function are exact for the documented functions",
     """The thermal convolution of a sampled function is the exact convolution of its piecewise linear interpolation with the derivative of the Fermi function, for every energy and temperature, and its derivative is the derivative of it.
     Polynomial integrals and Gauss rules with the Fermi function are exact up to their degree. The chemical potential of each temperature keeps the number of electrons, the smeared curve, total energy, its temperature derivatives and the heat capacity are those of the exact thermal occupation.""",
     "inputs,configurations", "every function value, energy, chemical potential and temperature within the bounds; enumerated sample counts and temperature sequences",
     "tests compare the heat capacity and the chemical potential of one metal; extrapolation, order of the temperatures and derivative signs are not sampled",
     "density_of_states.py", [("convolve_df, convolve_ddf, int_poly, gauss_*, secant", SRC + "density_of_states.py"), ("chemical_potential, full_curve, energy, heat_capacity, seebeck", SRC + "density_of_states.py")], GEN + " exp, log, log1p and the dilogarithm are atoms with their functional equations and derivatives.")

prop("C15", "Fermi surface samples lie on the surface with the right areas",
     """The samples of the Fermi surface at an energy come from exactly the bands which contain this energy, with their band index. Improved samples are moved along the gradient onto the level surface of their own band, unimproved samples stay.
     The weights are the positive k-space areas scaled to the whole zone, normalised to one per band or in total where requested and divided by the gradient where requested; the total area is the sum of the areas.
     The signed fields of fermi_surface and the contours of plot_2D_fermi_surface are energies minus the Fermi energy of exactly the crossing bands, at the points of the grid in its shape.""",
     "inputs,configurations", "every energy, sample position and area of the smearing method for the enumerated linear bands and lattices (right and left handed)",
     "no test samples a Fermi surface",
     "density_of_states.py smearing.py fermi_surface.py", [("fermi_surface_samples, cut_band_indices", SRC + "density_of_states.py"), ("fermi_surface, plot_2D_fermi_surface", SRC + "fermi_surface.py")], GEN + " The samples of the smearing method are arbitrary (their exactness is C12). The areas of improved_weights are not claimed (marked TODO in the code).")

prop("C23", "Transport coefficients are the documented Fermi surface integrals",
     """Conductivity, Drude and Hall tensors and the transport coefficients L^(a) are the documented sums over the samples of the Fermi surface (area over velocity, with the scattering time of each sample) in SI units,
     for every lattice orientation and the zero tensor for insulators at T=0. At finite temperatures the integration is exact for quadratic functions of the energy, for every temperature and chemical potential of the list.
     Peltier, Seebeck, thermal conductivity and Hall tensors solve their defining equations. The free electron model returns sorted parabolas with their own gradients and inverse masses.""",
     "inputs,configurations", "every sample area, position, inverse mass and velocity scale, every k of the free electron model, for the enumerated lattices and temperatures",
     "tests compute a single conductivity and Hall coefficient of free electrons, where tensor index mistakes vanish by symmetry",
     "bulk_properties.py density_of_states.py", [("KIntegral, hall_coefficients, peltier, seebeck, electronic_thermal_conductivity, FreeElectrons", SRC + "bulk_properties.py")], GEN + " Surface samples and model are replaced by arbitrary values (their exactness is C15 and C04).")

prop("C09", "Hamiltonian symmetrisation is the group mean",
     """Symmetrising a Hamiltonian with orbitals at arbitrary symmetric positions, or with a unitary representation, gives the mean over all operations of the group of the transformed Hamiltonian. The result has the symmetry, for every k, and stays the same when symmetrised again; couplings whose image lies outside of the neighbors vanish.
     The precomputed symmetrizer and the direct method agree. Hamiltonians at symmetry equivalent k-points are the transformed ones.
     Sums, products, multiples, permutations and generated representations are unitary homomorphisms whose inversion commutes with the rotations; copies are independent. A representation generated from operations and their matrices consists of all products of them, each one once. All of this holds for complex representations too, and lists, integer or real matrices give the same as the complex arrays with these entries. The symmetry check accepts every symmetrised Hamiltonian and rejects one where a single operation is broken.""",
     "inputs,configurations", "every complex Hamiltonian for the enumerated groups, orbitals, positions and neighbor sets, every k; every rotation of the basis of a representation",
     "tests symmetrise random matrices of a few cubic examples; orbitals away from the origin, groups without inversion and open neighbor sets are not sampled",
     "hamiltonian_symmetry.py unitary_representations.py", [("HamiltonianSymmetry.symmetrize, symmetrizer, apply, realize_symmetric, copy", SRC + "hamiltonian_symmetry.py"), ("UnitaryRepresentation.symmetrize, symmetrizer, symmetrize2, realize_symmetric_matrices, check_symmetry, permute, algebra", SRC + "unitary_representations.py")], GEN)

prop("C20", "Losses of a model are the documented errors of the best band offset",
     """The loss of a model is the weighted standard deviation between its bands and the reference at the given band offset, with the maximal error of every band.
     The loss in a window of energies is the smallest one over all possible band offsets (or over all assignments, if bands may be skipped), and counts exactly the reference energies in the window; it is zero for equal bands.
     The models' own error and loss functions are the same errors of the same model.
     The error histogram has the largest error of the best match in every bin.""",
     "inputs,configurations", "every energy and weight within the bounds for the enumerated band counts, sample counts and offsets",
     "no test computes a windowed loss or a histogram; which bands are compared depends on the energies",
     "loss.py", [("model_error, model_loss, model_windowed_loss, model_error_hist", SRC + "loss.py")], GEN)

prop("C17", "K-paths, high symmetry points and interpolated bands are where they are named",
     """A k-path is the straight line through its waypoints with N samples per segment ending at the waypoint; its plot positions are the lengths along the path and the named ticks are the waypoints; the text for Quantum Espresso contains the same points.
     The named high symmetry points lie on the surface of the first Brillouin zone of their lattice, as the named kind of point, for every lattice ratio and angle, and creating one set of points leaves the others alone.
     Interpolated bands have the data at all (symmetry equivalent, periodic) data points, the linear method is linear in between for every k. Unstructured interpolation marks other points as missing. Plots of a path show every band over the path, and comparisons give corresponding bands of both functions the same colour. Labels at the border of a plot name every band once at its energy.""",
     "inputs,configurations", "every waypoint direction length, lattice ratio, angle, band value and k (linear method), for the enumerated grids, symmetries and lattices",
     "tests plot one path and interpolate one symmetric function; angles, ratios and grids outside of the symmetric cell are not sampled",
     "kpaths.py symmetry.py qespresso_interface.py", [("KPath, interpolate, interpolate_unstructured, *_points", SRC + "kpaths.py"), ("sc, fcc, bcc, hexagonal, rhombohedral, tetragonal_body_centered, k_points", SRC + "qespresso_interface.py")], GEN + " The spline method of scipy is only used at its nodes.")

prop("C19", "Models survive being saved, and files of wannier90 give wannier90's bands",
     """A tight-binding model saved as json and loaded again, in any parameter specification and as either kind of model, has the same Hamiltonian for all k; the file has the documented layout, and files with real entries are read too.
     The python format also keeps the coefficient symmetry. Saving leaves the model alone.
     A model loaded from a wannier90 _hr.dat or _tb.dat file has, for every k, the Hamiltonian defined by wannier90 (sum over all lattice points divided by their degeneracy); position matrix elements belong to their neighbors.""",
     "inputs,configurations", "every coefficient (|x|<=2) and every k for the enumerated neighbor sets, band counts, groups and degeneracy lists",
     "the tests load one json file and never save or load any other format",
     "json_tb_format.py wannier90_tb_format.py bandstructure.py tight_binding_asym.py", [("load, save", SRC + "json_tb_format.py"), ("load_hr, load_tb", SRC + "wannier90_tb_format.py"), ("BandStructureModel.save, load", SRC + "bandstructure.py"), ("AsymTightBindingModel.save, load", SRC + "tight_binding_asym.py")], GEN + " Files are real files in a scratch directory whose symbolic numbers are text tokens.")
prop("C18", "The input passed to Quantum Espresso and wannier90 is the requested crystal",
     """The lattice functions return right handed cells with the documented lengths, angles and centering and reject impossible parameters. The mass density is that of the cell, scale_to_density reaches the target by uniform scaling and leaves the given arrays alone.
     The files written for pw.x and wannier90 contain the lattice vectors as rows, positions, types, masses, cutoff, smearing, k-points, bands and windows of the request, k-paths are converted to crystal coordinates; from_disk restores the crystal of a finished calculation. The post processing programs are given the files and parameters of the same calculation.""",
     "inputs,configurations", "every lattice parameter, angle, position, cutoff, temperature and window in the stated ranges for the enumerated cells and lists of atoms",
     "there are no tests of the crystal and Quantum Espresso module",
     "qespresso_interface.py", [("QECrystal, lattices, k_points, k_grid, from_disk", SRC + "qespresso_interface.py")], GEN + " Files are real files in a scratch directory whose symbolic numbers are text tokens; Quantum Espresso is not run.")
prop("C24", "Results of Quantum Espresso are read as they were written",
     """Every reader returns what Quantum Espresso wrote, in the documented form: k-points in crystal coordinates, energies and Fermi energy in eV, the lattice in the unit of the crystal, symmetry operations of the reciprocal lattice with their translations (from which the space, point and strict point group follow),
     projections and overlaps as complex arrays by k-point, band, spin and orbital, names of the orbitals of all atoms, plane waves and wavefunctions in the order of the k-points, complex charge density for every spin, densities of states, dielectric function, number of electrons and cutoffs of the pseudopotentials.""",
     "inputs,configurations", "every number in the files; the numbers of k-points, bands, spins, orbitals, plane waves, symmetries and atoms are enumerated",
     "there are no tests of the crystal and Quantum Espresso module",
     "qespresso_interface.py symmetry.py", [("QECrystal.read_bands_crystal, read_bandx, read_bandx_raw, read_projections, read_projections_order_spilling, read_wavefunctions, read_charge_density, read_dos, read_dielectric_function, read_valence_electrons, set_cutoff_from_pseudopotentials", SRC + "qespresso_interface.py"), ("Symmetry.space_group, point_group, strict_point_group", SRC + "symmetry.py")], GEN + " Files are real files in a scratch directory whose symbolic numbers are text tokens, binary files are modelled with their byte layout; Quantum Espresso is not run.")
prop("C26", "TightBindingModel gives the same Hamiltonian as the other models",
     """TightBindingModel evaluates its documented series (params[0] is the matrix at k=0; with inversion symmetry cosines within and sines between even and odd orbitals) for every k, hermitian, with exact derivatives, bands, gradients and hessians. Loading complex coefficients gives the same Hamiltonian and derivatives as BandStructureModel and AsymTightBindingModel,
     and they can be read back. After normalize H(Sk) = U H(k) U^+ for every operation of the unitary representation. Copies are independent, given arrays are not changed. A model initialised from reference data has the reference energies at k=0, with degenerate levels in representations that carry them.""",
     "inputs,configurations", "every coefficient (|x|<=2) and every k for the enumerated neighbor sets, band counts, inversion splits and representations",
     "test_equivalence compares the models at ten random k-points for one file without inversion symmetry",
     "tight_binding.py", [("TightBindingModel", SRC + "tight_binding.py"), ("UnitaryRepresentation.symmetrizer", SRC + "unitary_representations.py")], GEN)
prop("C21", "Fits keep exact models, solve linear problems and respect the constraints",
     """Fitting (gradient and conjugate gradient optimizers of all model classes) leaves the bands of a model alone which already reproduces the reference, also with overlaps, batches, offsets and trained overlaps. One band is a linear problem: a step of the least squares optimizers solves it from any start, the other optimizers reduce the error.
     Coefficients kept as zero stay zero, a model with a symmetrizer stays symmetric whatever the reference, learning_rate=0 changes nothing, regularization scales all but the constant term, impossible band offsets are rejected; models initialised from reference data reproduce it at k=0; automatic fits return the best of their attempts with the requested bands; the log ends with the weighted error of the final model and the given arrays are left alone.""",
     "inputs,configurations", "every coefficient of the start model and every amplitude of the deviation of the reference, for the enumerated k-samples, deviation patterns, options and models with uncoupled bands",
     "tests fit two files and look at the resulting pictures or at a single final error",
     "bandstructure.py tight_binding_asym.py tight_binding.py linalg.py loss.py logger.py", [("BandStructureModel.optimize, optimize_cg, normalize", SRC + "bandstructure.py"), ("AsymTightBindingModel.optimize, optimize_cg, normalize", SRC + "tight_binding_asym.py"), ("TightBindingModel.optimize", SRC + "tight_binding.py"), ("conjugate_gradient_solve, geigh", SRC + "linalg.py"), ("model_error", SRC + "loss.py")], GEN + " Convergence for coupled bands is not claimed.")
prop("C22", "The log of a fit is complete and its bars show the error of every band",
     """OptimisationLogger keeps all entries and messages in order, never fails on a perfect fit, and prints only when asked to. The bar of each band shows its maximal error relative to the largest one in eighths (blank when below a sixteenth). A counting logger continues the iteration numbers from the last recorded one over several fits; the plotted curve shows every loss at its iteration; a run can be aborted only once.""",
     "inputs,configurations", "every loss and every error of up to three bands, for the enumerated iteration lists and printing modes",
     "the tests print logs without looking at them, perfect fits never occur",
     "logger.py", [("OptimisationLogger", SRC + "logger.py")], GEN)
prop("C11", "Linear algebra helpers do what they say",
     """direct_sum, kron and the merging of axes place every entry where documented; lattice_in_sphere returns exactly the lattice points within the radius, once each, for every basis; conjugate_gradient_solve solves a positive definite system to the requested residual in as many steps as
     dimensions, from any start, also for integers, and leaves its arguments alone; pointcloud_distance vanishes for any reordering of the same points and counts a slightly moved point with its distance.""",
     "inputs,configurations", "every matrix entry, radius, right hand side, start vector and point within the ranges; shapes, bases and matrices of the systems are enumerated",
     "no test calls them directly",
     "linalg.py", [("direct_sum, kron, merge_axes, lattice_in_sphere, conjugate_gradient_solve, pointcloud_distance", SRC + "linalg.py")], GEN)
prop("C25", "Slater-Koster models put integrals and parameters in place",
     """SlaterKoster.parameters lists every independent parameter exactly once: setting all of them to the entries of any symmetric hamiltonian gives that hamiltonian, also if orbitals share names. set_parameter sets the entry to the value and leaves the others and the symmetry alone, however often it is called.
     SlaterKoster.from_orbitals gives the two-centre hamiltonian of the integrals whether these are functions, lists over the distances or dictionaries over vectors; integrals and vectors which follow from the symmetry can be left out, for s and p orbitals. The model has the symmetry of its orbitals (d orbitals: nearest neighbors).""",
     "inputs,configurations", "every symmetric hamiltonian, parameter value and two-centre integral; groups, orbitals, lattices and cutoffs are enumerated",
     "there are no tests of the module (it could not even be imported)",
     "slater_koster.py hamiltonian_symmetry.py", [("SlaterKoster.parameters, set_parameter, from_orbitals", SRC + "slater_koster.py")], GEN)
