"""single source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)"""

P = []


def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": quant},
        why_tests_cant=why,
        anchors={"files": ["src/elli/" + f for f in files],
                 "mechanism": [{"name": n, "where": "src/elli/" + w} for n, w in mech],
                 **({"state": state} if state else {}),
                 **({"observe_at": observe} if observe else {})}))


prop("C01", "Rotation helpers give proper rotations with the documented composition",
     "For every angle, axis and rotation vector the rotation helpers return orthogonal matrices with determinant one. "
     "The Euler form is the successive rotation about z, x' and z' by angles in degrees, its inverse is the documented one (reversed, negated angles), the axis form turns counter-clockwise about its unit axis by an angle in degrees and fixes that axis, and the rotation-vector form is the same rotation by the vector's length in radians. "
     "Rotations about one axis add up, and inputs are never changed.",
     ["inputs"], "all angles, all unit axes, all rotation vectors",
     "tests only use a handful of fixed angles through optical end results; a sign or order error that vanishes at 0/90 degrees or for single-axis rotations stays invisible",
     ["utils.py"], [("rotation_euler", "utils.py:rotation_euler"), ("rotation_v", "utils.py:rotation_v"), ("rotation_v_theta", "utils.py:rotation_v_theta")])

prop("C02", "Material tensors: dispersions on the right axes, rotated as R eps R^T",
     "A material's permittivity tensor is, wavelength by wavelength, the diagonal of its axis dispersions (isotropic: one for all axes; uniaxial: ordinary on x and y, extraordinary on z; biaxial: x, y, z) rotated as R·eps·R^T, so it stays symmetric with unchanged invariants and isotropic materials are not affected by rotation. "
     "Setting a rotation or dispersion replaces the previous one, for this object only, and returned tensors are fresh and do not change later. "
     "The refractive-index tensor of an unrotated material squares to the permittivity on the branch with non-negative extinction.",
     ["inputs", "histories"], "all complex dispersions, all rotations, all wavelength arrays up to the bound, sequences of set and get calls",
     "tests check a few real tensors at fixed angles; wrong transposition, wrong axis assignment or stale state only show for general rotations, complex dispersions or repeated use",
     ["materials.py", "dispersions/base_dispersion.py"], [("Material.get_tensor", "materials.py:get_tensor"), ("set_rotation", "materials.py:set_rotation"), ("get_refractive_index", "materials.py:get_refractive_index")])

prop("C03", "Effective-medium mixtures obey their mixing laws and limits",
     "For all host and guest permittivities and fractions each mixture model satisfies its documented mixing equation (the average, Looyenga, Maxwell-Garnett and Bruggeman laws; Bruggeman on the physical root), wavelength by wavelength. "
     "Every model returns the host at fraction zero, the guest at fraction one, and the common value for equal constituents. "
     "An explicitly requested fraction overrides the stored one without altering it, fractions outside 0 to 1 and non-material constituents are rejected, and the constituents stay unchanged.",
     ["inputs", "histories"], "all complex isotropic constituents (elementwise for the linear average: any tensors), all fractions in [0,1]",
     "no stable test evaluates Looyenga, Maxwell-Garnett or Bruggeman beyond a few reference numbers; limits, symmetry and root choice quantify over all constituents",
     ["materials.py"], [("MixtureMaterial", "materials.py:MixtureMaterial"), ("VCAMaterial/LooyengaEMA/MaxwellGarnettEMA/BruggemanEMA", "materials.py")])

prop("C04", "The permittivity profile of a structure matches its layer description",
     "The profile of a structure lists the front half-space, every layer in the given order with its own thickness and its material's tensor at the requested wavelengths, and the back half-space; repeated stacks expand to the documented sequence including leading and trailing extra layers. "
     "Inhomogeneous layers are cut into the requested number of equal slices that together have the layer's thickness, each evaluated at its mid-plane (twist angle or mixing fraction there), also for zero thickness. "
     "Invalid thicknesses, counts and component types are rejected, reading a profile changes nothing, and later changes to a layer are reflected.",
     ["inputs", "histories", "configurations"], "all thicknesses, twist angles, fractions and tensors; nestings, repetitions and slice counts up to the bounds",
     "tests compare one Bragg mirror and one twisted cell with reference curves; order, edge counts, slice positions and degenerate thicknesses quantify over all configurations",
     ["structure.py", "materials.py"], [("get_permittivity_profile", "structure.py"), ("RepeatedLayers", "structure.py:RepeatedLayers"), ("InhomogeneousLayer", "structure.py:InhomogeneousLayer")])

prop("C05", "Jones and Stokes descriptions of the incident light agree",
     "A Jones vector given to an experiment is kept and its Stokes vector has the documented components (intensity, horizontal minus vertical, diagonal, and right minus left circular, i.e. twice the imaginary part of Ex·Ey*). "
     "A Stokes vector with any polarised part is kept and turned into a unit Jones vector in the same convention, whose Stokes vector is the normalised polarised part, finite in floating point for every admissible input including exact vertical polarisation. "
     "Without a vector the light is diagonally polarised, a scalar wavelength becomes a one-element array, and theta is kept.",
     ["inputs"], "all complex Jones vectors; all real Stokes vectors with non-zero polarised part",
     "no test passes a Stokes or circular vector at all",
     ["experiment.py"], [("set_vector", "experiment.py:set_vector"), ("set_lbda", "experiment.py:set_lbda")])

prop("C06", "Interfaces obey Fresnel boundary conditions in both solvers",
     "For a bare interface between isotropic media both solvers return the Fresnel reflection and transmission amplitudes for p and s light, for every angle of incidence below 90 degrees, every real front index and every (absorbing or transparent) back index including beyond the critical angle, with no p-s mixing. "
     "In particular the tangential field components match across the interface, the p amplitude vanishes at Brewster's angle, both polarisations agree up to the sign convention at normal incidence, and total internal reflection has unit amplitude.",
     ["inputs"], "all angles, all real front indices, all complex back indices (principal branch), all wavelengths",
     "tests compare a few angles and materials; branch choices (critical angle, absorbing media) and sign conventions must hold for every input",
     ["solver2x2.py", "solver4x4.py"], [("fresnel", "solver2x2.py:fresnel"), ("list_snell", "solver2x2.py:list_snell"), ("iso half-space matrices", "solver4x4.py:transition_matrix_iso_halfspace")])

prop("C07", "Both solvers give the same result for isotropic multilayers",
     "For every stack of isotropic layers (transparent or absorbing, any thickness, any angle of incidence, propagating or evanescent in the layers) the 2x2 and the 4x4 solver return the same reflection and transmission matrices and the same reflectances and transmittances. "
     "The agreement holds for every propagator that evaluates the exact exponential.",
     ["inputs", "configurations"], "all indices, thicknesses, angles and wavelengths, stacks up to the bounded number of layers",
     "the tests compare both solvers on a few fixed samples",
     ["solver2x2.py", "solver4x4.py", "structure.py"], [("Solver2x2.calculate", "solver2x2.py:calculate"), ("Solver4x4.calculate", "solver4x4.py:calculate")])

prop("C08", "Energy is conserved: R+T=1 without absorption, never above one with it",
     "For a structure of lossless media reflectance and transmittance add up to one for each incident polarisation and for unpolarised light, reflectance is one when the exit wave is evanescent, and with lossless exit medium and absorbing layers the sum never exceeds one. "
     "Reflectance of passive media never exceeds one and all reflectances and transmittances are non-negative reals.",
     ["inputs", "configurations"], "all lossless isotropic stacks up to the bounded number of layers, anisotropic layers at normal incidence, absorbing interfaces, all angles",
     "energy balance is asserted on single samples only",
     ["solver2x2.py", "solver4x4.py", "result.py"], [("power_correction", "solver4x4.py:calculate"), ("R_matrix/T_matrix", "result.py")])

prop("C09", "Physically equivalent descriptions of a stack give equal results",
     "Splitting a layer into two of the same total thickness, inserting a layer of zero thickness, writing out a repetition, adding a layer of the front (or back) medium next to it where only its phase matters, and scaling all thicknesses together with the wavelength leave the simulated matrices unchanged up to that phase. "
     "A stack whose layers and exit medium equal the front medium reflects nothing and only delays the wave.",
     ["inputs", "configurations"], "all indices, thicknesses, angles; stacks up to the bounded number of layers, both solvers",
     "metamorphic relations over all stacks cannot be sampled exhaustively; tests contain none",
     ["solver2x2.py", "solver4x4.py", "structure.py"], [("layer order and phase", "solver2x2.py:calculate"), ("layer propagation", "solver4x4.py:calculate")])

prop("C10", "Reversing an isotropic stack keeps its transmittance (reciprocity)",
     "For isotropic stacks with lossless outer media, illuminating from the other side along the reversed direction gives the same transmittance for p and s light, with or without absorption in the layers. "
     "For lossless stacks the reflectances from both sides agree as well.",
     ["inputs", "configurations"], "all indices, thicknesses and angles with propagating outer waves; stacks up to the bounded number of layers, both solvers",
     "no test reverses a stack",
     ["solver2x2.py", "solver4x4.py"], [("power correction and amplitude definitions", "solver2x2.py:calculate"), ("power correction", "solver4x4.py:calculate")])

prop("C11", "The 4x4 layer matrix is the exact elimination of Maxwell's equations",
     "For every permittivity tensor and in-plane wave number the layer matrix of the 4x4 solver generates exactly the first-order system that Maxwell's curl equations give for the tangential fields after eliminating the normal ones, at every wavelength separately. "
     "For lossless media it conserves the normal energy flux, and for symmetric tensors and normal incidence its square reproduces the transverse wave equation.",
     ["inputs"], "all complex 3x3 tensors with non-zero zz element, all in-plane wave numbers, wavelength counts up to the bound",
     "tests reach only tensors with special symmetry, where most entries of the matrix are zero",
     ["solver4x4.py"], [("build_delta_matrix", "solver4x4.py:build_delta_matrix")])

prop("C12", "Propagators evaluate the layer exponential consistently",
     "A propagator of zero thickness is the identity, the propagator of two thicknesses in sequence is that of their sum, and a negative thickness inverts it, for the exponential and the eigenvalue propagator; both give the same matrices. "
     "The linear propagator is the first-order expansion of the exponential in the thickness, and the wavelength enters only as thickness over wavelength, separately for each wavelength.",
     ["inputs", "configurations"], "diagonalisable layer matrices with symbolic eigenvalues (isotropic, and anisotropic on principal axes), all thicknesses and wavelengths",
     "tests compare propagators on a few samples with loose tolerances",
     ["solver4x4.py"], [("PropagatorLinear/Expm/Eig", "solver4x4.py")])

prop("C13", "Half-space matrices are mutually inverse and represent plane waves",
     "The incident and exit matrices of an isotropic half-space are inverse to each other, and their columns are forward and backward s and p plane waves of that medium with unit amplitude in the solver's field convention. "
     "Treating an isotropic or principal-axis exit medium as a general anisotropic one gives the same reflection, with the exit waves decaying or travelling away from the interface.",
     ["inputs"], "all complex isotropic permittivities, all in-plane wave numbers; principal-axis biaxial media at all angles",
     "the exit matrix is only tested through a few complete samples",
     ["solver4x4.py"], [("transition_matrix_iso_halfspace", "solver4x4.py"), ("transition_matrix_halfspace", "solver4x4.py")])

prop("C14", "Each wavelength is computed independently of the others",
     "Evaluating a structure for an array of wavelengths gives, entry by entry, what evaluating each wavelength alone gives, in the order requested, for both solvers, every propagator and every derived quantity. "
     "Permuting or subsetting the wavelengths permutes or subsets the results, and a scalar wavelength behaves as an array of one.",
     ["inputs", "configurations"], "all dispersive materials, arrays up to the bounded length, both solvers",
     "tests always pass one fixed array; index mix-ups between wavelengths show only when entries differ",
     ["solver2x2.py", "solver4x4.py", "result.py", "materials.py"], [("vectorised evaluation", "solver4x4.py:calculate"), ("vectorised evaluation", "solver2x2.py:calculate")])

prop("C15", "Rho, psi and delta are consistent, and delta lies in the chosen range",
     "Rho is the p to s ratio of the reflected (or transmitted) light for the incident polarisation, normalised to the ss amplitude; psi lies in 0 to 90 degrees and together with delta reproduces it as tan(psi)·exp(-i·delta), for the scalar and the matrix forms, in reflection and transmission. "
     "In a 360-degree delta range values only move by whole turns into that range; in the range 0 to 180 the magnitude of the handedness-free angle is returned and rho is mirrored accordingly. "
     "Ranges other than these, or with non-integer bounds, are rejected.",
     ["inputs", "configurations"], "all non-degenerate Jones matrices, all incident Jones vectors, all valid integer delta ranges, all real delta inputs to the conversion",
     "tests use (-180,180), (0,360) and (0,180) on one sample",
     ["result.py", "utils.py"], [("rho/psi/delta", "result.py:Result"), ("DeltaRange, convert_delta_range", "utils.py")])

prop("C16", "The Mueller matrix describes the same polarisation change as the Jones matrix",
     "For every incident Jones vector the normalised Mueller matrix maps its Stokes vector to the Stokes vector of the reflected light up to the common intensity factor, in the one Stokes convention used by the package. "
     "It is real with first element one, fulfils the non-depolarising condition, and for a diagonal Jones matrix has the isotropic block form with N = cos 2psi, C = sin 2psi cos Delta, S = sin 2psi sin Delta of the reported psi and Delta.",
     ["inputs"], "all Jones matrices with non-zero ss element and all incident Jones vectors, arrays of wavelengths",
     "tests compare Mueller matrices of one or two samples with references",
     ["result.py", "experiment.py"], [("mueller_matrix", "result.py:mueller_matrix"), ("Stokes convention", "experiment.py:set_vector")])

prop("C17", "Circular-basis matrices are the same scattering in the L/R basis",
     "The circular Jones matrices are the linear ones expressed in left and right circular unit vectors, with the propagation reversal on reflection, so total power is preserved for every incident state and circular reflectances and transmittances are the squared magnitudes (transmittances with the power factor). "
     "A mirror-like isotropic surface at normal incidence swaps handedness and an isotropic transmission keeps it.",
     ["inputs"], "all Jones matrices",
     "only one liquid-crystal sample exercises the circular basis",
     ["result.py"], [("jones_matrix_rc/tc", "result.py"), ("Rc_matrix/Tc_matrix", "result.py")])

prop("C18", "Result access by name, and result lists, return the right elements",
     "Every documented attribute name, with p/s, L/R, numeric or Greek spelling, and the get method return exactly the corresponding element of the corresponding matrix for every wavelength; unknown names and indices raise. "
     "A result list returns the values of its results in order, and its mean is the arithmetic mean over the results for every quantity, also for one result and after appending.",
     ["inputs", "histories"], "all Jones matrices; all documented names; lists up to the bounded length",
     "tests read a few names and only average identical results",
     ["result.py"], [("Result.__getattr__/get", "result.py"), ("ResultList, AveragedResultList", "result.py")])

prop("C19", "Dispersion parameters are filled, checked and stored as documented",
     "Positional arguments fill parameters in template order, keywords by name, missing ones take the documented default, and missing mandatory, unknown, duplicate or surplus parameters are rejected without a dispersion being built. "
     "Repeated parameters are appended in call order, belong to one object only, and templates and other objects never change; creating by name through the factory is equivalent to calling the class.",
     ["inputs", "histories"], "all parameter values, every built-in dispersion, argument splits between positional and keyword",
     "tests construct each dispersion in one way",
     ["dispersions/base_dispersion.py"], [("_fill_params_dict", "dispersions/base_dispersion.py"), ("add", "dispersions/base_dispersion.py"), ("DispersionFactory", "dispersions/base_dispersion.py")])

prop("C20", "Adding dispersions adds their values and leaves the operands alone",
     "The sum of dispersions (and numbers), in any order and grouping, has at every wavelength the sum of the summands' values: permittivities for dielectric models and refractive indices for index models. "
     "Building a sum never changes what any operand evaluates to, mixing the two kinds is rejected unless converted, and the conversion keeps all values.",
     ["inputs", "programs", "histories"], "all values, sums of up to four operands in every grouping",
     "tests add two fixed models once",
     ["dispersions/base_dispersion.py", "dispersions/table_epsilon.py", "dispersions/table_index.py"], [("DispersionSum / IndexDispersionSum", "dispersions/base_dispersion.py"), ("as_index", "dispersions/base_dispersion.py")])

prop("C21", "Dispersion models evaluate their documented formulas",
     "Every built-in model returns for all parameters and wavelengths the value of its documented formula, summed over all added oscillators, with wavelengths in nm and energies in eV related by hc. "
     "Scalar and array wavelengths agree, each oscillator contributes additively, and evaluation does not change the model.",
     ["inputs", "configurations"], "all real parameters and wavelengths in the domain of each formula, up to three oscillators",
     "the reference files pin each model at one parameter set",
     ["dispersions"], [("dielectric_function / refractive_index", "dispersions/*.py")])

prop("C22", "Passive oscillator models never amplify light",
     "With parameters in their physical range (non-negative strengths and widths, positive energies) the oscillator, Urbach and free-carrier models have a non-negative imaginary permittivity (or extinction) at every wavelength, in the convention eps1 + i·eps2. "
     "Band-gap models absorb nothing below the gap, and the parameter-free limits (zero strength) are transparent.",
     ["inputs"], "all physical parameters and wavelengths",
     "sign and gap conditions hold over continuous parameter ranges; tests pin single parameter sets",
     ["dispersions"], [("Lorentz, Gaussian, Tauc-Lorentz, Cody-Lorentz, Drude, Urbach", "dispersions/*.py")])

prop("C23", "Index and permittivity views of a dispersion agree",
     "For every dispersion the permittivity is the square of the refractive index, the index of a dielectric model is the root with non-negative extinction for absorbing media, and conversions to an isotropic material or to an index model keep these values. "
     "The data frames carry the same values indexed by wavelength, with the imaginary part negated only on request, and default to the model's own wavelength range.",
     ["inputs"], "all complex values, scalar and array wavelengths",
     "tests only look at shapes or one model",
     ["dispersions/base_dispersion.py", "materials.py"], [("get_refractive_index, get_dielectric, *_df", "dispersions/base_dispersion.py")])

prop("C24", "Tabulated dispersions interpolate the given data",
     "A table returns its own complex values at its wavelengths and the straight-line interpolation between neighbours, for any order of rows, in permittivity or index as declared, and refuses wavelengths outside its range and inconsistent or empty columns. "
     "The pseudo-dielectric table passes through the values obtained from psi and delta at the given angle.",
     ["inputs"], "all complex table values, tables up to the bounded length, all wavelengths inside and outside",
     "tests compare tables at a few points or only shapes",
     ["dispersions/table_epsilon.py", "dispersions/table_index.py", "dispersions/pseudo_dielectric.py"], [("TableEpsilon, Table", "dispersions/table_*.py")])

prop("C25", "Formula dispersions evaluate the formula text with normal arithmetic",
     "A formula dispersion returns the value of its expression with the usual precedence, left-associativity, parentheses, functions and constants, parameters by name, sums over all repeated parameters, and the wavelength converted to the stated unit. "
     "Formulas of the wrong kind, unknown names and inconsistent parameter lists are rejected, and re-using the same text with other parameters is independent.",
     ["inputs", "programs"], "all parameter values and wavelengths, a grammar-covering set of formulas",
     "tests evaluate a handful of formulas at fixed numbers",
     ["dispersions/formula.py", "formula_parser/parser.py"], [("FormulaTransformer", "formula_parser/parser.py"), ("unit conversion", "dispersions/formula.py")])

prop("C26", "Kramers-Kronig sums follow Maclaurin's formula",
     "The discrete transforms equal Maclaurin's alternating sum 4/pi·h·sum over points of the other parity for every spectrum on an equally spaced axis, in the direct and the reciprocal form, for even and odd lengths. "
     "They are linear in the spectrum, the reciprocal form equals the direct integral under inversion of the axis, and unequal lengths are rejected.",
     ["inputs"], "all real spectra and spacings, lengths up to the bound",
     "tests compare a few smooth spectra in the middle of the axis",
     ["kkr/kkr.py"], [("_calc_kkr and kernels", "kkr/kkr.py")])

prop("C27", "Unit conversions are mutually consistent and self-inverse",
     "Conversions between wavelength, energy, frequency and wave number are exact inverses (or self-inverse where documented), agree with each other along every path, and work elementwise on arrays without changing them. "
     "The quarter-wave thickness of a material is a quarter of the wavelength inside it.",
     ["inputs"], "all positive values, all complex indices",
     "no test calls the conversions",
     ["utils.py"], [("conversion_*", "utils.py"), ("get_qwp_thickness", "utils.py")])

prop("C28", "The pseudo-dielectric function inverts the bulk ellipsometric response",
     "Simulating a bulk isotropic material at any angle and converting the resulting rho (or psi and delta) with the pseudo-dielectric function at that angle recovers the permittivity of the material, in every output form and through the pseudo-dielectric dispersion. "
     "Rho computed from a psi/delta table uses the same convention as the simulation.",
     ["inputs"], "all complex bulk permittivities on the physical branch and all angles between 0 and 90 degrees",
     "tests never close the loop between simulation and inversion",
     ["utils.py", "dispersions/pseudo_dielectric.py", "result.py"], [("calc_pseudo_diel, calc_rho", "utils.py")])

prop("C29", "Isotropic Mueller conversion of psi/delta equals the simulated matrix",
     "Converting measured psi and delta (in degrees) to a Mueller matrix gives, for every row, the normalised matrix the package simulates for an isotropic sample with those psi and delta. "
     "Rows keep their angle of incidence and wavelength, and the input table is not changed.",
     ["inputs"], "all psi and delta, tables with up to the bounded number of angles and wavelengths",
     "no test calls the conversion",
     ["utils.py", "result.py"], [("convert_psi_delta_to_isotropic_mueller_matrix", "utils.py")])

prop("C30", "Refractive-index-database formulas evaluate their published equations",
     "Each supported database formula type, read from a catalogue entry with any coefficients, evaluates its published equation with the wavelength in micrometres, and tabulated entries return the tabulated index (with extinction when present). "
     "Unsupported types and missing entries are rejected.",
     ["inputs"], "all coefficients and wavelengths of formulas 1-5 and the table types, coefficient counts up to the bounds",
     "the database is absent in this build, so no test reads an entry; with it, only a few materials would be sampled",
     ["database/refractive_index_info.py"], [("formula builders", "database/refractive_index_info.py")])

prop("C31", "Fit-parameter history: undo restores exactly the earlier state",
     "After any sequence of tracked changes, each undo restores the complete earlier parameter set (values, bounds, membership) in reverse order and returns the state it replaced; reverting to a position restores that recorded state and keeps the history. "
     "Recorded states never change afterwards, whatever is done to the current parameters, and the history never exceeds its maximum length, dropping the oldest first.",
     ["histories", "inputs"], "all sequences of operations up to the bounded length with symbolic values",
     "tests use the class only as a plain container",
     ["fitting/params_hist.py"], [("ParamsHist", "fitting/params_hist.py")])

prop("C32", "Fit residuals compare model and data in matching order",
     "The residual used for fitting is the real and imaginary difference of measured and simulated rho (or the difference of all Mueller elements) for every wavelength in the data's order, with the same convention as the simulation. "
     "Mueller-matrix tables carry element ij of the matrix under the column Mij.",
     ["inputs"], "all rho values and Mueller matrices, data sets up to the bounded length",
     "no test inspects residuals",
     ["fitting/decorator_psi_delta.py", "fitting/decorator_mmatrix.py", "utils.py"], [("fit_function", "fitting/decorator_psi_delta.py"), ("fit_function", "fitting/decorator_mmatrix.py")])

prop("C33", "Evaluations are isolated: results never change and inputs stay untouched",
     "Evaluating a structure or experiment changes neither it nor its materials, layers or the wavelength array, and the same evaluation repeated gives the same result. "
     "A result keeps describing the experiment as it was when evaluated, whatever is changed afterwards, and separate results, experiments and solvers never influence each other.",
     ["histories", "inputs"], "interleavings of evaluations and changes to thickness, material, rotation, angle, polarisation and wavelengths up to the bounded length",
     "tests evaluate freshly built objects once",
     ["solver.py", "experiment.py", "result.py", "structure.py"], [("deep copy in Solver", "solver.py"), ("Structure.evaluate", "structure.py")])

prop("C34", "Measurement-file rows are recognised and scaled correctly",
     "Every well-formed data row of the supported text formats, with any signed decimal numbers, is recognised as data and header text is not, so no row of a file is lost or misread. "
     "The wavelength axis is scaled to nm from any length unit and angle order and values are kept.",
     ["inputs"], "all strings matching the row formats, numbers of bounded length",
     "tests read one example file per format",
     ["importer/woollam.py", "importer/spectraray.py"], [("row recognisers", "importer/woollam.py")])

prop("C35", "Measurement readers keep every value at its angle and wavelength",
     "Files of SpectraRay (psi/delta and Mueller matrices), Accurion and NeXus (both application definitions) give tables with exactly the psi, delta or matrix elements written for each angle and wavelength, wavelengths in nm, whatever the order of angles, wavelengths and columns, the separator, the decimal mark or the group names. "
     "SpectraRay and Accurion deltas change only by whole turns into -180..180 degrees, rho is tan(psi) exp(-i delta) in the package's convention, and files without psi/delta data are rejected.",
     ["inputs"], "all values in files of up to 3 angles and 3 wavelengths in several layouts",
     "tests read one example file per format and look at no value",
     ["importer/spectraray.py", "importer/accurion.py", "importer/nexus.py"], [("read_spectraray_psi_delta", "importer/spectraray.py"), ("read_accurion_psi_delta", "importer/accurion.py"), ("read_nexus_psi_delta", "importer/nexus.py")])

prop("C36", "Optical-model files give the dispersions and materials they describe",
     "A NeXus material file gives one material per entry: isotropic, uniaxial or biaxial by its axes, where each axis is the sum of all its dispersions. Functions evaluate their formula with the file's parameters, unit and representation (index or dielectric function), and tables return the tabulated index or permittivity at the tabulated wavelength or energy. "
     "Files without the first axis, with an unknown representation, with energy formulas or with empty tables are rejected.",
     ["inputs"], "all parameter and table values, formulas of several forms, up to 3 axes and 3 dispersions per axis",
     "tests read a few example files at one or two wavelengths",
     ["importer/nexus.py"], [("read_nexus_materials", "importer/nexus.py")])

prop("C37", "The index-database catalogue lists its pages and filters them by range",
     "The catalogue of the refractive-index database has one row per page, with its shelf, heading, book, file, author, year, comment and wavelength range in nm taken from the page's name. "
     "An exact search returns exactly the pages equal to a query in a searched column (a fuzzy one at least these), and a wavelength filter keeps exactly the pages whose range holds all given wavelengths.",
     ["inputs"], "catalogues of 4 pages, all ranges and filter wavelengths",
     "the database is absent in this build, so no test reads a catalogue; with it, tests only compare numbers of results",
     ["database/refractive_index_info.py"], [("RII.search", "database/refractive_index_info.py")])

prop("C38", "Index profiles and drawings of a structure show each material where it is",
     "The profile of a structure's refractive index lists front medium, every layer or slice and back medium with its thickness and the index sqrt(v.eps.v) along the given direction v at the given wavelength. "
     "A drawn structure (graph or section) shows between consecutive boundaries, at the summed thicknesses of the layers in front, the real index of the material lying there now, with the outer media in margins on both sides.",
     ["inputs", "histories"], "up to 4 layers (25 in one case), all tensors, thicknesses and directions",
     "no test draws a structure or reads its index profile",
     ["plot/structure.py"], [("get_index_profile", "plot/structure.py"), ("draw_structure", "plot/structure.py")])

prop("C39", "Stacks of arbitrary anisotropic layers solve the boundary problem",
     "For isotropic outer media and any sequence of layers with arbitrary dielectric tensors, the 4x4 result's Jones matrices join the fields: incident plus reflected wave in front equal the transmitted wave at the back carried through every layer, last layer first, by the propagator in use (built-in or user-defined), at each wavelength, for both incident polarisations. "
     "Reflecting all tensors across the plane of incidence only reverses the sign of the p-s conversions; at normal incidence, turning the stack turns the matrices; reflectances and transmittances are |r|^2 and |t|^2 times the ratio of the normal wave numbers; evaluating again, or reusing the layers, changes nothing.",
     ["inputs", "histories"], "1 to 3 layers with any complex tensors, 8 (thorough 24) given ones, repetitions",
     "tests use isotropic or in-plane crystals and a few sample stacks",
     ["solver4x4.py", "structure.py"], [("Solver4x4", "solver4x4.py"), ("Structure", "structure.py")])

NA = {}

LEVEL_NOTE = ("Bounded symbolic execution of the real source with exact real/complex arithmetic: within the stated bounds the solver's "
              "verdict covers every input value; floating-point rounding, and the external numeric libraries (numpy, scipy, torch, pandas), "
              "which are modelled by their mathematical meaning, are trusted but cross-checked on every run against the real code at sample inputs. "
              "Every counterexample is replayed against the real package before it is reported.")
TECH = "symbolic execution of the real Python source; SMT (z3 nonlinear reals) and exact polynomial-ideal decision of each assertion; counterexample replay"
