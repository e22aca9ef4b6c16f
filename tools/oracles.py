"""How each property is stated to the solver and against which oracle (used by gen_design.py)."""
O = {
"C01": "R R^T = 1, det R = 1, R v = v for the axis, R = the product of three elementary rotations written out in the case (not taken from the package), composition R(a)R(b) = R(a+b), on symbolic angles (half-angle tangents) and stereographic unit axes.",
"C02": "The expected tensor is built entry by entry from the symbolic values of the axis dispersions and a matrix of nine symbolic entries (so R eps R^T is decided as a polynomial identity); histories of set/get calls on one or two objects; index tensors squared.",
"C03": "The mixing equations themselves (Bruggeman's quadratic and the sign conditions of its physical root, Looyenga's cube roots with cube-root inputs, Maxwell-Garnett's quotient) evaluated on the returned tensor; limits; rejected fractions for symbolic fractions below 0 and above 1.",
"C04": "The list of (thickness, tensor) pairs is written out in the case from the layer description; slices are compared with the tensor at the symbolic mid-plane.",
"C05": "Stokes components from the definition, both directions; a bit-precise IEEE query (`fp.py`, small formats) for NaN of the square roots and arccos on admissible inputs.",
"C06": "Boundary conditions: the tangential E and H of incident+reflected and transmitted waves, written for both polarisations, in terms of q = n cos(theta); the refracted wave is an atom with q^2 = eps - kx^2 and the radiation condition.",
"C07": "All amplitudes of Solver2x2 and of Solver4x4 (eigen and Pade propagators in closed form) are equal for the same symbolic stack.",
"C08": "R+T = 1 (lossless), R+T <= 1 and every R, T >= 0 with absorption (the layer exponential enters as an atom between 0 and 1 with its phase), R = 1 under total reflection; 4x4 with biaxial layers including power conversion between polarisations.",
"C09": "Two descriptions of one stack (cut layers, zero layers, expanded repetitions, isotropic as anisotropic, rotated isotropic, material equal to neighbour, half-turns) are evaluated by the real code and compared.",
"C10": "Amplitudes of the stack and of the reversed stack (front and back exchanged) at the angle given by Snell's law: t n1 cos = t' n2 cos', equal T, Stokes relation r'r + tt' for lossless interfaces.",
"C11": "The 4x4 matrix is compared with the elimination of E_z and H_z from Maxwell's equations carried out in the case for a fully symbolic tensor.",
"C12": "The closed form of the matrix exponential for the block-structured layer matrices; the linear propagator against 1 + iMd k0; semigroup P(a)P(b) = P(a+b), P(0) = 1.",
"C13": "The columns of the half-space matrix solve the eigen equation, belong to waves travelling (or decaying) in the right direction, are in the p/s order and normalised so that the interface amplitudes equal Fresnel's.",
"C14": "Evaluating an array equals evaluating its elements one by one; any order or subset of the array gives the reordered results.",
"C15": "rho = r_pp/r_ss for the incident polarisation, tan(psi) exp(-i delta) = rho, ranges of psi and delta, delta folded by whole turns into every requested range.",
"C16": "M S_in = S_out where S_in, S_out are Stokes vectors (definition written in the case) of the Jones vector before and after, elementwise for both R and T.",
"C17": "The circular matrices map the amplitudes of circular light (basis vectors of the documented convention) like the linear ones; powers.",
"C18": "Attribute, item, `get` and list access return the same element; averages and lists are the element-wise ones.",
"C19": "Every parametric model is constructed in every split of positional/keyword arguments with symbolic values; the stored parameters and the evaluated values agree; errors for unknown, missing, duplicate names.",
"C20": "The sum's value is the sum of the operands' values for every tree of additions; operands keep theirs; mixed kinds raise. Added numbers are symbolic reals and integers.",
"C21": "Each published formula is written out independently in the case in terms of energy or wavelength and compared as rational functions (transcendental parts uninterpreted on both sides).",
"C22": "Im eps >= 0 for all admissible parameters: sign of a rational function over positive atoms, discharged by z3 and factor signs.",
"C23": "n^2 = eps with Im n >= 0 (Re n >= 0 on the real axis) for both kinds of dispersions; the data-frame views list these values.",
"C24": "Linear interpolation between the two neighbouring rows written out per interval (branches decide the interval), exact at the rows, rejection or NaN outside, independence of row order.",
"C25": "An independent evaluator of the formula texts (the case lists text and Python expression side by side); the lark grammar and the transformer of the package run for real on the texts with symbolic parameters.",
"C26": "Maclaurin's sum over the points of opposite parity written out in the case, for symbolic equidistant axes.",
"C27": "E lambda = hc, k = 1/lambda ... and the inverses; quarter-wave thickness d with n d = lambda/4 for the real part of the index.",
"C28": "eps from the inverse formula of the symbolic bulk reflection equals the permittivity the reflection was computed from.",
"C29": "The table of 16 elements equals the normalised Mueller matrix of diag(r_p, r_s), by the package's own Result and written out.",
"C30": "The database's published formulas 1-5 and tables written out; YAML pages are real files with numerals.",
"C31": "A reference history (list of snapshots) is kept in the case next to the real parameter object; at each step a symbolic choice picks the operation (bounded model checking of the operation sequence).",
"C32": "The residual function given to the (intercepted) minimiser is evaluated and compared with model minus data written out element by element.",
"C33": "Everything observable of inputs and earlier results is recorded symbolically before and compared after each operation sequence.",
"C34": "Language inclusion and disjointness of the row recognisers (regex to z3 regular expressions, any length) against the row grammar; values of rows against the numbers written.",
"C35": "Files written by the case with numerals in a given layout; the returned table at each (angle, wavelength) is the written symbol.",
"C36": "Same with h5 files of symbolic datasets and formulas; the returned materials are evaluated at symbolic wavelengths.",
"C37": "A YAML catalogue written by the case with symbolic ranges; filters fork on the ranges, results compared with the set written out.",
"C38": "Profiles and the step functions handed to the (recorded) plotting library compared with boundaries summed from the thicknesses and with sqrt(v.eps.v) of the materials given.",
"C39": "Plane waves of isotropic media in terms of wave numbers, carried through each layer by the first (or second) order expansion of Maxwell's equations written out in the harness (curl E = i k0 H, curl H = -i k0 eps E), rear to front; both sides of the front boundary compared component by component.",
}
