"""Source of properties.jsonl and MANIFEST.json (run this file to regenerate both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "gftool/lattice/"
LATS = [L + f + ".py" for f in ("bethe", "bethez", "box", "onedim", "square", "rectangular", "triangular",
                                "honeycomb", "kagome", "lieb", "sc", "bcc", "fcc")]


def P(pid, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note)


PROPS = [
    P("C01", "Lattice Green's functions equal the resolvent averaged over the lattice spectrum",
      "For every lattice the library offers (Bethe with infinite or finite coordination, box, 1D chain, square, "
      "rectangular, triangular, honeycomb, kagome, Lieb, simple cubic, bcc, fcc), the local Green's function at "
      "any complex frequency off the spectrum equals the Brillouin-zone (or tree) average of 1/(z - energy) for the "
      "documented dispersion, for every half-bandwidth, anisotropy or coordination number. "
      "The lattice Hilbert transform gives the same value.",
      ["inputs", "configurations"],
      "all 13 lattices, all complex z with non-zero imaginary part (both half-planes, near to far from the band) and "
      "real z outside the band, all positive half-bandwidths, scales, coordination numbers",
      "The tests compare with a numerically integrated DOS of the same module or check symmetries for a few "
      "half-bandwidths (mostly 1); branch-cut choices and prefactors differ by region of the complex plane.",
      LATS + ["gftool/_util.py"],
      [("closed-form Green's functions", L + "*.py: gf_z"), ("Hilbert transforms", L + "*.py: hilbert_transform"),
       ("complex elliptic integral", "gftool/_util.py:_u_ellipk")],
      "property-based testing: differential against independent Brillouin-zone sums",
      "Every generated frequency/parameter is compared with an independently coded, self-converging Brillouin-zone "
      "sum (relative 1e-7); trusts double precision and the documented dispersions."),
    P("C02", "Lattice Green's functions are causal, analytic and scale with the bandwidth",
      "Every lattice Green's function obeys G(z*) = G(z)*, has a negative imaginary part in the upper half-plane, "
      "decays as 1/z, scales as G(a z; a D) = G(z; D)/a and is analytic off the real axis, arbitrarily close to "
      "the band. Approaching the real axis from above, -Im G/pi equals the density of states, and evaluation of an "
      "array of any shape equals element-by-element evaluation.",
      ["inputs", "configurations"],
      "all lattices, all z in both half-planes down to 1e-10 bandwidths from the axis, all bandwidths and scale "
      "factors, all array shapes",
      "Tests sample the symmetries at default bandwidth and for scalar or 1D input; wrong branches appear only in "
      "parts of the complex plane close to the band.",
      LATS, [("branch selection of square roots and elliptic integrals", L + "triangular.py, fcc.py: _signed_sqrt"),
             ("retarded/advanced symmetry", L + "fcc.py, triangular.py: gf_z"), ("DOS", L + "*.py: dos")],
      "property-based testing: metamorphic relations (conjugation, scaling, mean-value property) and DOS limit",
      "Metamorphic search; does not fix the absolute value by itself (C01 does)."),
    P("C03", "Densities of states are exact, normalised, non-negative and confined to the band",
      "For every lattice and half-bandwidth the density of states is non-negative, vanishes outside the band, has "
      "the documented symmetry and scaling, and its Hilbert integral reproduces the independently computed "
      "Brillouin-zone average at any complex frequency (including unit normalisation, minus the flat band where "
      "there is one). The arbitrary-precision variants agree with the array variants in double precision and are "
      "accurate to the requested working precision.",
      ["inputs", "configurations"],
      "all lattices, all energies inside, outside and close to band edges and van-Hove points, all half-bandwidths, "
      "scales and coordination numbers, working precisions 15 to 30 digits",
      "Tests integrate a few DOS at default bandwidth; an error confined to a sub-interval, to one bandwidth or to "
      "higher precision passes them.",
      LATS, [("array DOS", L + "*.py: dos"), ("multi-precision DOS", L + "*.py: dos_mp, sc.gf_z_mp")],
      "property-based testing: differential (array vs. multi-precision vs. Brillouin-zone sum), invariants",
      "Pointwise comparison on generated energies plus integral identities; precision claims checked up to 30 digits."),
    P("C04", "DOS moments equal the exact power averages of the band energies",
      "For every lattice that offers them, the m-th moment of the density of states equals the m-th power of the "
      "band energy averaged over the spectrum, for every half-bandwidth and every tabulated order; odd moments of "
      "symmetric lattices vanish. Orders that are not available are rejected instead of giving a number.",
      ["inputs", "configurations"], "all lattices with moments, all integer orders 0 and up, all half-bandwidths",
      "Tests compare to a quadrature at bandwidth 1 with loose tolerance for a few orders.",
      LATS, [("moment tables", L + "*.py: dos_moments_coefficients / dos_moment")],
      "property-based testing: differential against exact closed-walk counting (rational arithmetic)",
      "Exact rational oracle; orders up to beyond the end of every table (about 20) are drawn with generated bandwidths."),
    P("C05", "Lattice tool-kit: inverse, derivatives, time evolution, surface, stress",
      "The inverse of the Bethe Green's function inverts it on the physical sheet, first and second derivatives are "
      "the analytic derivatives, and the semi-infinite surface Green's function solves its self-consistency "
      "equation. Retarded-time Green's functions of the Bethe and box lattice equal the Fourier integral "
      "of their density of states (shifted by the centre, which is given in units of the half-bandwidth) for every "
      "time, half-bandwidth and centre, vanishing for negative times; the square-lattice stress transform equals its Brillouin-zone average.",
      ["inputs", "configurations"], "all complex frequencies off the band, all times (negative, zero, large), "
      "bandwidths, band centres, onsite energies and hoppings",
      "Tests use default bandwidth or zero centre; wrong unit handling only shows for other combinations.",
      [L + "bethe.py", L + "box.py", L + "bethez.py", L + "square.py", "gftool/__init__.py"],
      [("inverse and derivatives", L + "bethe.py: gf_z_inv, gf_d1_z, gf_d2_z"),
       ("time domain", L + "bethe.py, box.py: gf_ret_t"), ("surface GF", "gftool/__init__.py:surface_gf_zeps"),
       ("stress", L + "square.py:stress_trafo")],
      "property-based testing: round-trips and differential against contour/quadrature references",
      "Relative 1e-7 agreement on generated parameters."),
    P("C06", "Statistics functions are exact for all energies and temperatures",
      "Fermi and Bose functions, the derivative and the inverse of the Fermi function equal their mathematical "
      "definition for every energy (also complex) and temperature without overflow or loss of accuracy, including "
      "complementarity f(e)+f(-e)=1, the round trip through the inverse and the zero/infinite temperature limits. "
      "Fermionic and bosonic Matsubara frequencies are i(2n+1)pi/beta and i 2n pi/beta for every index, including "
      "negative ones; fractional indices are rejected.",
      ["inputs"], "all real and complex energies, all inverse temperatures incl. extremes, integer and float input, "
      "scalars and arrays",
      "Tests check a few values; extremes, complex input, integer dtype and array temperature are not covered.",
      ["gftool/statistics.py"],
      [("fermi/bose", "gftool/statistics.py:fermi_fct, bose_fct, fermi_fct_d1, fermi_fct_inv"),
       ("frequencies", "gftool/statistics.py:matsubara_frequencies, matsubara_frequencies_b")],
      "property-based testing: differential against arbitrary-precision arithmetic, algebraic laws",
      "mpmath reference at 40 digits."),
    P("C07", "Pade frequencies reproduce the Fermi function",
      "For every number of frequencies the Pade poles lie on the positive imaginary axis and the rational function "
      "built from poles and residues reproduces the Fermi function's expansion: it matches tanh to the order "
      "guaranteed by the number of poles and converges to the exact occupation. "
      "Poles scale as 1/temperature and residues are independent of temperature.",
      ["inputs", "configurations"], "all numbers of frequencies (1 to several hundred), all inverse temperatures, all "
      "energies inside the convergence radius",
      "Tests use a single number of frequencies/inverse temperature.",
      ["gftool/statistics.py"], [("Ozaki poles", "gftool/statistics.py:pade_frequencies, _pade_frequencies")],
      "property-based testing: moment identities and convergence to exact Fermi function",
      "Generated sizes and temperatures; tolerance from conditioning."),
    P("C08", "Pole Green's functions agree across frequency, time and moment representation",
      "For every set of poles and residues the frequency, frequency-derivative, imaginary-time and retarded-time "
      "representation and the high-frequency moments are those of the same function sum r/(z - p); "
      "in particular G(0+)+G(beta-) equals minus the sum of weights, and the bosonic counterpart holds for positive "
      "poles. All of them broadcast over leading axes like "
      "element-by-element evaluation.",
      ["inputs"], "all pole positions (incl. degenerate, zero, very large compared with temperature; complex poles "
      "in frequency and retarded time), complex "
      "residues, times at and between the boundaries, orders, leading dimensions",
      "Tests check a few relations for unit-sum weights.",
      ["gftool/basis/pole.py", "gftool/__init__.py"],
      [("representations", "gftool/basis/pole.py:gf_z, gf_d1_z, gf_tau, gf_ret_t, moments"),
       ("bosonic", "gftool/__init__.py:pole_gf_tau_b")],
      "property-based testing: differential against direct sums in arbitrary precision, cross-representation laws",
      "mpmath reference sums."),
    P("C09", "Pole fits honour their constraints and recover representable functions",
      "A pole Green's function built from moments has exactly these moments; fits to frequency or imaginary-time "
      "data honour given moments and occupation exactly, reproduce data generated by a function with poles in the "
      "fit's grid, and are optimal in the (weighted) least-squares sense among all residues. Fits over leading axes equal "
      "separate fits, and over-constrained requests are rejected.",
      ["inputs"], "numbers of poles, moments, widths, weights, temperatures, leading dimensions, real and complex "
      "data", "Tests only cover that moments are matched for flat input.",
      ["gftool/basis/pole.py", "gftool/linalg.py"],
      [("fits", "gftool/basis/pole.py:gf_from_moments, gf_from_z, gf_from_tau")],
      "property-based testing: constraint satisfaction, optimality by KKT conditions, recovery round-trips",
      "Residual tolerances scaled with conditioning."),
    P("C10", "Densities from Matsubara data and chemical potential match the exact occupation",
      "The occupation computed from Matsubara Green's function data with known high-frequency moments or tails "
      "converges to the exact thermal occupation for every spectrum, temperature, and frequency set (Matsubara or "
      "Pade), with an error bounded by the neglected tail. The chemical-potential "
      "solver returns a value reproducing the requested occupation, and the deprecated density functions return "
      "the same number for scalar and matrix potentials.",
      ["inputs", "configurations"], "all pole spectra, temperatures, numbers of frequencies, numbers of moments, "
      "target occupations, scalar and matrix potentials", "Tests use fixed lattices and a handful of parameters.",
      ["gftool/density.py", "gftool/__init__.py"],
      [("density", "gftool/density.py:density_iw"), ("solver", "gftool/density.py:chemical_potential"),
       ("deprecated API", "gftool/__init__.py:density, density_error, check_convergence")],
      "property-based testing: differential against exact thermal occupations, error bounds",
      "Error bound of the neglected tail computed independently."),
    P("C11", "Imaginary-time to Matsubara transforms are exact for the interpolated data",
      "Fourier transforms from imaginary time to fermionic or bosonic Matsubara frequencies equal the plain "
      "discrete sum for the DFT variants and the exact integral of the linear interpolant for the linear variants; "
      "data of a Green's function gives its Matsubara values up to the discretisation error, exactly honouring given "
      "moments. All variants are linear and act on the last axis independently of leading axes.",
      ["inputs"], "arbitrary (also non-physical) real data, grid sizes, temperatures, leading dimensions, "
      "moments consistent with the data or not, numbers of fit poles", "Tests check a few Green's functions with loose tolerance.",
      ["gftool/fourier.py"],
      [("fermionic", "gftool/fourier.py:tau2iw, tau2iw_dft, tau2iw_ft_lin"),
       ("bosonic", "gftool/fourier.py:tau2iv, tau2iv_dft, tau2iv_ft_lin"), ("Pade frequencies", "gftool/fourier.py:tau2izp")],
      "property-based testing: differential against direct quadrature of the interpolant; linearity; batch laws",
      "Exact reference integrals in closed form per segment."),
    P("C12", "Matsubara to imaginary time transforms invert the forward transforms",
      "Transforms from Matsubara (or Pade) frequencies to imaginary time equal the documented frequency sum on the "
      "grid from 0 to beta, and with given moments and/or fitted poles reproduce the exact imaginary-time Green's "
      "function including its jump; transforming back and forth returns the original data within the "
      "discretisation error. All variants are linear and independent of leading axes.",
      ["inputs"], "arbitrary data, numbers of frequencies, moments, fit sizes, temperatures, leading dimensions",
      "Tests check a few Green's functions with loose tolerance.",
      ["gftool/fourier.py", "gftool/basis/pole.py"],
      [("inverse", "gftool/fourier.py:iw2tau, iw2tau_dft, iw2tau_dft_soft, izp2tau")],
      "property-based testing: differential against direct sums and exact pole functions; round-trips",
      "Tolerances derived from truncated frequency sums."),
    P("C13", "Real-time to frequency transforms equal the Laplace integral of the data",
      "The time-to-frequency transforms equal the trapezoidal, Simpson or piecewise-linear Laplace integral of the "
      "data for every equidistant grid and complex frequency, converge to the exact transform for decaying signals, and "
      "the Pade, Hermite-Pade and linear-prediction variants are exact for sums of few exponentials. "
      "Ill-posed requests (non-equidistant grids, wrong half-plane, unknown quadrature) are rejected and positive "
      "(retarded) and negative (advanced) time grids are treated alike.",
      ["inputs"], "arbitrary data, grid sizes (even and odd), steps, frequencies incl. zero, leading dimensions, "
      "retarded and advanced grids", "Tests check a few smooth functions for default parameters.",
      ["gftool/fourier.py", "gftool/hermpade.py", "gftool/linearprediction.py"],
      [("transforms", "gftool/fourier.py:tt2z, tt2z_trapz, tt2z_simps, tt2z_lin, tt2z_pade, tt2z_herm2, tt2z_lpz"),
       ("weights", "gftool/fourier.py:_trapz_weight, _simps_weight")],
      "property-based testing: differential against direct quadrature; exactness on exponentials; rejection checks",
      "Exact segment-wise reference integrals."),
    P("C14", "Matrix decompositions reconstruct the matrix and its Green's function",
      "Eigen-decompositions of general, symmetric and Hermitian matrices reconstruct the matrix; reconstruction "
      "with transformed eigenvalues gives the corresponding matrix function, its diagonal variant is the diagonal of "
      "the full variant, and Green's functions assembled this way equal the matrix inverse for every complex "
      "frequency. Stacked matrices are treated like separate ones, and the closed 2x2 formula equals the inverse "
      "for non-degenerate matrices.",
      ["inputs"], "matrix sizes, real/complex/degenerate/non-normal matrices, stacks, frequencies",
      "Tests use random matrices of a few shapes without degenerate or stacked variants for every entry point.",
      ["gftool/matrix.py"],
      [("decompositions", "gftool/matrix.py:decompose_mat, decompose_sym, decompose_her"),
       ("reconstruct", "gftool/matrix.py:Decomposition.reconstruct"), ("2x2", "gftool/matrix.py:gf_2x2_z")],
      "property-based testing: algebraic laws and differential against dense inverses",
      "Tolerance scaled with the condition number of the eigenvectors."),
    P("C15", "Constrained least squares is feasible and optimal",
      "The equality-constrained least-squares solver returns a point satisfying the constraints whose residual is no "
      "larger than that of any other feasible point, for real and complex data and weights, and equals the "
      "unconstrained solution when constraints are compatible; redundant constraints leave the remaining unknowns "
      "free and incompatible ones raise an error where they are exactly singular. The orthogonal complement "
      "of a basis is orthonormal, orthogonal to it and of complementary dimension.",
      ["inputs"], "matrix sizes, ranks, real and complex data, numbers of constraints",
      "Tests use a few random real problems.", ["gftool/linalg.py"],
      [("solver", "gftool/linalg.py:lstsq_ec"), ("complement", "gftool/linalg.py:orth_compl")],
      "property-based testing: KKT optimality conditions and orthogonality laws", "Conditioning-aware tolerances."),
    P("C16", "Single-impurity Anderson model functions equal exact diagonalisation",
      "For every impurity level, bath and hybridisation the impurity Green's function in frequency, and its "
      "retarded, greater and lesser time versions, equal those of the one-particle Hamiltonian matrix "
      "(resolvent and matrix exponential with thermal occupation); the matrix has the documented arrow structure. "
      "The hybridisation function is the one connecting impurity level and Green's function.",
      ["inputs"], "bath sizes, complex hoppings, degenerate levels, temperatures, times, leading dimensions",
      "Tests check one relation on real hoppings.", ["gftool/siam.py"],
      [("functions", "gftool/siam.py:gf0_loc_z, gf0_loc_ret_t, gf0_loc_gr_t, gf0_loc_le_t, hamiltonian_matrix, hybrid_z")],
      "property-based testing: differential against exact matrix functions", "scipy expm/inv as reference."),
    P("C17", "Closed-form few-site Green's functions equal exact diagonalisation",
      "The Hubbard-dimer ground-state Green's function equals the Lehmann representation from exact diagonalisation of the "
      "half-filled dimer for every hopping, interaction and both bonding and anti-bonding channel. The Hubbard-I "
      "self-energy equals the self-energy of the isolated interacting site for every interaction and occupation.",
      ["inputs"], "hopping and interaction strengths (any sign, zero), channels, occupations, complex frequencies",
      "Tests only compare limits.", ["gftool/__init__.py"],
      [("dimer", "gftool/__init__.py:hubbard_dimer_gf_z"), ("Hubbard-I", "gftool/__init__.py:hubbard_I_self_z")],
      "property-based testing: differential against exact diagonalisation", "Own 16-state Fock-space model."),
    P("C18", "Coherent-potential solutions satisfy the CPA condition",
      "For every binary or multi-component alloy the effective medium returned by the CPA solver makes the "
      "concentration average of the component Green's functions equal to the medium Green's function, is "
      "causal, reduces to the exact result for one component and for dilute or equal components, and is independent of "
      "component order. The component Green's functions are those of an impurity in that medium, the residual "
      "functions vanish exactly at solutions, and the fixed-occupation solver meets the requested "
      "total occupation.",
      ["inputs", "configurations"], "lattices, concentrations, onsite energies (also frequency dependent), frequencies, "
      "fixed-point vs root formulation, initial guesses, restricted or not", "Tests solve a few fixed alloys.",
      ["gftool/cpa.py"],
      [("solvers", "gftool/cpa.py:solve_root, solve_fxdocc_root"), ("residuals", "gftool/cpa.py:self_root_eq, self_fxdpnt_eq"),
       ("components", "gftool/cpa.py:gf_cmpt_z")],
      "property-based testing: validity of the solution (CPA condition, causality), limits, metamorphic relations",
      "Solver tolerance 1e-8 on frequencies well above the axis."),
    P("C19", "Blackman-Esterling-Berk solutions satisfy the BEB condition and reduce to CPA",
      "The off-diagonal-disorder solver returns a self-energy for which each diagonal element of the local Green's "
      "function in the extended component space equals the concentration times the Green's function of that component as "
      "impurity in the medium, and off-diagonal elements vanish; with component-independent hopping it gives "
      "the CPA result, with decoupled components separate lattices, also for rank-deficient hopping matrices. "
      "Solutions are causal and permute with the components.",
      ["inputs", "configurations"], "component numbers, hopping matrices of full and reduced rank, concentrations, "
      "onsite energies, frequencies, lattices", "Tests solve a few fixed alloys.",
      ["gftool/beb.py"],
      [("decomposition", "gftool/beb.py:SpecDec"), ("solver", "gftool/beb.py:solve_root, self_root_eq, gf_loc_z")],
      "property-based testing: validity of the solution, limits against CPA", "Solver tolerance 1e-7."),
    P("C20", "Thiele Pade approximants interpolate their data and recover rational functions",
      "Pade continued fractions built from any set of points pass through every point used, have the documented "
      "high-frequency behaviour for even and odd numbers of points, recover rational functions of matching degree "
      "everywhere, and treat leading axes and output shapes element by element. Coefficients are computed in "
      "extended precision and returned in the precision of the input.",
      ["inputs"], "point sets, function values, numbers of points, output grids and shapes",
      "Tests compare to an old implementation for one function.", ["gftool/pade.py"],
      [("coefficients", "gftool/pade.py:coefficients, masked_coefficients"), ("evaluation", "gftool/pade.py:calc_iterator")],
      "property-based testing: interpolation invariant, recovery of rational functions, mpmath reference",
      "Tolerance scaled with conditioning estimated from an extended-precision reference."),
    P("C21", "Averaged Pade continuation averages exactly the accepted approximants",
      "The averaged continuation equals mean and standard deviation over exactly those approximants of the requested kind "
      "and size range that the filters accept; filters keep precisely the approximants their description promises "
      "(imaginary part below threshold, the requested number of best ones, outliers removed), successively when "
      "combined. Empty selections and invalid arguments are rejected.",
      ["inputs", "configurations"], "function data, kinds, ranges, filters and combinations, leading dimensions, "
      "validation grids", "Tests check one function with one setting.", ["gftool/pade.py"],
      [("kinds", "gftool/pade.py:KindGf, KindSelf"), ("filters", "gftool/pade.py:FilterNegImag, FilterNegImagNum, "
       "FilterHighVariance, apply_filter"), ("averages", "gftool/pade.py:Averager, Mod_Averager, averaged, avg_no_neg_imag")],
      "property-based testing: reference model of selection and averaging", "Model re-derives each approximant."),
    P("C22", "Pole-based Pade fits recover rational functions and honour constraints",
      "For sufficiently overdetermined data of a rational function the pole-based continuation finds the number of "
      "poles, their positions, "
      "residues, zeros and asymptotics and reproduces the function away from the data in both its representations; "
      "given moments are honoured exactly and weights only "
      "change the least-squares optimum. The residue fit is the least-squares optimum for given poles.",
      ["inputs"], "rational functions with 1..4 poles, grids on imaginary axis, real axis or contours, even and odd "
      "numbers of points, degrees 0, -1 and -2, weights, moments", "Tests check poles of one family.",
      ["gftool/polepade.py", "gftool/linalg.py", "gftool/basis/__init__.py"],
      [("pole search", "gftool/polepade.py:number_poles, poles, zeros"), ("residues", "gftool/polepade.py:residues_ols, "
       "asymptotic"), ("continuation", "gftool/polepade.py:continuation, PadeApprox")],
      "property-based testing: recovery of generated rational functions, KKT conditions", "Well-separated poles only."),
    P("C23", "Taylor-based Pade and Hermite-Pade approximants satisfy their order conditions",
      "Approximants built from Taylor coefficients have the requested degrees and match the series to the guaranteed "
      "order (P - Q f = O(x^(n+m+1)) and p + q f + r f^2 = O(x^(np+nq+nr+2))), for all degrees incl. zero, "
      "robust, fast and least-squares variants alike; rational and square-root functions of matching degree are reproduced. "
      "Both evaluated branches solve the quadratic equation and the selected one is the one closer to the Pade approximant.",
      ["inputs"], "Taylor series, degrees (incl. zero and unequal), scalar and array arguments, real and complex",
      "Tests check few functions with fixed degrees.", ["gftool/hermpade.py", "gftool/basis/__init__.py"],
      [("pade", "gftool/hermpade.py:pade, pade_lstsq, pader"), ("hermite", "gftool/hermpade.py:hermite2, hermite2_lstsq, Hermite2"),
       ("rational functions", "gftool/basis/__init__.py:RatPol, ZeroPole")],
      "property-based testing: order conditions by polynomial arithmetic, recovery", "Backward-error tolerances."),
    P("C24", "Linear prediction continues exponentials exactly and stays bounded if asked",
      "Prediction keeps the given data, follows the linear recursion defined by the coefficients, continues sums of "
      "exponentials exactly when the order suffices, and the stable variant never grows and agrees with the plain one "
      "when no growing root exists. Prediction coefficients minimise the documented error; companion matrices "
      "have the polynomial's roots as eigenvalues.",
      ["inputs"], "signals, orders, numbers of steps incl. zero, leading dimensions, growing and decaying modes",
      "Tests use single lattices.", ["gftool/linearprediction.py"],
      [("coefficients", "gftool/linearprediction.py:pcoeff_covar, pcoeff_burg"), ("prediction", "gftool/linearprediction.py:predict, companion")],
      "property-based testing: recursion reference model, exactness on exponentials", "Well-separated modes."),
    P("C25", "Rational-function containers agree between zero-pole, polynomial and pole form",
      "A function given by zeros, poles and amplitude evaluates to the product formula, its reciprocal to the inverse, and its "
      "conversion to a ratio of polynomials (and pole form) evaluates to the same values, for all array shapes "
      "and leading axes.",
      ["inputs"], "zeros, poles, amplitudes, evaluation points, leading dimensions", "Tests check a single relation.",
      ["gftool/basis/__init__.py", "gftool/basis/pole.py"],
      [("containers", "gftool/basis/__init__.py:ZeroPole, RatPol"), ("pole form", "gftool/basis/pole.py:PoleFct, PoleGf")],
      "property-based testing: differential between representations", "Direct product reference."),
    P("C26", "Library calls never modify the caller's arrays and act element by element",
      "No public function modifies arrays passed to it, and results do not depend on memory layout (order, strides, "
      "alignment, read-only flag). Repeated calls in any history, in several threads, or after changing an argument in place give the same results as a fresh call, "
      "results handed out earlier are never changed by later calls nor views of the arguments, and global settings are left alone. Functions "
      "documented to broadcast give, for stacked, mutually broadcasting, scalar, empty or integer input, the same values as "
      "separate calls.",
      ["inputs", "histories"], "all public numerical functions, array layouts (C, Fortran, strided, read-only), "
      "shapes, call sequences", "Tests call each function once on fresh contiguous arrays.",
      ["gftool/__init__.py", "gftool/lattice/__init__.py", "gftool/fourier.py", "gftool/matrix.py", "gftool/cpa.py",
       "gftool/beb.py", "gftool/pade.py", "gftool/siam.py"],
      [("array handling", "gftool/**: in-place updates and broadcasting")],
      "property-based testing: metamorphic layout/repetition relations with read-only and strided input",
      "Covers a table of public entry points with generated inputs."),
    P("C27", "Invalid requests are rejected instead of answered with wrong numbers",
      "Requests the documentation declares invalid (too few points for the requested order, mismatched lengths, "
      "unknown options, negative bosonic poles, over-constrained fits, unavailable moments, mutually exclusive "
      "arguments, invalid ranges) raise the documented kind of error for every such input, while the nearest "
      "valid request is still accepted.",
      ["inputs", "configurations"], "all documented error conditions with generated parameters on both sides of the limit",
      "Tests check few of the error paths with single values.",
      ["gftool/fourier.py", "gftool/basis/pole.py", "gftool/pade.py", "gftool/hermpade.py", "gftool/linearprediction.py",
       "gftool/matrix.py", "gftool/polepade.py", "gftool/__init__.py", "gftool/cpa.py"],
      [("argument validation", "gftool/**: raise statements")],
      "property-based testing: rejection/acceptance on both sides of each documented limit", "Table of documented errors."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    import sys
    sys.path.insert(0, HERE)
    from props import MODULES
    checks, missing = [], []
    for p in PROPS:
        if p["id"] not in MODULES:
            missing.append({"property": p["id"], "reason": "check not built yet"})
            continue
        cmd = f"/opt/venv/bin/python -B run.py {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]})
    manifest = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/selfcheck.py", "checks": checks,
                "not_applicable": missing,
                "notes": "Every check is run.py <ID>: Hypothesis-generated cases run against the code in /repo and "
                         "compared with an explicit oracle; see DESIGN.md. Replay: run.py <ID> --replay FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1, ensure_ascii=False)
        fh.write("\n")


if __name__ == "__main__":
    main()
