def B(src, name=None, **k):
    d = dict(src=src, name=name or src.replace(".cpp", ""))
    d.update(k)
    return d

PORT = ["-DTHEORETICA_DISABLE_X86"]

PROPS = {
 "C01": dict(
    builds=[B("core_int.cpp")],
    rule="Every 16-bit argument; every boundary k^2, k^3, 2^k +-d of the 32/64-bit ranges; the complete Pascal triangle that fits 64 bits; all bit patterns of a boundary alphabet (pairs for the wide multiply, every rotation count). Oracle: __int128 arithmetic."),
}
PROPS["C02"] = dict(
    builds=[B("core_elem.cpp", sections=["round_", "round_order", "round_types", "float_floor"]),
            B("core_elem.cpp", "core_elem_portable", flags=PORT, sections=["round_", "round_order", "round_types", "float_floor"]),
            B("core_elem.cpp", "core_elem_branchless", flags=["-DTHEORETICA_BRANCHLESS"], sections=["round_order", "round_types"])],
    rule="x")
EL = ["constants_", "roots_", "logs_", "exps_", "trig_", "arc_", "archyp_", "wide_powers", "wide_angles"] + ["float_" + x for x in "sqrt cbrt ln log2 log10 exp sin cos atan asin acos tanh asinh acosh".split()]
PROPS["C03"] = dict(
    builds=[B("core_elem.cpp", sections=EL), B("core_elem.cpp", "core_elem_portable", flags=PORT, sections=EL),
            B("core_elem.cpp", "core_elem_float", flags=["-DTHEORETICA_FLOAT_PREC"], sections=EL),
            ],
    rule="x")
PROPS["C04"] = dict(
    builds=[B("core_elem.cpp", sections=["special_", "special_near"]), B("core_elem.cpp", "core_elem_portable", flags=PORT, sections=["special_", "special_near"])],
    rule="x")
PROPS["C05"] = dict(builds=[B("dataset.cpp")], rule="x")
PROPS["A01"] = dict(builds=[B("vec_ops.cpp")], rule="x")
ROWF = ["-DTHEORETICA_ROW_FIRST"]
A02S = ["dynamic_sequences", "dynamic_deep", "resize_shapes"]
A03S = ["unary_ops", "binary_ops", "fixed_shapes"]
PROPS["A02"] = dict(builds=[B("mat_ops.cpp", sections=A02S), B("mat_ops.cpp", "mat_ops_rowfirst", flags=ROWF, sections=A02S)], rule="x")
PROPS["A03"] = dict(builds=[B("mat_ops.cpp", sections=A03S), B("mat_ops.cpp", "mat_ops_rowfirst", flags=ROWF, sections=A03S)], rule="x")
A04S = ["small_1_2", "small_3a", "small_3b", "small_3c", "small_4", "symmetric_", "larger_", "complex_", "pivots_", "alias_", "cholesky_small", "shapes"]
PROPS["A04"] = dict(builds=[B("linsys.cpp", sections=A04S)], rule="x")
PROPS["A05"] = dict(builds=[B("linsys.cpp", sections=["eigen_*"])], rule="x")
RULES = {'C02': 'All 10-bit significands x all exponents of the int range (thorough: every float), both signs; all ordered triples of a boundary alphabet; three configurations. Oracle: C library.',
 'C03': 'All p-bit significands (p=10 quick, 17 thorough) x every exponent of the working range, both signs; all quadrant/octant boundaries; all (base,index) pairs of n-th roots; strided (quick) or all (thorough) single-precision arguments; three configurations. Oracle: long double C library.',
 'C04': 'All integers and half-integers up to overflow, dyadic grid in between, all pairs for Beta. Oracle: long double C library.',
 'C05': 'All datasets of length <= 5 over a 5-letter alphabet, all pairs of lengths, all lengths up to 2500 (block boundaries), three container types. Oracle: exact integer / long double arithmetic.',
 'A01': 'All operation words of length <= 3 (4 thorough) from an operation alphabet on small vectors, static and dynamic; all pairs of vectors over a small alphabet; all mismatched size pairs. Oracle: element-by-element model.',
 'A02': 'All operation words of length <= 3 (4 thorough) over shapes up to 3x3, all resize shape pairs, both storage orders. Oracle: table model.',
 'A03': 'All matrices over a small alphabet up to 3x3, all shape pairs/triples, static and dynamic, both storage orders. Oracle: definition on a table.',
 'A04': 'All integer matrices order 1-3 over alphabets, 0/1 order 4, symmetric families of order 3 and 4, structured families order 5-12, all 2x2 complex over an alphabet, all mismatched shapes. Oracle: exact integer determinants and residuals.',
 'A05': 'All symmetric integer 2x2 and 3x3 over alphabets, three shifts, all mismatched shapes. Oracle: Jacobi eigenvalues and residuals.'}
PROPS["X01"] = dict(builds=[B("complex.cpp", sections=["z_*"])], rule="x")
PROPS["X02"] = dict(builds=[B("complex.cpp", sections=["q_*"])], rule="x")
PROPS["X03"] = dict(builds=[B("complex.cpp", sections=["p_*"])], rule="x")
PROPS["D01"] = dict(builds=[B("autodiff.cpp", sections=["d1_*"])], rule="x")
PROPS["D02"] = dict(builds=[B("autodiff.cpp", sections=["d2_*"])], rule="x")
PROPS["D03"] = dict(builds=[B("autodiff.cpp", sections=["md_*"])], rule="x")
PROPS["D04"] = dict(builds=[B("autodiff.cpp", sections=["op_*"])], rule="x")

RULES.update({
 'X01': 'All pairs of complex numbers over an 8..10-letter alphabet per component (zero, negative, unit, tiny, large), real mixed operands, compound and aliased forms; elementary functions on a grid including both sides of every branch cut. Oracle: std::complex<long double> and defining identities.',
 'X02': 'All pairs (triples for associativity) of quaternions over a small component alphabet, compound and aliased forms, all rotations by a grid of angles about all integer axes. Oracle: Hamilton table and Rodrigues formula in long double.',
 'X03': 'All pairs of phasors over a modulus x phase grid for the four operations and conversions. Oracle: std::polar arithmetic.',
 'D01': 'All expression words up to a bounded depth over the dual operations at every point of a grid, all elementary functions, compound forms. Oracle: hand-derived derivative in long double.',
 'D02': 'As D01 for second-order duals: value, first and second derivative.',
 'D03': 'As D01 for multidual numbers of static and dynamic size with every seed direction.',
 'D04': 'All monomials/products of a basis in up to 3 variables at every point of a grid for gradient, Jacobian, Hessian, divergence, curl, Laplacian, directional derivative and Sturm-Liouville. Oracle: closed-form partial derivatives.',
})
for k, v in RULES.items():
    PROPS[k]['rule'] = v
def add(i, builds, rule, **k):
    PROPS[i] = dict(builds=builds, rule=rule, **k)
add("P01", [B("poly.cpp", sections=["ring_*"])], "All pairs of polynomials with <=3 coefficients over {-2,0,1,3} and with 4 (5 thorough) over {-1/2,0,2}, all in-place words of length <=3 (4), all root multisets of size <=5, all quadratics over a 10-letter coefficient alphabet. Oracle: exact coefficient arithmetic.")
add("P02", [B("poly.cpp", sections=["ortho_*"])], "Every degree 0..20 of each family on a grid, every associated Legendre (l,m) with l<=8, every Gauss rule of order 1..16 (Hermite 18) on every monomial it must integrate. Oracle: recurrences, trigonometric forms and exact moments in long double.")
add("I01", [B("poly.cpp", sections=["interp_*"])], "Every node list of length <=4 over 5 abscissas (duplicates included) with ordinates over an alphabet; every polynomial over {-1.5,0,2} with <=4 coefficients, 3 intervals, orders 0..6. Oracle: interpolation conditions.")
add("I02", [B("poly.cpp", sections=["spline_*"])], "Every spacing word of length <=4 (6 thorough) over {0.5,1,3} with ordinates over an alphabet; every control polygon of 2..4 points over a 3x3 grid at 5 parameters; all scalar interpolation arguments of an alphabet. Oracle: defining equations (interpolation, C2, natural ends, Bernstein form).")
add("Q01", [B("calculus.cpp", sections=["polyn_*"])], "Every polynomial with <=5 (6) coefficients over {-2,0,0.5,3}, 6 intervals (empty and reversed included), monomials up to degree 40, complex coefficients. Oracle: coefficient formulas.")
add("Q02", [B("calculus.cpp", sections=["quad_*"])], "Every polynomial with <=5 (7) coefficients over a 3-letter alphabet and families up to degree 9 on 6 intervals, every step count 1..12 (1..200 (512), 511-513 and 999-1025 on the powers of degree <=4 over 8 intervals of magnitudes 1e-30 to 1e30), every Romberg order 1..8, every tabulated and several computed Gauss rules on every monomial of their exactness class; integrands whose first estimates agree by chance. Oracle: exact antiderivatives.")
add("Q03", [B("calculus.cpp", sections=["nderiv_*"])], "Every polynomial with <=6 coefficients over {-2,0,1.5}, 4 points, 3 steps, Ridders degrees 1..4; Taylor expansions of every polynomial with <=4 coefficients at 4 centres. Oracle: exact derivatives.")
add("Q04", [B("calculus.cpp", sections=["ode_*"])], "Every planar system x'=c0+c1 t+c2 y, y'=c3+c4 x+c5 x y t with coefficients over {-1,0,1.5} (<=4 non-null in quick), 2 start times and states, two step sizes (order conditions); every (start, length, step) triple of an alphabet for the six solvers in static and dynamic dimension. Oracle: fine long-double flow, one-step consistency.")
add("O01", [B("optim.cpp", sections=["brk_*"])], "Every polynomial with <=3 (5 thorough) roots over {-1,0,0.3,2}, two signs, with and without complex factors, on all 100 end-point pairs of an alphabet x 4 tolerances x 8 ITP parameter choices; step functions; grid searches on 3 intervals x 6 step counts; polynomials with every set of simple roots of an alphabet. Oracle: the known roots and exact sign changes.")
add("O02", [B("optim.cpp", sections=["open_*"])], "The same polynomials from 11 guesses (exact roots included), 9 methods, two tolerances, every iteration limit up to convergence; complex Newton from a 4x4 grid. Oracle: known roots, residuals, order of convergence.")
add("O03", [B("optim.cpp", sections=["ext_*"])], "Five unimodal shapes x 6 positions x 36 intervals x 3 scales; every cubic over {-2,0,1,3} x 6 guesses; stationary shapes x intervals x signs. Oracle: known extrema.")
add("O04", [B("optim.cpp", sections=["multi_*"])], "All bowls with curvature/centre/cross/quartic terms over alphabets in 2 and 3 variables from a grid of guesses, both signs, two tolerances and step sizes; every 2x2 system over {-1,0,2} and 3x3 over {0,1} ({-1,0,1} thorough) with and without quadratic terms. Oracle: known extrema and residuals.")
add("A07", [B("geometry.cpp", sections=["dist_*"])], "All pairs of real vectors of length 1..3 (4 thorough) over an alphabet with zero and negative entries, static and dynamic; all triples of planar vectors (triangle inequality); all pairs of planar complex vectors over {-2,0,1}; all mismatched sizes 1..4. Oracle: definitions in long double.")
add("A08", [B("geometry.cpp", sections=["tr_*"])], "All 26 axis directions x 9 angles x 5 matrix shapes; every shape up to 6x6 for structured matrices, every too-small shape; all camera/target/up triples over a grid; all view volumes of an alphabet. Oracle: Rodrigues formula, definitions, frustum corners.")
add("S01", [B("stats.cpp", sections=["s01_*"])], "All datasets of length <=5 (7 thorough) over a 6-letter alphabet and over a 3-letter one with a large common offset, every number of constraints and every lag; all pairs of datasets of length <=3 (4); every length up to 600 (3000) for three closed-form families; every polynomial of degree <=4 for Gaussian expectations; all mismatched sizes. Oracle: two-pass definitions in long double.")
add("S02", [B("stats.cpp", sections=["s02_*"])], "All insertion sequences of length <=3 (4 thorough) over 8-13 letters (both ends and their neighbours, bin edges, outside values, NaN, infinities) for 7 ranges x 4 bin counts; all datasets of length <=5 (7) x 5 bin counts; every bin count up to 400 (2000). Oracle: list of the accepted values.")
add("S03", [B("stats.cpp", sections=["s03_*"])], "All point sets of 2..4 (5 thorough) points over 4x3 alphabets (degenerate ones included) for every ordinary fit, 2..3 (4) points x all errors over 3 letters for weighted fits, all point sets x 4 error pairs for errors on both axes, points on a line for every length up to 120 (400), all size triples up to 4. Oracle: centred normal equations in long double, objective at neighbouring lines.")
add("S04", [B("stats.cpp", sections=["s04_*"])], "Every density on a 77-point grid (support edges, negative, tiny) x all parameters of alphabets, chi-squared and Student up to 24 (60) degrees, Erlang order up to 30; every outcome of binomial n<=60, Poisson k<=120, multinomial n<=30 with totals; every parameter-vector size 0..4; likelihood of every sample of length <=4 (5). Oracle: closed forms in long double.")
add("S05", [B("stats.cpp", sections=["s05_*"])], "Every number of degrees of freedom 1..259 x 44 (204) chi-squared values, 6 large ones x 81 (401) values, ndf=0; all observed/expected/error triples of length <=3 (4). Oracle: regularized incomplete gamma in long double.")
add("S06", [B("stats.cpp", sections=["s06_*"])], "All 243 polynomials of a 5-term family x 4 points x 4 error vectors, independent and correlated, static and dynamic; all pairs of datasets of length 2..3 (4); every covariance shape up to 4x4. Oracle: closed-form gradient.")
add("E01", [B("errors.cpp"), B("errors.cpp", "errors_throw", flags=["-DTHEORETICA_THROW_EXCEPTIONS"]), B("errors.cpp", "errors_only", flags=["-DTHEORETICA_ONLY_EXCEPTIONS"])], "A catalogue of 71 failing and 48 valid calls of every part of the library, each from 6 previous values of errno, every ordered pair of calls, every history of length <=3 (4 thorough) of a 13-call alphabet, every error code; three configurations. Oracle: the error contract.")
add("R01", [B("random.cpp", sections=["r01_*"])], "All states over an 8-letter boundary alphabet (4096 xoshiro, 512 wyrand, 64 middle-square/splitmix, all admissible congruential parameters), every wrapper with every state size 0..6, all words of length <=4 (5 thorough) over 9 operations for 5 generators x 6 seeds, all interleavings of length 5 (7) of two generators, 4000 (200000) consecutive seeds, the first 2e7 (all 2^31-2) states of the congruential generator. Oracle: published recurrences in 128-bit arithmetic.")
add("R02", [B("random.cpp", sections=["r02_*"])], "The generator is replaced by a script and the tree of its answers is explored completely: grids of 1..500 answers per draw for inverse-transform samplers, 128^2 (400^2) for Gaussian pairs, up to 3^10 for sums, all words over 9 extreme answers, all accept/reject histories of length <=3 for rejection sampling, all 3-step Metropolis histories; every dice size <=40, every parameter-vector size. Oracle: target distribution functions, reference acceptance rules.")
add("R03", [B("random.cpp", sections=["r03_*"])], "Every sequence of indices answered by the generator for sizes 1..5 and up to 4 (5) rounds, every size 1..40 with 5 generators x 8 (60) seeds, the empty set. Oracle: permutations; all orders reachable and nearly equally frequent.")
add("R04", [B("random.cpp", sections=["r04_*"])], "All 81 cubic integrands over {-1.5,0,2} on 4 intervals with a generator that runs through the complete product grid of answers (1, 2, 3 dimensions); every index below 20000 (200000) of Weyl sequences for 7 bases; discrepancy of every prefix. Oracle: Riemann sums on the same grid, exact integrals, fractional parts in long double.")
add("C06", [B("total.cpp", "x86"), B("total.cpp", "portable", flags=["-DTHEORETICA_DISABLE_X86"]), B("total.cpp", "float", flags=["-DTHEORETICA_FLOAT_PREC"])],
    "Every binary exponent of the format (denormals included) x 8 significands and both neighbours of the power of two (thorough: 256) x sign, with NaN, infinities, zeros and the limits of the integer types; all pairs of a 45-value grid for two-argument functions; all root indices -9..9. Oracle: extended precision C library; a stalled or crashing call is a violation.")
add("A09", [B("threads.cpp", sched=True, sections=["a09_*"])],
    "Controlled scheduler and OpenMP runtime under the real code: 1..5 threads (8) x 0..9 elements (17) x every parallel function x real/complex/dual containers; every schedule of synchronisation operations with vector-clock race detection (one execution per trace class), and every interleaving of all shared accesses up to 2 (4) preemptions for small sizes. Oracle: the sequential function.")
add("T01", [B("threads.cpp", sched=True, sections=["t01_*"]), B("threads2.cpp", sched=True), B("threads2.cpp", "threads2_portable", sched=True, flags=PORT, sections=["t01_each_*"])],
    "Each of about 480 calls (every public function of every module) in two threads at once for every pair of 8 argument regimes, cold in a fresh process, and after every ordered pair of calls (portable code too); all pairs of a 71-call catalogue covering every module (5041 programs), triples of each call, first calls in a fresh process, all-access interleavings with 1 (2; at most 100000 schedules per call) preemptions; vector-clock race detection on every execution. Oracle: the value of the call alone in a fresh process.")
add("F01", [B("signal.cpp", sections=["f01_*"]), B("signal.cpp", "portable", flags=PORT, sections=["f01_words", "f01_impulses", "f01_static"])],
    "All words over 5 (3-4) letters for N<=4 (8), all impulses (which span every vector by linearity) for N<=128 (512), structured signals to N=1024 (4096), impulses and round trips to 2^16 (2^20), every refused size <=300, static sizes, all impulse pairs for the convolution theorem, bit reversal of every width. Oracle: the DFT sum in long double.")
add("U01", [B("io.cpp", sections=["u01_*"])],
    "All line sequences up to length 4 (6) over a 7-line alphabet x 3 terminators x final newline; all words of vectors (size<=4, 5), polynomials, complex, dual and quaternion components over a 7-letter alphabet; matrices of every shape up to 3x3; tables. Oracle: reference reader; the numbers parsed back from the text.")
add("U02", [B("io.cpp", sections=["u02_*"])],
    "All pairs of fractions with |num|,|den|<=5 (9), families of rational functions at 9 points, mixed types. Oracle: exact cross multiplication.")
ASR = ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
add("M01", [B("shapes.cpp", flags=ASR, sections=["m01_*"]), B("shapes.cpp", "shapes_rowfirst", flags=ASR + ["-DTHEORETICA_ROW_FIRST"], sections=["m01_matrix", "m01_matrices"])],
    "Every operation of vectors, datasets, matrices, polynomials, distances, fits, transforms, solvers, eigenvalue iterations, dynamic automatic differentiation and differential equations on all sizes 0..6 (8), all pairs of sizes, all matrix shapes 0x0..4x4 (5x5) with all vector sizes and index pairs, all pairs of shapes 0x0..3x3 (4x4) with all result shapes; both storage orders. Oracle: AddressSanitizer, UBSan and container assertions; shape rules of the definitions.")

# size sweeps: every size of a long range, so that block, unrolling and buffer boundaries are all inside of the bounds
for _id, _sz, _s, _fl in [("A01", 1, ["sz_vec", "sz_vec_static", "sz_vec_history"], []), ("A02", 2, ["sz_mat_resize"], []), ("A03", 2, ["sz_mat", "sz_mat_static", "sz_mat_product", "sz_mat_product_static"], []),
        ("A03", 2, ["sz_mat", "sz_mat_product"], ROWF), ("A04", 4, ["sz_linear"], []), ("A05", 5, ["sz_eigen"], []), ("A07", 7, ["sz_dist"], []), ("P01", 8, ["sz_poly"], []), ("Q01", 8, ["sz_poly_calculus"], []),
        ("I01", 9, ["sz_interp"], []), ("I02", 9, ["sz_spline"], []), ("S01", 10, ["sz_stats"], []), ("S03", 10, ["sz_regression"], []), ("S06", 10, ["sz_propagation"], []), ("D03", 11, ["sz_gradient"], []), ("D04", 11, ["sz_fields"], [])]:
    PROPS[_id]["builds"].append(B("sizes.cpp", "sizes%d%s" % (_sz, "_rowfirst" if _fl else ""), flags=["-DSZ=%d" % _sz] + _fl, sections=_s))
    if not PROPS[_id]["rule"].endswith("sweeps."): PROPS[_id]["rule"] += " Plus every size of long ranges (vectors to 1024, matrices to 33x33, systems of order 33, polynomials to degree 64, splines to 129 nodes, datasets to 512; thorough further): size sweeps."

# magnitude sweeps: the same problems in other units (powers of two commute with rounding)
for _id, _sz, _s in [("A01", 1, ["sc_vec"]), ("A03", 2, ["sc_mat"]), ("A04", 4, ["sc_linear"]), ("A07", 7, ["sc_dist"]), ("I02", 9, ["sc_spline"]), ("I01", 9, ["sc_interp"]), ("P01", 9, ["sc_poly"]), ("Q01", 9, ["sc_poly"]), ("F01", 9, ["sc_fft"]),
        ("S01", 10, ["sc_stats"]), ("S03", 10, ["sc_regression"]), ("S04", 10, ["sc_dens"]), ("S06", 10, ["sc_prop"]), ("S02", 10, ["sc_histogram"]), ("C05", 10, ["sc_reduce"]), ("Q04", 12, ["sc_ode"]), ("O03", 12, ["sc_extrema"])]:
    PROPS[_id]["builds"].append(B("scales.cpp", "scales%d" % _sz, flags=["-DSZ=%d" % _sz], sections=_s))
    PROPS[_id]["rule"] += " Plus the same problems in other units, every quantity multiplied by powers of two over the range in which the results are representable: magnitude sweeps."

for _id, _t in [("X01", "every exponent of a wide range for the functions (both half-planes, far and near the origin), square roots of 24 directions at every magnitude 4^-240..4^240"), ("X02", "components of every magnitude of a wide range"), ("X03", "moduli and phases of a wide range"),
        ("D01", "arguments of every magnitude of the domain of each function and integer powers"), ("D02", "arguments of every magnitude of the domain of each function and integer powers"), ("D03", "arguments of every magnitude of the domain of each function and integer powers"),
        ("Q03", "the same derivatives in units 2^-100..2^100 with origins and amplitudes of several magnitudes"), ("O01", "functions and brackets of several magnitudes"), ("O02", "functions and roots of several magnitudes"), ("O04", "1 to 12 variables, right sides of several magnitudes"),
        ("A08", "801 angles, every shape 3x3..9x9, structured matrices to order 40, cameras, view volumes and inversions in units 2^-40..2^100"), ("R02", "location-scale families in units 2^-40..2^200 on the same answers"), ("R03", "sizes 41..140, 255-257, 299-302 with 0, 1, 7 and N rounds"),
        ("U01", "streams of up to 5000 lines, numbers of up to 300 digits and every magnitude, matrices to 12x12"), ("U02", "all pairs of fractions over 8 large numbers")]:
    PROPS[_id]["rule"] += " Wide sweeps: " + _t + "."

# fixed-size and dynamic storage together, every element type, operands that are the destination
for _id, _s, _fl in [("A01", ["mixed_vectors"], []), ("A03", ["mixed_matrices", "mixed_tolerances", "mixed_complex"], []), ("A03", ["mixed_matrices", "mixed_complex"], ROWF)]:
    PROPS[_id]["builds"].append(B("mixed.cpp", "mixed" + ("_rowfirst" if _fl else "_" + _id), flags=(["-DMIXED_" + _id] if not _fl else _fl), opt=0, sections=_s))
    if not _fl: PROPS[_id]["rule"] += " Plus fixed-size and dynamic storage used together, with real, integer, float and complex elements, at sizes to 33, and operations whose operand is also the destination."

# higher orders, longer data, edges of the domains
for _id, _sz, _t in [("P02", 1, "coefficients to order 64 (100), normalisations to 1000, associated functions of every degree to 14 (20), weights to order 45"), ("I02", 2, "angles down to 2^-18, ends approached to 2^-40, parameters outside the unit interval, 700 nodes"),
        ("S01", 3, "datasets of up to 131073 values, extreme outliers, uncertainties of every magnitude and sign"), ("S02", 4, "up to 140000 insertions, default bins of every size to 1200"), ("S03", 5, "irregular data, uncertainties of both signs"), ("S04", 6, "long samples, ends of the domains, large parameters"), ("S06", 7, "deviations of both signs, every requested number of Monte Carlo points")]:
    PROPS[_id]["builds"].append(B("wide.cpp", "wide%d" % _sz, flags=["-DSZ=%d" % _sz]))
    PROPS[_id]["rule"] += " Wider: " + _t + "."
