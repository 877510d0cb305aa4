"""Property texts: id -> (title, statement, quantifier kinds, quantifier text, why tests cannot, files, mechanisms).
gen.py turns them into properties.jsonl and MANIFEST.json."""
M = {}
def P(id, title, statement, over, qtext, why, files, mech, note=""):
    M[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note)

P("C01", "Integer and bit arithmetic is exact over the whole representable range",
  "Integer square and cube roots, integer logarithm, power-of-two padding, integer powers, factorials, double and falling/rising factorials, binomial, Catalan and Stirling-type counts, wide multiplication, bit rotation and bit reversal return the exact mathematical value for every argument whose result is representable. They never overflow an intermediate, divide by zero, shift out of range or loop forever, including at the largest representable argument.",
  ["inputs"], "every 16-bit argument, every boundary k^2, k^3, 2^k +- d of the 32- and 64-bit ranges, every binomial that fits 64 bits, every rotation count",
  "the unit tests sample a few dozen small arguments in the middle of the range and compare in floating point; overflow happens only near type limits",
  ["src/core/real_analysis.h", "src/core/bit_op.h"], [("binary search / multiplication recurrences", "src/core/real_analysis.h"), ("wide multiply and rotation", "src/core/bit_op.h")])
P("C02", "Rounding, sign, ordering and clamping helpers agree with their definitions",
  "Floor, fractional part, absolute value, sign, maximum, minimum, clamp, step and range predicates return the mathematically defined value for every finite argument of either sign, including integers, negative numbers below minus one and both zeros. Branchless and branching configurations give the same answers.",
  ["inputs", "configurations"], "every number of a dyadic grid over the integer range, every ordered triple of a boundary alphabet, in each build configuration",
  "tests try a handful of positive arguments in a single configuration",
  ["src/core/real_analysis.h"], [("floor/fract/abs/sgn/clamp", "src/core/real_analysis.h")])
P("C03", "Elementary functions are accurate on their domain in every configuration",
  "Roots, logarithms, exponentials, trigonometric, hyperbolic and inverse functions (including the two-argument arctangent in all quadrants and n-th roots of negative numbers for odd n) agree with the mathematical function within the library's working tolerance for every argument of their domain, in the x86, portable and single-precision configurations. A valid argument never produces a spurious error report. The named mathematical constants are right to the precision of the type.",
  ["inputs", "configurations"], "every p-bit significand times every binary exponent of the working range, every quadrant and octant boundary, every (base, index) pair for n-th roots, in three build configurations",
  "tests sample some thousand random points in one configuration and average the error, so a wrong quadrant, a bad range reduction or a broken portable fallback is invisible",
  ["src/core/real_analysis.h", "src/core/constants.h"], [("x87 and portable implementations selected by macro", "src/core/real_analysis.h")])
P("C04", "Special functions satisfy their defining values and recurrences",
  "The gamma function family (at integers, half-integers and between), its logarithm, the Beta function and related special functions agree with reference values within working tolerance over their domain, and report a domain error together with a NaN at the poles and outside of it. Arguments whose result is representable never overflow internally.",
  ["inputs", "configurations"], "every integer and half-integer argument up to overflow, a dyadic grid between, every pair for the Beta function",
  "tests only check a few small arguments",
  ["src/core/special.h"], [("integer, half-integer and series evaluation", "src/core/special.h")])
P("C05", "Dataset reductions equal their definitions for every dataset, even empty",
  "Sums (plain, compensated, pairwise), products, sums of squares, of products and of quotients, minima, maxima and the arithmetic, harmonic, geometric, quadratic and weighted means equal the exact value of their definition up to rounding, for every length and every element type of container; the inputs are not modified. Empty, mismatched or out-of-domain datasets give NaN with an error report and never read outside of the data.",
  ["inputs"], "every dataset up to a bounded length over a small alphabet including zero and negative numbers, every length up to a few thousand for the blocked algorithms, every pair of lengths for two-dataset operations",
  "tests use a couple of fixed datasets; block boundaries of pairwise summation and empty/mismatched inputs are not reached",
  ["src/core/dataset.h"], [("reductions over any vector-like type", "src/core/dataset.h")])
P("A01", "Vector operations follow a reference model in every sequence of operations",
  "For static and dynamic vectors, every sequence of constructions, assignments, element updates, resizes, pushes, compound and binary arithmetic, products, normalisation and comparisons leaves exactly the size and elements of a simple mathematical model, with operands left untouched by value-returning operations. Operations on vectors of different sizes report an error and yield NaN elements rather than touching memory outside of the operands.",
  ["histories", "inputs"], "every operation sequence up to a bounded depth from every small start vector, every pair of small vectors for the free functions, every mismatched pair of sizes",
  "tests evaluate single operations on fixed vectors; aliasing, sequence effects and size mismatches are not enumerated",
  ["src/algebra/vec.h", "src/algebra/algebra.h"], [("vec<T,N> and vec<T>", "src/algebra/vec.h"), ("free vector algebra", "src/algebra/algebra.h")])
P("A02", "Dynamic matrices keep every element in place through any operation history",
  "A dynamic matrix of any shape, square or not, stores each element independently: any history of construction, element writes, resizes, copies, moves, row/column swaps and compound arithmetic leaves exactly the shape and elements of a two-dimensional reference table, elements in the common region survive a resize, and new elements are zero. This holds for both storage orders.",
  ["histories", "configurations"], "every operation sequence up to a bounded depth over shapes up to 3x3, every pair of shapes for resize, in column-first and row-first builds",
  "tests only build square matrices and check single operations",
  ["src/algebra/mat.h"], [("index computation and resize of mat<T>", "src/algebra/mat.h")])
P("A03", "Matrix algebra equals its definition for every shape and content",
  "Products, transposes, traces, transforms, linear combinations, row and column operations, Hermitian conjugates and the shape and symmetry predicates produce the elements given by their definition for static and dynamic, square and rectangular matrices in both storage orders, with results of the right shape. Incompatible shapes are reported as errors with NaN results and never read or write outside of the operands.",
  ["inputs", "configurations"], "every matrix over a small alphabet and every pair and triple of shapes up to 3x3 (4x4 for predicates), in both storage orders",
  "tests use a few square matrices of fixed size",
  ["src/algebra/mat.h", "src/algebra/algebra.h"], [("free matrix algebra and operator overloads", "src/algebra/algebra.h")])
P("A04", "Linear solvers, inverses, determinants and decompositions are correct or refused",
  "For every non-singular system the solvers, the inverse, the determinant and the LU and Cholesky factorisations satisfy their defining equation (A x = b, A inv(A) = I, L U = A, L L^T = A) up to rounding, also when a leading pivot vanishes or is tiny, and do not modify their inputs. Singular, non-symmetric, indefinite, non-triangular or mis-shaped inputs are reported as errors with NaN results wherever the operation has no answer.",
  ["inputs"], "every integer matrix of order up to 3 over a small alphabet, every 0/1 matrix of order 4, all symmetric ones of order 3 and 4 over an alphabet, structured families up to order 12, all mis-matched shapes",
  "tests use random diagonally favourable matrices, for which neither a zero pivot nor reused outputs ever occur",
  ["src/algebra/algebra.h"], [("decompose_lu, decompose_cholesky, solve*, inverse, det", "src/algebra/algebra.h")])
P("A05", "Eigenvalue and eigenvector iterations return true eigenpairs or report failure",
  "Whatever value or vector the power, inverse and Rayleigh iterations return is an eigenvalue of the matrix and a normalised matching eigenvector within tolerance; the power method finds the dominant and the inverse method the smallest eigenvalue when these are separated. When an iteration does not converge, or shapes do not match, an error is reported and NaN is returned, never a wrong pair.",
  ["inputs"], "every symmetric integer matrix of order 2 and 3 over an alphabet including zero, negative and repeated eigenvalues, several starting shifts, all mis-matched shapes",
  "tests check one or two positive definite matrices with a comfortable gap",
  ["src/algebra/algebra.h"], [("eigenvalue_/eigenpair_ power, inverse, rayleigh", "src/algebra/algebra.h")])
P("X01", "Complex arithmetic and functions agree with the complex field",
  "Addition, subtraction, multiplication, division, inversion, conjugation, modulus and argument of complex numbers, in value-returning, compound, aliased and mixed real/complex forms, equal the field operations up to rounding for every operand and in every sequence; square, cube, square root, exponential, logarithm and the direct and inverse trigonometric functions return the principal value in all four quadrants, on the axes and on branch cuts. Division by or inversion of zero reports an error and gives NaN in both components.",
  ["inputs", "histories"], "every pair over a component alphabet, every sequence of compound operations up to a depth, every point of a grid covering all quadrants and axes",
  "tests check a few operands, almost all in the first quadrant and never on a branch cut",
  ["src/complex/complex.h", "src/complex/complex_analysis.h"], [("complex<T> operators", "src/complex/complex.h"), ("complex functions", "src/complex/complex_analysis.h")])
P("X02", "Quaternion algebra and rotations equal Hamilton's definition",
  "Sums, Hamilton products, quotients, inverses, conjugates and norms of quaternions, including mixed real and compound and aliased forms, equal the definition for every operand; rotation quaternions are unit and transforming a vector by one rotates it by the given angle around the given axis following the right-hand rule. Division by zero or wrongly sized vectors are reported as errors with NaN results.",
  ["inputs"], "every pair of quaternions over a component alphabet, every axis, vector and angle of a grid, every mis-matched size",
  "tests cover one or two quaternions and no rotation",
  ["src/complex/quat.h"], [("quat<T> operators, transform, rotation, rotate", "src/complex/quat.h")])
P("X03", "Phasors stay equivalent to the complex number they represent",
  "Every sequence of phasor additions, subtractions, products, quotients, inversions and conjugations, also mixed with real and complex numbers, keeps the phasor equal to the complex number computed by the same operations, with a non-negative modulus when built from real or complex numbers. Conversions in both directions preserve the value, and dividing by zero is reported with NaN.",
  ["histories", "inputs"], "every operation sequence up to a depth from every pair of start phasors over a modulus and phase alphabet",
  "tests check single operations on phasors of equal or trivial phase",
  ["src/complex/phasor.h"], [("phasor<T> operators", "src/complex/phasor.h")])
P("D01", "First-order dual numbers carry exact derivatives through any expression",
  "Evaluating any expression built from the arithmetic operators (binary, mixed, compound, aliased) and the elementary functions on dual numbers yields the value of the expression and its exact derivative, up to rounding, at every point of its domain without a spurious error. Outside of the domain an error is reported and both parts are NaN.",
  ["inputs", "histories"], "every expression word up to a depth over the full operation alphabet at every start point and seed of a grid",
  "tests check each function once on its own at a few points; compound operators and compositions are never exercised",
  ["src/autodiff/dual.h", "src/autodiff/dual_functions.h"], [("dual operators", "src/autodiff/dual.h"), ("dual functions", "src/autodiff/dual_functions.h")])
P("D02", "Second-order dual numbers carry exact first and second derivatives",
  "Evaluating any expression built from the arithmetic operators and elementary functions on second-order dual numbers yields the value and exact first and second derivatives up to rounding, whatever first and second order parts the operands carry. Outside of the domain an error is reported and all three parts are NaN.",
  ["inputs", "histories"], "every expression word up to a depth over the full operation alphabet at every start point and seed of a grid",
  "tests check functions on the bare variable only, where the second-order part of the argument is zero",
  ["src/autodiff/dual2.h", "src/autodiff/dual2_functions.h"], [("dual2 operators", "src/autodiff/dual2.h"), ("dual2 functions", "src/autodiff/dual2_functions.h")])
P("D03", "Multidual numbers carry exact gradients for static and dynamic sizes",
  "Evaluating any expression on multidual numbers, of compile-time or run-time size, yields the value and every partial derivative up to rounding, and packing arguments and extracting values, gradients and Jacobians keeps every component. Outside of the domain, or on division by zero, an error is reported and all parts are NaN with the size unchanged.",
  ["inputs", "histories"], "every expression word up to a depth at every start point and seed of a grid, static and dynamic, every size up to 5",
  "tests only take gradients of two polynomial functions with static size",
  ["src/autodiff/multidual.h", "src/autodiff/multidual_functions.h"], [("multidual operators, make_argument, extract", "src/autodiff/multidual.h")])
P("D04", "Differential operators equal the analytic derivatives of the field",
  "Gradient, divergence, Jacobian, curl, Laplacian, directional derivative, univariate first and second derivatives and the Sturm-Liouville operator, computed by automatic differentiation, equal the analytic operators up to rounding at every point, in static and dynamic dimension, both when evaluated directly and through the returned function objects. Wrong dimensions are reported as errors.",
  ["inputs"], "every monomial and product field of a basis in one to three variables at every point of a grid, every wrong dimension",
  "tests check one field at one point per operator; some operators were never instantiated",
  ["src/autodiff/autodiff.h"], [("gradient, divergence, jacobian, curl, laplacian, directional_derivative, sturm_liouville, deriv, deriv2", "src/autodiff/autodiff.h")])
P("P01", "Polynomial arithmetic is an exact ring with Euclidean division",
  "Sums, differences, products, quotients, scalar operations, evaluation, equality, order and trimming of polynomials agree with exact coefficient arithmetic for every pair of polynomials of any lengths (empty and with null leading coefficients included), in value-returning, compound and aliased forms and in any sequence; the remainder left by a quotient has lower degree than the divisor. Building from roots, roots of quadratics and the printed form are consistent with the coefficients; dividing by zero is reported and gives NaN.",
  ["inputs", "histories"], "every pair of polynomials up to a length over a small alphabet, every sequence of in-place operations up to a depth, every small root set and every quadratic over an alphabet",
  "tests add and multiply two polynomials of equal length; shorter operands, exact divisions, trailing zeros and empty polynomials never occur",
  ["src/polynomial/polynomial.h"], [("polynomial<T> operators, find_order, trim, quadratic_roots", "src/polynomial/polynomial.h")])
P("P02", "Orthogonal polynomials and Gauss rules have their defining values",
  "Legendre, Laguerre, generalized Laguerre, Hermite and Chebyshev polynomials of every degree, associated Legendre functions of every admissible order and the normalisation constants agree with their recurrences and closed forms; the Legendre roots are all distinct roots, and the Legendre, Laguerre and Hermite weights of n nodes integrate every polynomial of degree below 2n exactly up to rounding.",
  ["inputs"], "every degree up to 20, every (l, m) with l up to 8, every rule up to 16 nodes (Hermite 18) on every monomial in its exactness class",
  "tests compare three or four low degree polynomials; repeated roots and overflowing weights occur only from degree 6 and 17",
  ["src/polynomial/orthogonal.h"], [("gen_polyn_recurr, legendre_roots, *_weights", "src/polynomial/orthogonal.h")])
P("I01", "Interpolating polynomials pass through every point and reproduce polynomials",
  "The Lagrange polynomial of any set of points with distinct abscissas has degree below the number of points and passes through all of them, in any order of the points; equispaced and Chebyshev interpolation pass through their nodes and reproduce exactly every polynomial of degree not above the order, including order zero. Empty sets and repeated abscissas, adjacent or not, are reported with NaN.",
  ["inputs"], "every list of up to four points over an alphabet of abscissas with repetitions, every small polynomial, interval and order",
  "tests interpolate one function with one set of increasing nodes",
  ["src/interpolation/polynomial.h"], [("lagrange_polynomial, chebyshev_nodes, interpolate_grid, interpolate_chebyshev", "src/interpolation/polynomial.h")])
P("I02", "Splines are natural, C2 and interpolating; curves follow their control points",
  "Natural cubic splines on any strictly increasing, unequally spaced abscissas interpolate every point, have continuous first and second derivative at every interior node and zero second derivative at the ends, and their evaluation and derivative use the piece containing the argument. Linear, inverse and remapped interpolation, smoothsteps, spherical interpolation and Bezier curves of any degree equal their closed forms and keep their inputs; invalid sizes and parameters are reported with NaN.",
  ["inputs"], "every spacing and ordinate word up to a length over small alphabets, every control polygon over a point grid, every mis-matched size",
  "tests use equally spaced nodes, for which the wrong interval width cannot be noticed",
  ["src/interpolation/splines.h"], [("cubic_splines, spline, bezier, lerp family", "src/interpolation/splines.h")])
P("Q01", "Polynomial derivatives and integrals are exact",
  "Derivative and antiderivative polynomials have the exact coefficients, pointwise derivative and definite integral equal the exact values up to rounding for every polynomial and every interval, including reversed and empty ones, and differentiating the antiderivative gives the polynomial back.",
  ["inputs"], "every polynomial up to a length over an alphabet, every interval of a set, monomials up to degree 40",
  "tests check a couple of cubic polynomials on one interval",
  ["src/calculus/deriv.h", "src/calculus/integral.h"], [("deriv, integral of polynomial", "src/calculus/deriv.h")])
P("Q02", "Quadrature rules are exact on their class for every interval and step count",
  "Midpoint and trapezoid rules integrate lines, Simpson's rule cubics, k-level Romberg degree 2k-1 and n-node Gauss rules degree 2n-1 exactly up to rounding, for every number of steps (odd included), every interval orientation and every tabulated or computed rule; beyond it the error decreases with the order of the rule. Adaptive integration reaches its tolerance on polynomials up to degree nine, even when the first estimates agree by chance. Zero steps, mismatched nodes, unavailable tables and divergent half-line integrals are reported with NaN.",
  ["inputs"], "every polynomial of bounded degree over an alphabet, intervals forward, backward and empty, every step count up to 12, every table and node count",
  "tests use one default step count, even and large, on smooth functions where a wrong end term is below tolerance",
  ["src/calculus/integral.h", "src/calculus/gauss.h"], [("integral_* rules", "src/calculus/integral.h"), ("tabulated roots and weights", "src/calculus/gauss.h")])
P("Q03", "Finite differences and Taylor expansions are exact on their class",
  "Forward and backward differences are exact on lines, central differences on parabolas, extrapolated (Ridders) differences of degree g on polynomials of degree 2g and second differences on cubics for every point and step; defaults reach working tolerance on smooth functions. Linear and quadratic Taylor expansions carry the exact value, slope and curvature at any centre.",
  ["inputs"], "every polynomial up to six coefficients over an alphabet at every point and step of a set, every degree up to 4",
  "tests compare with a loose tolerance at sampled points with the default step, which hides a wrong extrapolation coefficient",
  ["src/calculus/deriv.h", "src/calculus/taylor.h"], [("deriv_central/forward/backward/ridders, expand_linear/quadratic", "src/calculus/deriv.h")])
P("Q04", "ODE steppers have their order and solvers cover the interval exactly",
  "Euler, midpoint, Heun, Runge-Kutta (2, 4, 3/8) and Adams-Bashforth (2, 3) steps have a local error of one order above their nominal order on every coupled, time-dependent and nonlinear system. Every solver returns times starting at the initial and ending at the final time with the last step shortened when needed, one row per time, each row being one step of the method from the previous row, in static and dynamic dimension. Backward intervals and non-positive steps are refused with an error.",
  ["inputs"], "every planar system of a coefficient family over an alphabet, every (start, length, step) triple of an alphabet, six solvers and two multistep methods",
  "tests integrate one oscillator with tiny steps and a loose tolerance; a wrong stage coefficient still converges",
  ["src/calculus/ode.h"], [("step_*, solve_fixstep, solve_*", "src/calculus/ode.h")])
P("O01", "Bracketing root finders return roots within tolerance, or refuse",
  "Bisection and ITP return a point of the bracket within twice the tolerance of a sign change for every function (continuous or not), bracket, tolerance and parameter, evaluate only inside the bracket, and ITP stays within its iteration budget; reversed brackets, brackets without a sign change and exhausted iterations give NaN with an error. Searching an interval lists exactly the cells whose end points change sign and returns only roots, in order, each once, also when they fall on the search grid; polynomial search finds all simple roots with a fine enough grid and refuses constants.",
  ["inputs"], "every polynomial with up to three roots of an alphabet, every pair of end points, tolerance and parameter choice of a set, every grid of several sizes",
  "tests bracket two functions once with one tolerance; roots on grid points, tolerance-size brackets and discontinuities never occur",
  ["src/optimization/roots.h"], [("root_bisect, root_itp, find_root_intervals, roots", "src/optimization/roots.h")])
P("O02", "Open root finders return a root or NaN, with their order of convergence",
  "Newton (real, automatic differentiation and complex), Halley, Steffensen, Chebyshev, Ostrowski and Jarrat methods return either NaN or a finite point where the function is within tolerance of zero, for every polynomial and guess, multiple roots and exact-root guesses included; exact roots are returned unchanged, from near a simple root they converge to it in the number of iterations their order allows, and an exhausted iteration limit is reported.",
  ["inputs"], "every polynomial with up to three roots of an alphabet with and without complex factors, every guess of a set, nine methods, every iteration limit up to convergence",
  "tests start two functions from one good guess; a guess at the root, a double root or a stalled iteration is never tried",
  ["src/optimization/roots.h"], [("root_newton, root_halley, root_steffensen, root_chebyshev, root_ostrowski, root_jarrat", "src/optimization/roots.h")])
P("O03", "Univariate extrema are extrema of the requested kind, or NaN",
  "Golden section search returns the extremum of every unimodal function on every interval, end points included; Newton and bisection searches return a stationary point whose curvature has the requested sign or NaN with an error, never an extremum of the other kind. Reversed intervals are refused.",
  ["inputs"], "every unimodal shape, position, interval and scale of a set; every small cubic from every guess of a set",
  "tests search one maximum and one minimum with matching functions; the wrong kind of extremum is never in range",
  ["src/optimization/extrema.h"], [("maximize_*, minimize_*", "src/optimization/extrema.h")])
P("O04", "Multivariate extrema and roots meet the requested tolerance, or NaN",
  "Gradient and line-search minimisation and maximisation of every strictly convex (concave) quadratic or quartic bowl return a point whose gradient is within the requested tolerance, for default and explicit step, tolerance and guess; non-negative steps and exhausted iterations give NaN with an error. Multivariate Newton returns a point with residual within tolerance or NaN, and solves every regular linear system.",
  ["inputs"], "every bowl over curvature, centre and coupling alphabets from every guess of a grid; every small system over an alphabet, singular ones included",
  "tests minimise one function and solve two systems from one guess with default settings",
  ["src/optimization/multi_extrema.h", "src/optimization/multi_roots.h"], [("multi_minimize*, multi_maximize*", "src/optimization/multi_extrema.h"), ("multiroot_newton", "src/optimization/multi_roots.h")])
P("A07", "Norms and distances equal their definitions and are metrics",
  "The l1, l2, l-infinity and lp norms and the Euclidean, Minkowski, Manhattan, Chebyshev, Hermitian, discrete, Hamming and Canberra distances (and the cosine measure, the cosine of the angle) equal their definitions for all real and complex vectors, static and dynamic, zero entries included; the distances are symmetric, zero exactly on equal vectors and satisfy the triangle inequality. Vectors of different size give NaN with an error.",
  ["inputs"], "every pair (triple for the triangle inequality) of short vectors over an alphabet, every mismatched size pair",
  "the test suite has no test for any distance; zero entries and complex vectors are where the definitions break",
  ["src/algebra/distance.h"], [("norms and distances", "src/algebra/distance.h")])
P("A08", "Transformation matrices do what their names say in every size",
  "Rotations about coordinate axes and arbitrary unit axes follow the right-hand rule, act on the leading block and leave the rest the identity; translation, diagonal, identity, Hilbert and symplectic matrices have their defining entries; perspective, field-of-view and orthogonal projections map the corners of the view volume to the corners of the cube; look_at puts the camera at the origin looking down the negative z axis with up upwards; sphere inversion is an involution. This holds for static matrices and for dynamic ones of any requested size without touching memory outside them; sizes that cannot hold the transformation give NaN with an error.",
  ["inputs"], "every axis direction of a 3x3x3 grid, angle and matrix size; every camera/target/up combination of a grid; every view volume of an alphabet",
  "the test suite has no test for transformations; the wrong sign needs an axis with a y component",
  ["src/algebra/transform.h"], [("identity ... sphere_inversion", "src/algebra/transform.h")])
P("S01", "Descriptive statistics equal their definitions for every dataset",
  "Mean, range, semidispersion, total sum of squares, variance and standard deviation for any number of constraints, standard deviation of the mean, relative error, covariance, correlation, autocorrelation at every lag, absolute deviation, skewness, kurtosis, Z-scores, quadrature propagation over sums and products and Gaussian expectations of polynomials equal their definitions for every dataset and container, also with a large common offset. Too few data, an impossible lag, datasets of different size or a null divisor give NaN with an error.",
  ["inputs"], "every dataset of bounded length over an alphabet, every pair, every number of constraints and every lag",
  "the tests use one dataset; the lag and constraint parameters are never varied",
  ["src/statistics/statistics.h"], [("mean ... normalize_z_score", "src/statistics/statistics.h")])
P("S02", "A histogram conserves every inserted value in the right bin",
  "After any sequence of insertions, a histogram counts exactly the values inside its closed range (not those outside, NaN or infinite), each in the bin containing it (the upper end in the last bin), and its number, minimum, maximum, mean, total sum of squares, variance and standard deviation are those of the accepted values. Construction from a dataset gives the same histogram as inserting its values in any order; evaluation as a step function, indexing and text agree with the bins. No index ever exceeds the bins.",
  ["inputs", "histories"], "every insertion sequence of bounded length over edges, their floating-point neighbours, outside values, NaN and infinities, for every range and bin count of an alphabet",
  "rounding at bin edges and running minima need specific values in a specific order",
  ["src/statistics/histogram.h"], [("histogram", "src/statistics/histogram.h")])
P("S03", "Linear regressions are the least squares solutions",
  "For every set of points, ordinary, weighted, both-axes-error and through-the-origin linear fits return the slope and intercept that minimise the (weighted) squared residuals, with the covariance matrix, errors, chi-squared, degrees of freedom and p-value of that fit, consistently between the function, helper and linear_model forms. Datasets of different size, too few points, null errors or all-equal abscissas give NaN with an error.",
  ["inputs"], "every point set of bounded size over an alphabet with every weight assignment, and every size combination",
  "the test suite has no test for regressions through the origin, weighted fits or degenerate data",
  ["src/statistics/regression.h"], [("ols_linear ... linear_model", "src/statistics/regression.h")])
P("S04", "Probability distributions equal their closed forms on all their domain",
  "Every probability density and mass function equals its closed form, is non-negative, vanishes outside its support and, where discrete, sums to one over its outcomes; the form taking a parameter vector equals the direct form and refuses a vector of the wrong size with NaN and an error; likelihood and log-likelihood are the product and sum over the sample.",
  ["inputs"], "every outcome/argument of a grid including the support edges x every parameter of an alphabet",
  "most distributions have no test; overflow and support errors appear only for particular parameters",
  ["src/statistics/distributions.h"], [("distribution::*", "src/statistics/distributions.h")])
P("S05", "Chi-squared statistics and p-values are right for every number of degrees",
  "chi_square and the linear (reduced) chi-squared equal their definitions; the p-value is the upper tail of the chi-squared distribution for every number of degrees of freedom below 260 and the Gaussian approximation above, lies in [0,1] and does not increase with chi-squared; zero degrees of freedom, null errors and different sizes are refused.",
  ["inputs"], "every number of degrees of freedom below 260 and a grid of chi-squared values",
  "the tests sample a few degrees of freedom",
  ["src/statistics/statistics.h"], [("chi_square, pvalue_chi_squared", "src/statistics/statistics.h")])
P("S06", "Error propagation follows the gradient for every function and covariance",
  "Propagated uncertainties equal the square root of the quadratic form of the exact gradient with the variances or the covariance matrix, for independent and correlated variables, static and dynamic sizes, and for covariances estimated from datasets; covar_mat holds the sample covariances; covariance matrices of the wrong shape are refused.",
  ["inputs"], "every polynomial of a family at every point, error vector and covariance of alphabets",
  "only single functions are tested; off-diagonal terms never",
  ["src/statistics/errorprop.h"], [("covar_mat, error_propagation", "src/statistics/errorprop.h")])
P("E01", "Errors are reported the same way in every configuration and history",
  "A call that cannot return a meaningful result reports its error class, whatever calls or errno values came before: by default it returns NaN and sets errno to the documented code (and never throws); with THEORETICA_THROW_EXCEPTIONS it sets errno and throws a math_exception; with THEORETICA_ONLY_EXCEPTIONS it throws and leaves errno alone. The exception is a std::exception that carries the error code, function, file, line, value and a description. Valid calls neither throw nor change errno, and return the same value after any history of errors.",
  ["inputs", "histories"], "every call of a catalogue over all parts of the library from every previous errno, every ordered pair, every short history; all three configurations",
  "the test suite is built in one configuration only; exceptions and stale errno are never tested",
  ["src/core/error.h"], [("TH_MATH_ERROR, math_exception", "src/core/error.h")])
P("R01", "Generators follow their recurrences and are reproducible from the seed",
  "Each generator produces exactly the sequence of its published recurrence (congruential, xoshiro256++, splitmix64, wyrand, middle-square) from every state; a PRNG object gives the same sequence for the same seed whether freshly built or reseeded, through next, call, stream and discard; copies are independent and other generators never disturb it. A state of the wrong size or inadmissible congruential parameters are refused with EINVAL and 0. The standard congruential generator visits every residue except zero before repeating.",
  ["inputs", "histories"], "every state of a boundary alphabet, every short operation history, every interleaving of two generators, every seed of a range",
  "the tests check moments of a few sequences; a wrong carry or rotation still looks random",
  ["src/pseudorandom/pseudorandom.h", "src/pseudorandom/prng.h", "src/core/bit_op.h"], [("randgen_*", "src/pseudorandom/pseudorandom.h"), ("PRNG", "src/pseudorandom/prng.h")])
P("R02", "Samplers follow their distribution for every answer of the generator",
  "If the generator is uniform, uniform, exponential, Rayleigh, Cauchy, Pareto, Laplace, Gaussian (polar, Box-Muller, central limit), coin and dice samplers have the stated distribution (pairs of Gaussian values are independent, the stored spare is rescaled to the parameters of its own call), rejection samplers accept exactly the points under the density and give up with NaN and an error after the allowed tries, and Metropolis follows its acceptance rule and never leaves the support. Whatever the generator answers, extreme values included, the sample is finite, in the support, and no error is reported. Parameter-vector forms and pdf_sampler (next, call, stream, fill) draw the same values; wrong parameter counts are refused.",
  ["inputs", "histories"], "every path of the tree of generator answers up to a depth",
  "the tests draw one long pseudorandom sequence and compare two moments: an answer with probability 2^-31 or a wrong tail never shows",
  ["src/pseudorandom/sampling.h"], [("rand_*, pdf_sampler, metropolis", "src/pseudorandom/sampling.h")])
P("R03", "Shuffling always yields a permutation and can yield every one",
  "For every container, size and sequence of generator answers, shuffle leaves a permutation of the original elements; with the default number of rounds every order is reachable and about equally likely; the result depends only on the generator; an empty set is refused with an error.",
  ["inputs", "histories"], "every sequence of generator answers for small sizes and rounds; every size up to 40 for real generators",
  "shuffle has no test",
  ["src/pseudorandom/prng.h"], [("shuffle", "src/pseudorandom/prng.h")])
P("R04", "Monte Carlo integrals are exact averages over the points drawn",
  "Crude (one or many dimensions), hit-or-miss (with and without explicit minimum, in one and two dimensions), importance-sampling and quasi-Monte Carlo integrations return the integral up to the discretisation of the points drawn: on a generator that runs through a complete grid they equal the Riemann sum, for functions of either sign. Weyl sequences are the fractional parts of the multiples of their base, lie in [0,1] and have low discrepancy; Monte Carlo samples and propagated errors use one draw per variable and value, in order.",
  ["inputs"], "every integrand of a family x interval with the complete grid of generator answers",
  "the tests accept a wide statistical tolerance on a few positive functions",
  ["src/pseudorandom/montecarlo.h", "src/pseudorandom/quasirandom.h"], [("integral_*, sample_mc", "src/pseudorandom/montecarlo.h"), ("qrand_*", "src/pseudorandom/quasirandom.h")])
P("C06", "Scalar functions are total: every floating-point argument gets an answer",
  "Every real function of one or two real arguments (powers, roots, logarithms, exponentials, hyperbolic, trigonometric and inverse functions, gamma family, n-th roots and integer powers) returns in bounded time, without crashing, for every floating-point argument: NaN gives NaN, results too large become infinite with the right sign and results too small vanish, functions with a finite limit at infinity reach it, arguments outside of the domain or too large to be reduced give a NaN with an error report. Floor and fractional part are excluded beyond the range of int.",
  ["inputs"], "every binary exponent of the format, denormals included, x significands x sign, and all special values, in three configurations",
  "the tests only use arguments of moderate size: NaN, infinities, denormals and values beyond the int range made the exponential family recurse or loop forever",
  ["src/core/real_analysis.h", "src/core/special.h"], [("domain reductions and Newton loops", "src/core/real_analysis.h"), ("Lanczos approximation", "src/core/special.h")])
P("A09", "Parallel element-wise functions equal the sequential ones on every schedule",
  "Every function of the parallel namespace (and apply_function with a user function) returns, for every container, size (empty included), element type, number of threads and interleaving of their steps, the vector of the sequential values: each element is evaluated exactly once, no element is lost, duplicated or read before it is written, the input is left unchanged, and no two threads access the same memory without synchronisation.",
  ["inputs", "schedules"], "every size up to 9 (17) x 1..5 (8) threads x every schedule; every interleaving of shared accesses with bounded preemptions for small sizes",
  "the tests call the functions once with whatever schedule the machine produces; a race shows on rare interleavings only",
  ["src/core/core_traits.h", "src/algebra/parallel.h"], [("OpenMP loops", "src/algebra/parallel.h")])
P("T01", "Independent calls from different threads do not interfere",
  "Functions of every module called at the same time from several threads on their own data (or on shared constant objects) return the same values as when called alone, whatever the interleaving and whether or not they have been called before; they share no unsynchronised mutable state. The samplers documented as keeping static state are excluded.",
  ["inputs", "schedules"], "about 480 calls x every pair of 8 argument regimes x every schedule; all pairs of a 71-call catalogue; triples; cold starts; ordered pairs of calls",
  "the unit tests are single-threaded: hidden static buffers and caches never show",
  ["src"], [("absence of mutable static state", "src"), ("errno-based error reporting", "src/core/error.h")])
P("F01", "The fast Fourier transform equals the discrete Fourier transform",
  "For every vector whose size is a power of two, fft is the sum of the definition (negative exponent, no factor) and ifft its exact inverse (positive exponent, factor 1/N), up to rounding: linear, energy-preserving, turning circular convolution into products, for dynamic and static vectors, leaving the input unchanged. Other sizes are refused with a vector of NaN and an error. The bit-reversal permutation swaps exactly the indices with reversed bits and is its own inverse.",
  ["inputs"], "all words for small sizes; all impulses (a basis) up to 128 (512); sizes to 2^16 (2^20)",
  "the tests check one round trip and one two-element transform: a wrong twiddle factor in a later stage cancels in the round trip",
  ["src/signal/fft.h", "src/core/bit_op.h"], [("butterfly stages", "src/signal/fft.h"), ("bit reversal", "src/core/bit_op.h")])
P("U01", "Data read from streams and printed as text are neither lost nor garbled",
  "readln returns exactly the parsable lines before the terminator, in order, whatever the sequence of empty, malformed and valid lines, and always stops at the terminator or at the end of the stream, leaving what follows unread. Printing helpers write their arguments in order with single separators and end with a newline only where promised. The text of vectors, matrices (one row per line, with or without parentheses), complex, dual and quaternion numbers, polynomials, histograms and ODE solutions shows every component with its sign and in its place, so that the numbers can be read back.",
  ["inputs", "histories"], "all line sequences of bounded length; all component words of bounded size",
  "input and output have no unit tests",
  ["src/utility.h", "src/algebra/vec.h", "src/algebra/mat.h", "src/polynomial/polynomial.h", "src/complex/complex.h"], [("readln, print", "src/utility.h"), ("to_string", "src/algebra/mat.h")])
P("U02", "Ratios follow the algebra of fractions",
  "Sums, differences, products and quotients of ratios (of integers, of polynomials, of mixed types), products and quotients by a factor, evaluation, conversion and text equal those of the fractions they represent, without modifying the operands.",
  ["inputs"], "all pairs of fractions with small numerator and denominator; families of rational functions",
  "the ratio class has no tests",
  ["src/core/ratio.h"], [("cross multiplication", "src/core/ratio.h")])
P("M01", "Every combination of shapes is computed or refused, never read out of bounds",
  "Whatever the sizes of the vectors, datasets, polynomials and matrices given to an operation, empty ones included, no element outside of them is read or written and the call returns. Shapes for which the operation is defined are accepted without an error; shapes for which it has no meaning (different sizes of the two operands, non-square matrices, indices outside of the matrix, too few points, a result of the wrong shape) are reported as an error instead of giving a plausible result.",
  ["inputs", "configurations"], "every operation x every combination of sizes up to a bound, empty included, in both storage orders",
  "the tests use matching non-empty shapes; reads outside of the data go unnoticed without instrumentation",
  ["src/algebra", "src/core/dataset.h", "src/polynomial/polynomial.h", "src/autodiff"], [("shape checks of free functions", "src/algebra/algebra.h"), ("dynamic vectors and matrices", "src/algebra/vec.h")])
