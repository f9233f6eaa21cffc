"""The properties: what gen.py writes into properties.jsonl and MANIFEST.json."""
NUM = ("Proved for every degree, count, dimension and real value by abstract interpretation of the compiler's MIR against a "
       "declarative rule; loops are summarised by closed forms that are re-checked to be inductive, nothing is executed or "
       "unrolled. Reals are exact (rounding is not modelled; NaN is, in comparisons). ")
TRUST = "Trusted: rustc's MIR, the exporter, the engine and its models of std and nalgebra. A shape of code the engine cannot read is reported as undecided in the evidence and raises no alarm."


def P(id, title, statement, quant, why, files, mech, obs, note="", **kw):
    d = dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, obs=obs,
             note=NUM + (note + " " if note else "") + TRUST)
    d.update(kw)
    return d


C = "src/curve/mod.rs"
K = "src/curve/knots/mod.rs"
PT = "src/curve/points/mod.rs"
KM = "src/curve/knots/methods.rs"
INS = "src/manipulation/insert.rs"
FIT = "src/curve/points/methods/fit/mod.rs"
LOO = "src/curve/points/methods/fit/loose.rs"
FIX = "src/curve/points/methods/fit/fixed.rs"
INTP = "src/curve/points/methods/interpolation.rs"
GEN = "src/curve/generation/mod.rs"
MG = "src/manipulation/merge.rs"
SP = "src/manipulation/split.rs"
PROPS = [
    P("P01", "Parameters outside the domain are refused, those inside accepted",
      "Evaluating a curve or any of its derivatives at a parameter below 0, above 1 or not a number returns an out-of-bounds error carrying the parameter and the limits 0 and 1; every parameter in [0, 1], including both ends and every knot, is accepted.",
      "all parameters (any float, NaN included), derivative orders, degrees, counts and valid knot vectors",
      "the decision depends on a float compared with the domain limits; tests probe two or three values and never NaN or repeated knots at the ends",
      [C], [("evaluate_derivative: range check", C), ("evaluate", C)], ["Curve::evaluate", "Curve::evaluate_derivative"],
      "Knot vectors are assumed clamped, normed and ascending, with interior multiplicity at most the degree plus one."),
    P("P02", "Evaluation is total on the domain",
      "For every parameter in the domain and every derivative order, evaluation returns a vector of the dimension of the curve without panicking; orders above the degree give the zero vector.",
      "all degrees (zero included), counts, dimensions, orders and parameter positions (between knots, on a knot of any multiplicity, at either end)",
      "index arithmetic on knot spans fails only for particular multiplicities and orders that a handful of fixed curves do not contain",
      [C, K, "src/curve/basis/mod.rs"], [("evaluate_derivative", C), ("find_idx", K)], ["Curve::evaluate_derivative"],
      "Every index, slice and subtraction on the way is an obligation."),
    P("P03", "Evaluation equals the sum of basis functions times derivative points",
      "The k-th derivative of a curve at u is the sum over all control points of the degree p-k basis functions on the k-th derivative knot vector times the k-th derivative points; restricting the sum to the active span changes nothing.",
      "all degrees, counts, dimensions, orders up to the degree and parameter positions",
      "dropping or shifting one term shows only where that term is nonzero, e.g. on repeated knots or at the closed end",
      [C, K], [("evaluate_derivative: sum over the active span", C), ("find_idx: span", K)], ["Curve::evaluate", "Curve::evaluate_derivative"]),
    P("P04", "Basis functions obey the Cox-de Boor recursion",
      "A basis function of degree q >= 1 is the Cox-de Boor combination of its two neighbours of degree q-1 with 0/0 read as 0; of degree zero it is the indicator of its half-open span, the last span being closed.",
      "all knot vectors, indices, degrees, derivative orders and parameters",
      "an error in one branch shows only for repeated knots or at the last knot; sampled values of low degree agree by symmetry",
      ["src/curve/basis/mod.rs", K], [("basis", "src/curve/basis/mod.rs"), ("Knots::evaluate", K)], ["Knots::evaluate"],
      "Recursive calls are the induction hypothesis."),
    P("P05", "Derivative points and derivative knot vectors follow their recurrences",
      "The k-th derivative points are (p-k+1)/(U[i+p+1]-U[i+k]) times the difference of neighbouring points of order k-1, zero where the knot difference vanishes; the k-th derivative knot vector is the knot vector without its k first and k last knots.",
      "all degrees, counts, dimensions, orders, indices and knot values",
      "factor and index errors cancel for uniform knots or low degree, which is what tests use",
      [PT, K], [("ControlPoints::derive", PT), ("Knots::derive", K)], ["ControlPoints::derive", "Knots::derive", "ControlPoints::matrix_derivative", "Knots::vector_derivative"]),
    P("P06", "Constructed curves are consistent or refused",
      "Constructing a curve succeeds exactly when there are more control points than the degree and the number of knots is the number of points plus the degree plus one; otherwise an error names the offending counts. A constructed curve, and a derivative extracted as a curve of its own, carries derivative data of every order belonging to its own knots and points.",
      "all degrees, knot counts, point counts, dimensions and values, and every extraction order up to the degree",
      "stale or missing derivative data is visible only when a derivative of the right order is evaluated after the right history",
      [C, K, PT], [("Curve::new", C), ("get_derivative_curve", C), ("calculate_derivatives", C)], ["Curve::new", "Curve::get_derivative_curve", "Curve::evaluate_derivative"]),
    P("P07", "Constructors, queries and copies report exactly what is stored",
      "Degree, segments, dimension, counts, orders, matrices and single points of curves, control points, data points and parameters are those of the stored data, constructors store their arguments, clones equal their original, and an index or derivative order that does not exist is refused by a panic, never answered with other data.",
      "all counts, dimensions, degrees, derivative orders and indices, in and out of range",
      "queries agree on square or small samples; an index or order out of range is not tested at all",
      [C, PT, K, "src/curve/parameters/mod.rs"], [("Points, ControlPoints, DataPoints", PT), ("Curve", C)],
      ["Curve::degree", "Curve::segments", "Curve::dimension", "ControlPoints::matrix_derivative", "Points::get", "Parameters::vector"]),
    P("P08", "Knot insertion refuses what it cannot do, and then changes nothing",
      "Inserting a knot at or beyond either end of the domain, at a value that is not a number, or on a knot already repeated more often than the degree returns an error with the offending data and leaves the curve exactly as it was; every other insertion succeeds without panicking.",
      "all parameters (NaN included), multiplicities, degrees, counts and dimensions",
      "an update made before the last check, or a limit off by one, shows only for rejected parameters and for full multiplicity at the right degree",
      [INS, C], [("insert: checks before the update", INS), ("insert_times", C)], ["Curve::insert", "manipulation::insert::insert"]),
    P("P09", "Knot insertion is Boehm's: the curve keeps its shape",
      "After an insertion the knot vector is the old one with the new knot in its place, the control points are Boehm's convex combinations (so the curve keeps its shape), and all derivative data belong to the new knots and points; inserting x times is x such steps and fails only beyond the multiplicity limit.",
      "all parameter positions and multiplicities, degrees, counts, dimensions, knot and point values, repetition counts",
      "off-by-one index ranges still give the right shape when neighbouring factors are 0 or 1, as in the low-degree samples",
      [INS, C, K], [("insert", INS), ("insert_times", C), ("find_idx", K)], ["Curve::insert", "Curve::insert_times", "manipulation::insert::insert"]),
    P("P10", "The span lookup returns what its comparator asks for",
      "For a parameter in the domain and each of the four comparison modes (strictly left, left or equal, strictly right, right or equal) the lookup returns the index of the nearest domain knot on that side, clipped to the domain, shifted by the derivative order.",
      "all parameter positions, multiplicities, degrees, counts, orders and comparison modes",
      "the four modes differ only on knots, and only repeated knots separate first from last occurrence",
      [K], [("find_idx", K)], ["Knots::find_idx"]),
    P("P11", "Splitting refuses exactly the parameters it cannot split at",
      "Splitting at or beyond either end of the domain or at a value that is not a number returns an out-of-bounds error, splitting on a knot repeated more often than the degree a multiplicity error, each with its data; every other parameter is accepted and processed without panicking.",
      "all parameters (NaN included), multiplicities, degrees, counts, dimensions and normalisation flags",
      "index arithmetic depends on the multiplicity at the cut; the samples cut between knots",
      [SP, C], [("split_and_normalize", SP)], ["Curve::split", "manipulation::split::split", "manipulation::split::split_and_normalize"]),
    P("P12", "The halves of a split retrace the curve",
      "A split raises the knot at the cut to full multiplicity by insertion and returns the section left of it and the section right of it, which share the end point at the cut, each closed by one more knot and each with derivative data of its own. Each half is rescaled to [0, 1] exactly if its own flag asks for it; the plain form normalises both.",
      "all parameter positions and multiplicities, degrees, counts, dimensions, values and all four flag combinations",
      "sections are off by one only for particular multiplicities at the cut, flags matter separately only when they differ",
      [SP, INS, C, K], [("split_and_normalize", SP), ("insert", INS), ("normalize", K)], ["Curve::split", "manipulation::split::split_and_normalize"],
      "Knot insertion enters by its contract, which the same check proves."),
    P("P13", "Reversal is exact in place and in the copy",
      "Reversing a curve reverses the order of its control points, mirrors each knot u to 1-u in opposite order, and gives the k-th derivative points the sign (-1)^k; the copying form returns that and leaves its argument unchanged, and data points reverse likewise.",
      "all degrees, counts (even and odd), dimensions, knot and point values",
      "the middle element of odd counts and the derivative signs are not exercised together by the sampled curves",
      ["src/manipulation/reverse.rs", K, PT, C], [("reverse", "src/manipulation/reverse.rs"), ("ControlPoints::reverse", PT), ("Knots::reverse", K)],
      ["Curve::reverse", "manipulation::reverse::reversed", "DataPoints::reverse"]),
    P("P14", "Merging refuses exactly the pairs it cannot join",
      "Two curves are merged unless their degrees differ, their dimensions differ, one of them is not clamped or not normed, or a constrained merge fixes at least as many derivatives of both sides together as the degree; each refusal names the offending numbers. Pairs that are accepted are merged without panicking.",
      "all pairs of degrees, counts, dimensions, knot vectors and constraint numbers",
      "the limit on constraints depends on the sum of two counts and the degree; the samples merge curves of one degree with one or two constraint pairs",
      [MG, K], [("merge, merge_with_constraints: checks", MG)], ["manipulation::merge::merge", "manipulation::merge::merge_with_constraints"],
      "The singular value decomposition is an uninterpreted solver."),
    P("P15", "The merged curve is assembled from both operands in order",
      "The merged knots are the left knots without the last one followed by the right knots from p+1 on shifted by one, all halved; the merged points are the left and right points outside the joint, and at the joint those that follow from the shifted derivative points. Merging to or from, appending and prepending put operands and constraints on the sides they name.",
      "all pairs of degrees, counts, dimensions, knot and point values and constraint numbers",
      "swapped operands or constraints and shifted ranges agree when both curves have the same length or symmetric constraints, as in the samples",
      [MG, C, K], [("merge_with_constraints", MG), ("append, prepend", C)], ["Curve::append", "Curve::prepend", "Curve::append_constrained", "Curve::prepend_constrained", "manipulation::merge::merge_to", "manipulation::merge::merge_from"],
      "The singular value decomposition is an uninterpreted solver."),
    P("P16", "The shift of the joint is the least one that makes it smooth",
      "The points next to the joint are moved by the solution of the optimality system of the smallest total displacement under the constraints that both sides share the derivatives of all orders below the degree at the joint and that constrained points stay where they are, weighted as the two parts of the merged domain demand.",
      "all degrees, counts, dimensions, knot and point values and constraint numbers",
      "sign, factor and block offsets of the system differ only for degrees and constraint counts beyond those in the samples",
      [MG, K], [("system of the merge", MG)], ["manipulation::merge::merge", "manipulation::merge::merge_with_constraints"],
      "The singular value decomposition is an uninterpreted solver. Recursive prefactors are the induction hypothesis."),
    P("P17", "Generated knot vectors are what their method defines",
      "Uniform, averaged and de Boor knots have p+1 zeros, p+1 ones and the interior knots of their defining formula, for any degree from one to the number of segments; degree zero and degrees above the number of segments are refused, and the method selected is the one used.",
      "all degrees, segment counts, numbers of parameters at least as large, and parameter values",
      "the formulas have several index ranges and offsets that coincide for the small counts used in tests",
      [KM, K], [("uniform, averaging, de_boor", KM), ("generate", K)], ["knots::generate", "knots::methods::uniform", "knots::methods::averaging", "knots::methods::de_boor"]),
    P("P18", "Generated parameters are what their method defines",
      "Equally spaced, chord-length and centripetal parameters start at 0, end at exactly 1 and between them hold i/m, the cumulated distances or the cumulated square roots of distances divided by their total; the method selected is the one used.",
      "all numbers of data points, dimensions and data values",
      "one-dimensional evenly spaced samples cannot tell the three methods apart",
      ["src/curve/parameters/methods.rs", "src/curve/parameters/mod.rs"], [("methods", "src/curve/parameters/methods.rs")], ["parameters::generate"],
      "Data whose total of square roots of distances is below the threshold asserted in debug builds is excluded for the centripetal method."),
    P("P19", "Interpolation solves the collocation system of its data",
      "The interpolating control points are the solution of the linear system stating that the curve on the given knots takes, at the parameter of each data point, the value of that data point, in every coordinate.",
      "all degrees, numbers of data points, dimensions, data, parameters and knots",
      "a transposed or shifted collocation matrix still reproduces symmetric, evenly spaced samples",
      [INTP, K], [("interpolate", INTP)], ["curve::points::methods::interpolation::interpolate", "generation::generate"],
      "The singular value decomposition is an uninterpreted solver: its numerical accuracy is not decided."),
    P("P20", "The loose-ends fit solves the penalised normal equations",
      "The fitted control points solve the normal equations of the least-squares problem over all data points, plus, if a penalisation is given, its weight times the sum of the squared finite differences of its order over all control points.",
      "all degrees, counts, dimensions, data, parameters, knots, weights and difference orders accepted",
      "tests compare single coefficients for one order and weight; index or sign errors of other orders remain unseen",
      [FIT, LOO], [("fit", LOO), ("compute_svd, difference_operator", FIT)], ["curve::points::methods::fit::loose::fit", "generation::generate"],
      "The singular value decomposition is an uninterpreted solver. Recursive calls of the difference operator are the induction hypothesis."),
    P("P21", "The fixed-ends fit keeps the end points and fits the rest",
      "The first and last control point are the first and last data point; the interior ones solve the normal equations of the remaining data minus the contribution of both ends, plus, if a penalisation is given, its weight times the sum of the squared finite differences over the interior control points; a curve of a single segment consists of the end points.",
      "all degrees, counts (a single segment and no interior data included), dimensions, data, parameters, knots, weights and difference orders accepted",
      "the contribution of the ends is zero or symmetric for most samples; a swap of both ends or a shifted index stays unseen",
      [FIT, FIX], [("fit", FIX), ("compute_svd, difference_operator", FIT)], ["curve::points::methods::fit::fixed::fit", "generation::generate"],
      "The singular value decomposition is an uninterpreted solver. Recursive calls of the difference operator are the induction hypothesis."),
    P("P22", "Fits refuse exactly the settings they cannot honour",
      "A fit is refused, with the offending numbers, when there are more segments than data segments, data and parameters differ in number, segments are fewer than the degree, the difference order leaves no difference to take, the weight is negative or not a number, or a positive weight meets knots that are not uniform; everything else is accepted without panicking.",
      "all degrees, counts, difference orders, weights (NaN included) and knot vectors, for both kinds of fit",
      "limits are off by one in one of two fits, or a check is reached only for particular combinations",
      [FIT, LOO, FIX, K], [("input_checks, compute_svd", FIT), ("fit", FIX), ("fit", LOO)], ["curve::points::methods::fit::loose::fit", "curve::points::methods::fit::fixed::fit"]),
    P("P23", "Error messages show the data the error carries",
      "The message of every error shows each of its fields, or the error names the field as its source, so that no refusal hides the offending values.",
      "all error types, variants and fields",
      "no test reads a message, and a field that is missing in one of two dozen messages is not noticed",
      [C, K, FIT, INS, SP, MG], [("CurveError", C), ("InsertError", INS), ("SplitError", SP), ("MergeError", MG), ("FitError", FIT)], ["Display"],
      level="other", technique="static analysis: dataflow from the fields of the error to the formatting machinery in the MIR of every Display implementation"),
    P("P24", "Curve generation combines the parts its arguments name",
      "Generating a curve uses the degree, points, parameter method, knot method, fit and penalisation its arguments name, and returns the curve of exactly those knots and points with derivative data of its own; impossible settings return the error of the part that refuses them.",
      "all degrees, counts, dimensions, data, all combinations of generation, parameter, knot and fit methods",
      "wiring errors such as a constant method, a swapped degree and segment count or a dropped penalisation agree with the samples",
      [GEN, C, K, KM, FIT, LOO, FIX, INTP], [("generate", GEN), ("generate", K)], ["generation::generate"],
      "The singular value decomposition is an uninterpreted solver; the parameter generators enter by their contract, which the same check proves."),
    P("P25", "Results depend on the arguments alone",
      "No function of the library reads or writes anything but its arguments: neither global nor thread-local state, clock, randomness, environment, files or output is reached, no type hides mutable state behind a shared reference, and no unsafe code is written, so equal calls give equal results in any order and on any thread.",
      "all functions and call sites of the library, all types",
      "hidden state shows only for particular sequences of calls or interleavings of threads, which unit tests never make",
      [C, K, PT, KM, INS, SP, MG, FIT, "src/types.rs"], [("all functions", "src/lib.rs")], ["every public function"],
      over=["inputs", "histories", "schedules"], level="other",
      technique="static analysis: effect analysis of every resolved call site in the MIR, of statics, types and unsafe code"),
    P("P26", "Knot rescaling, normalisation and reversal are the affine maps they name",
      "Rescaling maps each knot by the affine map from the old to the new limits, normalisation by the one from its smallest and largest value to 0 and 1, reversal by 1-u in opposite order, for the knot vector and all its derivative vectors; copying forms leave their argument unchanged.",
      "all knot vectors, lengths, degrees and limits",
      "an offset that vanishes for limits starting at zero is invisible to the sampled limits",
      [K], [("rescale, normalize, reverse", K)], ["Knots::rescale", "Knots::normalize", "knots::normalize", "knots::normalized"]),
    P("P27", "Knot predicates decide exactly their definition",
      "Clamped means exactly that the first p+1 knots are 0 and the last p+1 are 1; sorted that no knot exceeds its successor; normed that the smallest is 0 and the largest 1; uniform that every knot equals the uniform one.",
      "all knot vectors, degrees and counts",
      "a predicate that skips one position is wrong only for vectors that fail at that position",
      [K], [("is_clamped, is_sorted, is_normed, is_uniform", K)], ["knots::is_clamped", "knots::is_sorted", "knots::is_normed", "knots::is_uniform"]),
    P("P28", "Knot queries report counts, sections and multiplicities correctly",
      "Lengths, segment counts, interior and domain knots (count, section and single knot, of the vector and of its derivatives) are those of the knot vector, a knot outside its section is refused by a panic, and the multiplicity of a parameter is the number of equal knots among the domain knots.",
      "all knot vectors, degrees, counts, derivative orders, indices and parameter positions",
      "off-by-one sections differ only in their boundary knots, which are equal in clamped samples",
      [K], [("queries", K)], ["Knots::len", "Knots::segments", "Knots::internal", "Knots::domain", "Knots::multiplicity"]),
    P("P29", "Head, segment and tail are the windows they name",
      "Of a vector of length L, head(n) is its first n entries, tail(n) its last n and segment(i, n) the n entries from i on, in the shared and the mutable form; a window that does not fit is refused by a panic, and the vector stays as it was.",
      "all lengths, offsets and window sizes, in and out of range",
      "one length and one window are sampled, mutable forms and windows that do not fit not at all",
      ["src/types.rs"], [("VecHelpers", "src/types.rs")], ["VecHelpers::head", "VecHelpers::segment", "VecHelpers::tail"]),
    P("P30", "A clamped curve starts and ends at its control polygon",
      "At parameter 0 a curve and its derivatives evaluate to the first control point and first derivative points, at parameter 1 to the last ones.",
      "all degrees, counts, dimensions, orders up to the degree, knot and point values",
      "the closed end is a special case in the basis functions and in the span lookup; an error there shows for higher derivatives or repeated knots only",
      [C, K, "src/curve/basis/mod.rs"], [("evaluate_derivative", C), ("find_idx", K), ("basis", "src/curve/basis/mod.rs")], ["Curve::evaluate", "Curve::evaluate_derivative"]),
]

NA = [
    P("P31", "Evaluated points stay in the convex hull of their control points",
      "Basis functions are never negative and sum to one in floating-point arithmetic, so every evaluated point lies in the convex hull of the active control points up to a few units of rounding.",
      "all knot vectors, degrees and parameters", "rounding errors accumulate only for high degrees and uneven knots",
      ["src/curve/basis/mod.rs", C], [("basis", "src/curve/basis/mod.rs")], ["Curve::evaluate"],
      reason="The exact statement follows from the recursion P04 decides; what remains is a bound on accumulated floating-point rounding over unbounded knots and degrees, which no static argument in reach gives without bounds on the data."),
    P("P32", "Manipulated curves agree with the original within rounding",
      "Insertion, splitting, reversal and normalisation change evaluated points by no more than a small multiple of the rounding unit.",
      "all curves, parameters and sequences of operations", "errors grow with the number of operations and the unevenness of the knots",
      [INS, SP, K], [("insert", INS), ("split", SP)], ["Curve::insert", "Curve::split", "Curve::evaluate"],
      reason="P09, P12, P13 and P26 decide the operations in exact arithmetic; the numerical error depends on run-time knot ratios that are unbounded, so no static bound exists."),
    P("P33", "Interpolation and fits are numerically accurate",
      "The interpolating curve meets its data, fits attain the least-squares optimum and the merged curve is smooth at the joint, within a tolerance, for any well-posed data.",
      "all data, parameters, knots and weights", "conditioning depends on the data; tests use well-conditioned samples",
      [INTP, FIT, MG], [("interpolate", INTP), ("compute_svd", FIT), ("merge", MG)], ["generation::generate", "manipulation::merge::merge"],
      reason="The accuracy of the singular value decomposition depends on the conditioning of run-time matrices and is decided inside nalgebra; P16 and P19 to P21 decide which systems are solved, not how accurately."),
    P("P34", "Every operation ends",
      "Evaluation, manipulation and generation end for every input, also for ill-conditioned data.",
      "all inputs", "the iteration inside the decomposition depends on the data",
      [C, "src/curve/basis/mod.rs", PT, FIT], [("basis", "src/curve/basis/mod.rs"), ("derive_single_point", PT)], ["Curve::evaluate", "generation::generate"],
      reason="Loops and recursions of the crate itself have integer bounds that the other checks establish, but the iterative decomposition in nalgebra ends by a numerical criterion on run-time data, which cannot be decided from this source."),
]

