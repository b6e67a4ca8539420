"""Properties P08-P35."""
from catalog import prop

prop("P08", "Regions behave as the boolean combination they describe",
     "A region built from polytopes by union, disjoint union, intersection and complement contains exactly the points the "
     "boolean combination contains; copying, adding coordinates (lifting), substituting values, projecting unions of "
     "polytopes (of intersections, as documented, the intersection of the projections), and simplifying unions keep that (up to boundaries where pieces are merged), and subset answers between "
     "solid unions, intersections and polytopes agree with the sets. A region built from a union of halfspaces inside a "
     "bounded polytope is a disjoint union with exactly those points.",
     "every boolean tree (depth <= 3) over rational polyhedra in dimension 1-4 and every probe point",
     "tests take a few fixed rectangles; nested complements, empty members and thin gaps are not sampled",
     ["region.py"],
     [("membership", "region.py:Region.contains"), ("projection", "region.py:Region.project"),
      ("subset", "region.py:Region.is_subset_of"), ("simplification", "region.py:Region.simplify"),
      ("union of halfspaces", "region.py:Region.from_union_of_halfplanes")],
     observe=["Region.contains"])

prop("P09", "Rewriting an intersection of regions as a disjoint union keeps the set",
     "Turning an intersection of regions into a disjoint union of polytopes yields pieces with pairwise disjoint interiors "
     "that contain, away from boundaries, exactly the points of the intersection, however many operands there are, however "
     "they are nested and whether or not pieces are merged along the way.",
     "every list of 1-24 operands, each a polytope or disjoint union of up to 100 cells, in dimension 1-3",
     "the merging that runs every few operands only starts above 100 pieces; tests never reach it",
     ["region.py"], [("disjoint union", "region.py:Region.as_disjoint_union"),
                     ("periodic merging", "region.py:Region._as_disjoint_union_poly")],
     observe=["Region.contains", "Region.as_disjoint_union"])

prop("P10", "Dependency tracking credits the operands a piece really comes from",
     "With dependency tracking, every solid piece of a disjoint union is credited with a set of labels that determines it: "
     "per contributing operand the labelled polytopes of that operand cover the piece and together the credited labels "
     "imply exactly the piece; labels are never invented, lost or attached to the wrong piece.",
     "every list of 1-4 labelled operands in dimension 1-3, one label per polytope or per operand",
     "a proof printed from wrong dependencies looks fine; no test reads the dependency list",
     ["region.py"], [("tracked disjoint union", "region.py:Region.as_disjoint_union"),
                     ("labels", "region.py:Region.set_label")],
     observe=["Region.as_disjoint_union(track_dependencies=True)"])

prop("P11", "Intervals with open and closed ends are exact",
     "Membership, emptiness, length, midpoint, intersection, equality and copying of intervals, and parsing the printed form, agree with "
     "the sets of numbers described by the ends and bracket types, degenerate intervals included.",
     "every list of 2-4 intervals with rational ends and any brackets",
     "tests check a few pairs of unit-like intervals",
     ["functions.py"], [("interval", "functions.py:Interval"), ("intersection", "functions.py:Interval.intersect"),
                        ("parsing", "functions.py:Interval.parse")],
     observe=["Interval.contains", "Interval.intersect", "Interval.parse"])

prop("P12", "Minima and maxima of affine pieces are pointwise optimal and credited",
     "The minimum (maximum) of affine functions on intervals, computed at once or by folding one function at a time, is at "
     "every point where some function is defined the least (greatest) value among those defined there, is defined nowhere "
     "else, has exactly one piece at each point, credits a function that attains the optimum, and leaves its inputs unchanged. "
     "Two affine functions compare equal when they have the same domain and agree on all of it.",
     "every list of 1-10 rational affine functions on intervals with any brackets, with or without a domain and labels",
     "the best bounds on beta are built by this fold; tests never exercise ties at shared interval ends",
     ["functions.py"], [("comparison", "functions.py:Affine.compare_with"), ("minimum", "functions.py:Affine.min_with"),
                        ("maximum", "functions.py:Affine.max_with")],
     observe=["Affine.min_with", "Affine.max_with", "Affine.at"])

prop("P13", "Piecewise-affine functions of several variables keep their values",
     "The pointwise minimum of two piecewise-affine functions, cropping to a polytope, merging equal pieces, copying and the crossing "
     "hyperplane of two pieces are exact away from cell boundaries: value and label at a point are those of the defining cells.",
     "every pair of piecewise-affine functions on up to 4 cells in dimension 1-3",
     "test_affine2 does not even import; nothing checks the merged pieces against the original",
     ["functions.py"], [("minimum", "functions.py:Affine2.min_with"), ("cropping", "functions.py:Piecewise.crop"),
                        ("merging", "functions.py:Piecewise.simplify")],
     observe=["Piecewise.at", "Piecewise.min_with", "Piecewise.crop"])

prop("P14", "Rational functions compute, compare, solve and optimise exactly",
     "Sums, differences, products, quotients (also with numbers), parsing and evaluation of rational functions agree with exact arithmetic away "
     "from poles; equality holds exactly for equal functions even when written with a common factor; roots and crossings in an interval are exactly "
     "the real ones; the maximiser and minimiser on a closed interval without poles attain the extreme value.",
     "every pair of rational functions of numerator degree <= 6 and denominator degree <= 4 with rational coefficients, constants included",
     "tests only print RationalFunction2; no arithmetic, root or extremum of RationalFunction is tested",
     ["functions.py"], [("arithmetic", "functions.py:RationalFunction"), ("roots", "functions.py:RationalFunction.roots"),
                        ("crossings", "functions.py:RationalFunction.intersections"),
                        ("extrema", "functions.py:RationalFunction.maximise")],
     observe=["RationalFunction.at", "RationalFunction.roots", "RationalFunction.maximise"])

prop("P15", "Envelopes of rational functions are pointwise optimal and credited",
     "The minimum (maximum) of rational functions, each on its own interval, tiles the requested domain with consecutive pieces; inside each piece its "
     "function equals the least (greatest) of the functions defined there and the credited index attains it; where nothing is defined a default with index -1 is reported.",
     "every list of 1-6 rational functions of numerator degree <= 3 on rational intervals without poles inside them",
     "the best known zero-density and energy estimates are such envelopes; a missed crossing shows only between the two roots",
     ["functions.py"], [("envelope", "functions.py:RationalFunction._compute_optimal")],
     observe=["RationalFunction.min", "RationalFunction.max"])

prop("P16", "Polynomial arithmetic is that of the polynomial ring",
     "Addition, subtraction, multiplication, degree, equality and the zero test of polynomials agree with evaluation, satisfy the ring laws and keep "
     "the leading coefficient non-zero; tuples with zero leading coefficient are rejected.",
     "every triple of polynomials of degree <= 8 with integer or rational coefficients",
     "tests check a dozen sums; cancellation of several leading terms with rational coefficients is not sampled",
     ["polynomial.py"], [("arithmetic", "polynomial.py:Polynomial")],
     observe=["Polynomial.coefficients"])

prop("P17", "Printed expressions read back as the function they stand for",
     "The printed form of linear constraints, linear expressions, affine functions, polytopes, polynomials, rational functions and intervals denotes the same function, "
     "relation or interval: no sign, term, variable or bracket is lost or misplaced.",
     "every coefficient vector in 1-8 variables (zeros, ones and negatives included), every polynomial of degree <= 5, every interval",
     "descriptions are what users read and cite; tests print four polynomials",
     ["polytope.py", "functions.py", "polynomial.py", "helpers/str_helper.py"],
     [("constraint", "polytope.py:Constraint.__repr__"), ("expression", "helpers/str_helper.py:Str_Helper.format"),
      ("polynomial", "polynomial.py:Polynomial.to_str"), ("rational function", "functions.py:RationalFunction2.__repr__"),
      ("affine", "functions.py:Affine2.to_string")],
     observe=["str()"])

prop("P18", "Hypothesis sets, filters and dependency bookkeeping are exact",
     "A hypothesis set holds exactly the hypotheses added to it, whatever mixture of single, list, set and merged additions and copies; a copy and its original are "
     "independent. Listing by type and year returns exactly the matching ones (derived and classical results match every year, conjectures and undated results none), and a search "
     "finds one exactly when one matches. Recursive dependencies are the transitive closure, the printed proof is the dependency tree, a set lists every name and proof, proof complexity counts it and the proof date is the latest date in it.",
     "every history of additions, merges, copies and queries on up to 16 hypotheses with any dependency graph",
     "no test touches Hypothesis_Set directly; the year filter decides what historical results may use",
     ["hypotheses.py", "reference.py"],
     [("set", "hypotheses.py:Hypothesis_Set"), ("filter", "hypotheses.py:Hypothesis.is_match"),
      ("closure", "hypotheses.py:Hypothesis.recursive_dependencies")],
     over=("histories",), state=[("hypotheses", "the set of hypotheses", "hypotheses.py:Hypothesis_Set.__init__")],
     observe=["Hypothesis_Set.list_hypotheses", "Hypothesis_Set.find_hypothesis"])

prop("P19", "Cached convex hulls never change an answer",
     "Bounds on mu, piecewise bounds on mu and the hull of exponent pairs computed from a hypothesis set are those of a freshly built set with the same hypotheses, "
     "whatever was asked, added, proved or copied before; asking changes neither the set nor other answers.",
     "every history of additions, copies and queries over two hypothesis sets",
     "each test asks one fresh set once; staleness needs add after ask, or two kinds of question to one set",
     ["hypotheses.py", "exponent_pair.py", "bound_mu.py"],
     [("cache of mu bounds", "bound_mu.py:compute_convex_hull"), ("cache of pairs", "exponent_pair.py:compute_convex_hull"),
      ("invalidation", "hypotheses.py:Hypothesis_Set.add_hypotheses")],
     over=("histories",), state=[("data, data_valid", "cached hulls", "hypotheses.py:Hypothesis_Set.__init__")],
     observe=["best_mu_bound", "best_mu_bound_piecewise", "exponent_pair.compute_convex_hull"])

prop("P20", "References are read faithfully and dated correctly",
     "Loading a BibTeX file yields exactly its entries, each with its type, label, authors' surnames, year and other fields as written (braced, quoted or bare, wrapped or not); looking up by label, author or "
     "year finds exactly the matching entries, and an unknown label is an error. The latest year of a list of references is the largest year, classical and trivial results preceding and conjectures following all years.",
     "every BibTeX file of 1-8 entries in the usual dialects; every list of references",
     "the repository reads one file; dialect features (bare years, @ in fields, blank lines, missing years) are not sampled",
     ["reference.py"], [("loading", "reference.py:Reference_Manager.load"), ("search", "reference.py:Reference_Manager.find_all"),
                        ("latest year", "reference.py:Reference.max_year")],
     observe=["Reference.entries", "Reference.year", "Reference.author"])

prop("P21", "Exponent pair transforms give the stated pairs with their sources",
     "The van der Corput A and B, Sargos C and Sargos D transforms applied to any admissible pair, in any composition, give exactly the pair (or bounds on beta) of their theorem, record the "
     "transformed hypothesis and the transform as dependencies, and date the result by its latest ingredient; B is an involution; the k-th van der Corput pair has its closed form.",
     "every admissible rational pair, every word of up to 6 transforms, every k from 2 to 40",
     "test_exppair applies the transforms at a few points; dates and dependencies are not tested",
     ["literature.py", "derived.py", "exponent_pair.py"],
     [("A", "literature.py:A_transform_function"), ("B", "literature.py:B_transform_function"),
      ("C", "literature.py:C_transform_function"), ("D", "literature.py:D_transform_function"),
      ("classical pairs", "derived.py:van_der_corput_pair")],
     observe=["Hypothesis.data", "Hypothesis.dependencies"])

prop("P22", "Closing exponent pairs under transforms loses and invents nothing",
     "The pairs computed from a hypothesis set all follow from its pairs by its transforms, with derivations that re-check step by step; their convex hull contains every pair reachable within the search depth, "
     "pruned or not; without pruning every such pair is listed. The convex hull of pairs returned is that of the pairs of the set.",
     "every set of 1-7 admissible pairs (collinear ones included), every subset of A, B, C, depth 0-4",
     "pruning after each round could drop pairs needed later; one fixed set is tested",
     ["exponent_pair.py"], [("closure", "exponent_pair.py:compute_exp_pairs"),
                            ("hull", "exponent_pair.py:compute_convex_hull")],
     observe=["compute_exp_pairs", "compute_convex_hull"])

prop("P23", "Bounds on beta and exponent pairs convert into each other soundly",
     "The best bound on beta over a domain is at each point the least of the assumed bounds and is credited to one of them; the exponent pairs derived from bounds on beta are exactly the lines of the "
     "upper hull of that best bound (and their B transforms when that transform is assumed), none when [0,1/2] is not covered, and depend on bounds that cover it; a pair implies exactly its line as a bound, plus that of the D transform when assumed.",
     "every list of 1-8 affine bounds on sub-intervals of [0,1] and 1-4 admissible pairs",
     "tests never call these; bounds that leave a gap or meet at open ends are not sampled",
     ["bound_beta.py", "exponent_pair.py"],
     [("best bounds", "bound_beta.py:compute_best_beta_bounds"), ("to pairs", "exponent_pair.py:beta_bounds_to_exponent_pairs"),
      ("to bounds", "bound_beta.py:exponent_pairs_to_beta_bounds")],
     observe=["compute_best_beta_bounds", "beta_bounds_to_exponent_pairs", "exponent_pairs_to_beta_bounds"])

prop("P24", "Proofs of exponent pairs are found exactly when they exist and are valid",
     "A convexity proof of a pair is returned exactly when the pair lies in the hull of the assumed pairs, every step of it follows from its listed dependencies, and with dependency reduction its "
     "complexity is the least over the triangles searched. The search through transforms finds a proof whenever the closure contains the pair, and by date never needs results later than the earliest sufficient year.",
     "every set of 1-6 pairs of various years and proof lengths, optional bounds on beta, any transforms A, B, C, any target",
     "tests ask for three famous pairs; orientation of triangles, conjectures and collinear sets are not sampled",
     ["exponent_pair.py"], [("convexity proof", "exponent_pair.py:construct_proof"),
                            ("search", "exponent_pair.py:find_best_proof"), ("triangle test", "exponent_pair.py:in_triangle")],
     observe=["construct_proof", "find_best_proof", "Hypothesis.dependencies"])

prop("P25", "Bounds on mu are the best the hypotheses imply",
     "At every sigma the best bound on mu equals the least of the trivial bound and the lower convex hull of the assumed bounds, the bounds from derivable exponent pairs and their reflections by the functional equation; "
     "the piecewise answer agrees with it on the whole interval asked; every derived bound follows from its dependencies; a bound is proved exactly when it is not better than the best one.",
     "every set of bounds at rational sigma in [1/2,1], admissible pairs and transforms; every sigma and interval in [-1,2]",
     "examples print three values; intervals beyond [0,1], empty sets and the order of questions are not sampled",
     ["bound_mu.py"], [("pointwise", "bound_mu.py:best_mu_bound"), ("piecewise", "bound_mu.py:best_mu_bound_piecewise"),
                       ("inputs", "bound_mu.py:get_bounds"), ("convexity", "bound_mu.py:apply_mu_convexity"),
                       ("functional equation", "bound_mu.py:apply_functional_equation")],
     observe=["best_mu_bound", "best_mu_bound_piecewise", "prove_mu_bound"])
