"""Large values, zero density and energy, literature data (P26 on)."""
from catalog import prop

prop("P26", "Large value regions are the intersection of all estimates, fully credited",
     "A large value estimate rho <= max(c0 + c1 sigma + c2 tau, ...) allows exactly the triples satisfying it in the default limits and prints as it reads; its k-th power allows exactly the triples scaled by k; its zeta "
     "version adds only tau >= 2. The best region over a domain is the intersection of every assumed estimate, their powers and, for zeta only, the zeta estimates; its dependencies alone rule out everything that it excludes, "
     "and its year is that of the latest.",
     "every set of 1-5 rational (zeta) large value estimates with 1-6 bounds each, powers 2 and 3 and more, boxes of (sigma, tau, rho)",
     "tests never combine estimates; lost pieces, shared labels and powers need generated sets to show",
     ["zero_density_estimate.py", "large_values.py", "zeta_large_values.py", "region.py"],
     [("best region", "zero_density_estimate.py:compute_large_value_region"), ("estimate to region", "large_values.py:convert_bounds"),
      ("powers", "large_values.py:raise_to_power_hypothesis"), ("zeta version", "zeta_large_values.py:lv_to_zlv")],
     observe=["compute_large_value_region", "Large_Value_Estimate.region", "lv_to_zlv"])

prop("P27", "Bounds on beta and mu give exactly the zeta large value estimates they imply",
     "The zeta large value estimates derived from bounds on beta together allow, for 2 <= tau, rho > 0 exactly when sigma <= tau beta(1/tau) for the best assumed bound, and rho <= tau; each follows from the one bound it lists. "
     "From mu(sigma0) <= mu0, rho > 0 only for sigma <= sigma0 + tau mu0. The list of all zeta estimates contains the assumed ones, those of large value estimates and their powers and those of beta, and combines to the intersection.",
     "every list of 1-6 affine bounds on sub-intervals of [0,1/2], bounds on mu, large value estimates and powers, rational (sigma, tau, rho)",
     "tests never call these; ends of the ranges in tau, gaps and constants need generated bounds",
     ["zeta_large_values.py", "bound_beta.py"],
     [("from beta", "zeta_large_values.py:beta_to_zlv"), ("from mu", "zeta_large_values.py:mu_to_zlv"),
      ("all", "zeta_large_values.py:compute_large_value_estimate"), ("trivial", "zeta_large_values.py:get_trivial_zlv")],
     observe=["beta_to_zlv", "mu_to_zlv", "compute_large_value_estimate", "get_trivial_zlv"])

prop("P28", "Large value energy regions are lifted, raised, intersected and projected exactly",
     "A region raised to the power k holds exactly the tuples with tau, rho, rho*, s scaled by k; a large value estimate lifts without restricting rho* and s beyond the default limits; an exponent pair gives exactly Heath-Brown's "
     "relation for rho*. The best region over a domain of (sigma, tau) is the intersection of all assumed regions and their powers (zeta regions only when asked), and its projections to (sigma, tau, rho) and (sigma, tau, rho*) hold a point exactly when some tuple above it is allowed; dependencies and years are those used.",
     "every set of 1-3 regions given by 1-3 rational halfspaces in five variables, powers, zeta regions, (tilted) boxes, exponent pairs",
     "tests build no region in five variables; wrong axes, factors or lost pieces need exact projection oracles",
     ["additive_energy.py", "region.py", "polytope.py"],
     [("powers", "additive_energy.py:get_raise_to_power_hypothesis"), ("exponent pair", "additive_energy.py:ep_to_lver"), ("lift", "additive_energy.py:lv_to_lver"),
      ("intersection", "additive_energy.py:compute_best_lver"), ("projection", "additive_energy.py:lver_to_energy")],
     observe=["ep_to_lver", "lv_to_lver", "compute_best_lver", "lver_to_lv", "lver_to_energy", "compute_LV_star"])

prop("P29", "The supremum of rho/tau over a region is exact at every sigma",
     "For any union of polytopes in (sigma, tau, rho) with tau > 0 the computed piecewise function equals the supremum of rho/tau over the slice at every sigma of the interval, and the placeholder where no triple is feasible; the zero density estimate of a pair of large value energy regions is the maximum of both suprema, with the dependencies and counts of both.",
     "every list of 1-4 bounded rational polytopes, every interval and sigma; energy regions as in P28, empty ones included",
     "no test computes a supremum; edges that are skipped or shared need generated polytopes",
     ["zero_density_estimate.py", "zero_density_energy_estimate.py", "polytope.py", "functions.py"],
     [("rho/tau", "zero_density_estimate.py:compute_sup_rho_on_tau"), ("rho*/tau", "zero_density_energy_estimate.py:compute_sup_LV_on_tau"),
      ("energy region to zero density", "zero_density_estimate.py:lver_to_zd")],
     observe=["compute_sup_rho_on_tau", "compute_sup_LV_on_tau", "lver_to_zd"])

prop("P30", "Zero density and energy bounds are the suprema the theorems prescribe",
     "Given large value and zeta large value estimates, the computed bound on A(sigma)(1-sigma) equals at every sigma the larger of sup LV/tau over [tau0, 2 tau0] and sup LV_zeta/tau over [2, tau0] (with tau0 affine: over [2/3 tau0, tau0] and [2, 4/3 tau0]), "
     "where LV is the best the estimates and their powers imply. The bound on A*(sigma)(1-sigma) is the larger of the suprema of rho*/tau over the best energy region for [tau0, 2 tau0] and the best zeta region for [2, tau0]; it is returned divided by 1-sigma.",
     "every set of 1-3 large value and 0-2 zeta estimates, bounds on mu, powers 2 and 3, constant or affine tau0; 1-2 energy regions",
     "no test runs the computation; a wrong range or lost estimate only shows at some sigma",
     ["zero_density_estimate.py", "zero_density_energy_estimate.py", "additive_energy.py"],
     [("constant tau0", "zero_density_estimate.py:lv_zlv_to_zd"), ("affine tau0", "zero_density_estimate.py:lv_zlv_to_zd2"),
      ("energy", "zero_density_energy_estimate.py:lver_to_energy_bound")],
     observe=["lv_zlv_to_zd", "lv_zlv_to_zd2", "lver_to_energy_bound"])

prop("P31", "Collected zero density and energy bounds are pointwise best and credited",
     "Every estimate evaluates to its expression inside its interval and refuses points outside; the best density or energy bound over [1/2,1] is at each sigma the least of the estimates valid there, credited to one that gives it, and a placeholder where there is none; "
     "the trivial energy bounds are 3 A and 3/(1-sigma); merging neighbours keeps the function. Exponent pairs give Ivic's bound 3m/((3m-2)sigma+2-m) on exactly the range of his lemma and Bourgain's on the stated table, from pairs that are provable; over any polygon of pairs Bourgain's bound is printed at its optimum at each sigma, and for each piece of the best bound on beta Pintz's tau0, with tau0 beta(1/tau0) = sigma.",
     "every set of 1-6 rational bounds on sub-intervals, given as text or functions; 1-5 exponent pairs, m from 2 to 12; every sigma",
     "tests evaluate one literature list; overlaps, crossings, open ends, LaTeX text and unparsed expressions are not sampled",
     ["zero_density_estimate.py", "zero_density_energy_estimate.py", "functions.py"],
     [("best density", "zero_density_estimate.py:best_zero_density_estimate"), ("best energy", "zero_density_energy_estimate.py:compute_best_energy_bound"),
      ("trivial energy", "zero_density_energy_estimate.py:add_trivial_zero_density_energy_estimates"), ("Ivic", "zero_density_estimate.py:ivic_ep_to_zd"),
      ("Bourgain", "zero_density_estimate.py:bourgain_ep_to_zd"), ("optimum", "zero_density_estimate.py:approx_bourgain_ep_to_zd"), ("Pintz", "zero_density_estimate.py:optimize_pintz_zero_density"), ("merge", "zero_density_estimate.py:simplify")],
     observe=["best_zero_density_estimate", "compute_best_energy_bound", "ivic_ep_to_zd", "bourgain_ep_to_zd", "Zero_Density_Estimate.at"])

prop("P32", "The recorded bounds on beta, mu and exponent pairs are the published theorems",
     "At every alpha the recorded bounds on beta are, reference by reference, the values of the published theorems (Watt, Huxley, Huxley-Kolesnik, Sargos, Robert-Sargos, Robert, Heath-Brown, Bourgain ...) and never below alpha/2; for every year Y the bounds on mu and the exponent pairs added as of Y are exactly those known in Y, "
     "each bound on mu(1/2) improves on all earlier ones, and what best_mu_bound and compute_best_beta_bounds make of them is what those theorems imply. The Lindelof hypothesis and the exponent pair conjecture are marked as conjectures, belong to no year, and give mu(s) = max(0, 1/2 - s) and beta(a) = a/2.",
     "every rational alpha in (0,1), sigma in [-1,2], every year 1850-2030",
     "tests look up a handful of entries; a wrong number, range or year changes answers only at some points and years",
     ["literature.py", "bound_mu.py", "exponent_pair.py", "bound_beta.py"],
     [("beta", "literature.py:add_beta_bound_huxley_1993"), ("mu", "literature.py:add_bounds_mu_as_of"), ("pairs", "literature.py:add_exp_pairs_up_to"),
      ("conjectures", "exponent_pair.py:exponent_pair_conjecture")],
     observe=["literature.list_hypotheses", "add_bounds_mu_as_of", "add_exp_pairs_up_to", "best_mu_bound"])

prop("P33", "Recorded large value, energy and zero density estimates are the published ones",
     "A triple (sigma, tau, rho) satisfies each recorded large value estimate (L2, Huxley, Heath-Brown, Jutila for every k, Bourgain with optimal parameters, Guth-Maynard, Heath-Brown's twelfth moment for tau >= 2) exactly when it satisfies the theorem; a tuple (sigma, tau, rho, rho*, s) lies in each recorded energy region "
     "(Heath-Brown 1979, 2a, 2b, 3 with k, Ivic, Guth-Maynard 1 with k, 2, 3) exactly when it satisfies the published inequalities; at every sigma the recorded zero density and energy estimates are, reference by reference, the published functions on the published ranges. No recorded large value estimate admits sigma > 1, negative tau or negative rho.",
     "every rational point, points on and just beside the boundary of each theorem, every sigma in (1/2,1) and the neighbourhoods of all range ends",
     "tests never evaluate these tables; a wrong coefficient or range end matters only in a part of the space",
     ["literature.py", "large_values.py", "zeta_large_values.py", "additive_energy.py", "zero_density_estimate.py"],
     [("large values", "literature.py:add_bourgain_large_values_estimate"), ("energy regions", "literature.py:add_lver_heath_brown_1979"), ("zero density", "literature.py:add_zero_density_ivic_1980"),
      ("energy", "literature.py:add_zero_density_energy_heath_brown_1979")],
     observe=["Large_Value_Estimate.region", "Large_Value_Energy_Region.region", "Zero_Density_Estimate.at"])

prop("P34", "The shipped derivations prove the theorems they are named after",
     "Every zero density derivation (Ingham, Huxley, Jutila, Heath-Brown 1979 a and b, Guth-Maynard, extended Heath-Brown; by either method) and every energy derivation (Heath-Brown, improved Heath-Brown, energy 2 to 10) gives at each sigma of its range exactly the named bound, dated by its latest ingredient; "
     "prove_zero_density gives for any recorded ingredients, range and tau0 the supremum the theorem prescribes. van_der_corput_pair(k) is (1/(2^k-2), 1-(k-1)/(2^k-2)) with a proof by one B and k-2 A steps for k >= 2 and an error below; best_proof_of_exponent_pair proves every pair the A and B processes and convexity give, by 1920, with valid steps; "
     "prove_exponent_pair finds the four new pairs and nothing better; the Guth-Maynard large values theorem at tau = 6/5 and mu(1/2) <= 1/6 are derived as stated. From assumed pairs, bounds on beta and transforms, a pair is proved exactly when they imply it as a line of the hull, also when they are the recorded literature and the proof is simplified; Heath-Brown's bounds on beta give his pairs for k = 4..8. No derivation changes the recorded literature.",
     "every sigma in the ranges; every subset of recorded estimates, range and tau0; every k up to 90; words in A and B and their convex combinations",
     "the derivations take no part in the tests; errors anywhere below surface as a wrong bound at some sigma",
     ["derived.py", "zero_density_estimate.py", "zero_density_energy_estimate.py", "exponent_pair.py"],
     [("density", "derived.py:prove_zero_density"), ("energy", "derived.py:prove_heath_brown_energy_estimate"), ("pairs", "derived.py:prove_exponent_pair"),
      ("best proof", "derived.py:best_proof_of_exponent_pair"), ("van der Corput", "derived.py:van_der_corput_pair")],
     observe=["prove_zero_density*", "prove_zero_density_energy_*", "prove_heath_brown_energy_estimate", "van_der_corput_pair", "best_proof_of_exponent_pair"])

prop("P35", "The prime gap bound is the supremum the proposition prescribes",
     "Between consecutive breakpoints of the best assumed A(sigma) and A*(sigma) = B(sigma), compute_gap2 reports the supremum of max(4s-2+2(B(1-s)-1)/(B-A), 4s-2+(B(1-s)-1)/A), attained inside or at an end (as a limit where A vanishes); the intervals fill [1/2,1]. "
     "The estimates prove_prime_gap2 assumes imply the claimed 19/15 at every sigma, and none is better than the best bound the blueprint records.",
     "every rational A on 1-2 ranges and B with B > A on [1/2,1], A vanishing at 1 included; every sigma for the shipped ingredients",
     "nothing runs it in the tests; a dropped stationary point shows only for estimates with an interior maximum",
     ["prime_gap.py", "derived.py", "zero_density_estimate.py", "zero_density_energy_estimate.py"],
     [("supremum", "prime_gap.py:compute_gap2"), ("ingredients", "derived.py:prove_prime_gap2")],
     observe=["compute_gap2", "prove_prime_gap2"])

prop("P36", "The assembled records are exactly what the recorded theorems imply",
     "From the literature's exponent pairs, transforms and bounds on beta, the assembled pairs are in every direction as good as, and (away from where the infinite series are cut off) no better than, the hull of the published table; the best bound on beta is at each alpha the least of the theorems and the pairs; "
     "the best bound on mu is their convexity hull and no worse than published; the best recorded A(sigma) is at each sigma that of the published table, whether the literature is taken pointwise or through best_zero_density_estimate. "
     "The derivations of the improved Bourgain density theorem and of Ivic's estimates give those theorems on their ranges.",
     "every direction, alpha, sigma; the whole literature",
     "one wrong piece anywhere in the literature or the pipeline moves a record only in a short range",
     ["exponent_pair.py", "bound_beta.py", "bound_mu.py", "zero_density_estimate.py", "derived.py", "literature.py"],
     [("pairs", "exponent_pair.py:beta_bounds_to_exponent_pairs"), ("beta", "bound_beta.py:compute_best_beta_bounds"), ("mu", "bound_mu.py:best_mu_bound"),
      ("zero density", "derived.py:compute_best_zero_density"), ("Bourgain", "derived.py:prove_zero_density_bourgain_improved"), ("Ivic", "derived.py:prove_zero_density_ivic_1984")],
     observe=["compute_exp_pairs", "compute_best_beta_bounds", "best_mu_bound", "best_zero_density_estimate"])

prop("P37", "The plots show what is recorded",
     "Every curve of the beta, van der Corput, zero density and zero density energy pictures passes at each drawn abscissa through the named bound (best, literature, trivial, conjectured, on the Lindelof hypothesis); the pictures of a list of bounds on beta and of the best density draw each given bound; the exponent pair picture draws vertices of the hull of known pairs in order, closed under the B process. "
     "The pictures of a polytope, a region and the domain of a piecewise function draw exactly the sampled points they contain, each function's points apart. "
     "Piecewise.check says whether the pieces overlap in their interiors or leave a sampled point undefined.",
     "every drawn point; every union of up to 3 polygons, window and resolution; piecewise functions on up to 4 cells with cells missing or overlapping",
     "pictures are looked at, not compared; a sample off by a step or a window with its ends swapped still looks right",
     ["visualizations.py", "functions.py", "polytope.py", "region.py"],
     [("pictures", "visualizations.py:zero_density_plot"), ("polytope", "polytope.py:Polytope.plot"), ("region", "region.py:Region.plot2d"),
      ("domains", "functions.py:Piecewise.plot_domain"), ("check", "functions.py:Piecewise.check")],
     observe=["zero_density_plot", "Polytope.plot", "Region.plot2d", "Piecewise.check"])
