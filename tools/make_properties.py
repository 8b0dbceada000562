#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "estimation/unidimensional/"
M = "estimation/multidimensional/"
T = "estimation/utilities/"
P = []

def prop(id, title, statement, over, text, why, files, mech, na=False):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech]}})

EST = [U + "dichotomous/rasch_mml.py", U + "dichotomous/rasch_conditional.py", U + "dichotomous/jml_methods.py",
       U + "dichotomous/threepl_mml.py", U + "dichotomous/twopl_mml.py", U + "dichotomous/twopl_mml_eap.py",
       U + "polytomous/grm_mml.py", U + "polytomous/grm_mml_eap.py", U + "polytomous/pcm_mml.py",
       U + "polytomous/gum_mml.py", U + "polytomous/grm_jml.py", U + "polytomous/pcm_jml.py",
       M + "multidimensional_mml_methods.py"]
ABL = [U + "dichotomous/ability_estimation.py", U + "dichotomous/ability_threepl.py", M + "multidimensional_ability_methods.py"]

prop("C01", "A call never modifies the objects its caller passed in",
     "No public estimation, scoring, simulation, correlation, reliability or factor-analysis call changes any array, options dictionary or other object that was passed to it, neither directly nor through a view of it, a helper, a callback or a shared buffer. "
     "The calls that return a recoded dataset (tagging of missing data, reverse scoring, polytomous recoding) return storage of their own, so writing to the result never changes the input.",
     ["inputs", "programs"], "for every public function, every argument, every input value, dtype and memory layout, and every path through the code",
     "Tests look at return values; only a handful re-use an input after the call, always as a fresh contiguous int64 array and with default options.",
     EST + ABL + [T + "utils.py", T + "polytomous_utils.py", T + "girth_options.py", T + "bootstrap_errors.py", "common/reverse.py", "common/polychoric.py", "synthetic/polytomous.py", "factoranalysis/maximum_likelihood.py"],
     [("copies before in-place recoding", T + "polytomous_utils.py: condition_polytomous_response"),
      ("copies before tagging / reverse scoring", T + "utils.py: tag_missing_data; common/reverse.py: reverse_score"),
      ("a fresh options dictionary is updated, never the caller's", T + "girth_options.py: validate_estimation_options")])

prop("C02", "The result of a call does not depend on earlier calls",
     "No public call leaves state behind that another call can observe: it changes no module variable, class attribute, mutable default argument, function attribute, environment variable, global random state or global floating-point/error setting, and it starts every computation from its own arguments and fresh default options. "
     "If results are ever memoised, the key must contain everything the stored value depends on and the stored value must not be modified afterwards.",
     ["histories", "inputs"], "for every sequence of public calls in one process",
     "Each unit test makes its calls in one fixed order; no test compares a call made first with the same call made after others.",
     [T + "girth_options.py", T + "latent_ability_distribution.py", T + "look_up_table.py", T + "utils.py"] + EST,
     [("options are rebuilt on every call", T + "girth_options.py: default_options"),
      ("per-call latent distribution object", T + "latent_ability_distribution.py: LatentPDF.__init__"),
      ("per-call look-up table closure", T + "look_up_table.py: create_beta_LUT")])

prop("C03", "All randomness is controlled by the seed argument",
     "Every random draw behind synthetic response data, bootstrap resampling and loading sparsification comes from a generator created inside the call from the caller's seed, and no draw is taken from a global generator, the clock, the process id, object identity or hashing. "
     "All other public functions draw no random numbers. Within a call, successive draws advance one stream (or distinct spawned streams): the same stream is never restarted or handed to two consumers.",
     ["inputs", "histories", "programs"], "for every seed, every public function, every number of items, respondents, workers and earlier calls",
     "A test can show that two particular seeded calls agree; it cannot show that no draw escapes the seed on any path, nor that two streams never coincide; the bootstrap tests are skipped.",
     ["synthetic/dichotomous.py", "synthetic/polytomous.py", T + "bootstrap_errors.py", "factoranalysis/rotation.py"],
     [("seeded generator", "synthetic/dichotomous.py, synthetic/polytomous.py: np.random.default_rng(seed)"),
      ("spawned child streams", T + "bootstrap_errors.py: SeedSequence(seed).spawn"),
      ("basinhopping(seed=seed)", "factoranalysis/rotation.py: sparsify_loadings")])

prop("C04", "Invalid options are rejected and valid ones merged over the defaults",
     "Every estimation option is checked on every call: a non-dictionary, an unknown option name, a non-positive or non-integer iteration count, a non-callable density, quadrature bounds that are not an increasing pair, quadrature sizes below 8, a non-boolean switch, or fewer than 5 density samples raises an error. "
     "A dictionary of valid values is accepted whatever subset of options it names, and the complete options then hold exactly the supplied value for each supplied name and the documented default for every other name.",
     ["inputs", "configurations"], "for every option name and every abstract class of values (wrong type, at the boundary, beyond the boundary, unknown name), alone or combined",
     "The tests try one or two bad values per option and only through one of the entry points.",
     [T + "girth_options.py"] + EST + ABL,
     [("per-key validators", T + "girth_options.py: validate_estimation_options"),
      ("default table", T + "girth_options.py: default_options")])

prop("C05", "Supplied options and parameters reach the computation, unmixed with defaults",
     "Each documented option of an estimation or scoring call (iteration limit, latent density, quadrature bounds and size, look-up table switch, density estimation switch and sample count, initial-guess switch, hyper-quadrature size, worker count) and each documented argument of a library call influences the result or the work done, and when the caller supplies an option, the default value of that option is used nowhere in that call. "
     "In particular one call never mixes an integration grid, density or bound taken from the caller with one taken from the defaults.",
     ["configurations", "inputs"], "for every estimation and scoring function and every combination of supplied options",
     "Tests run almost exclusively with default options, where a default substituted for a supplied option cannot be noticed.",
     EST + ABL + [T + "look_up_table.py", T + "latent_ability_distribution.py", M + "multidimensional_initial_guess.py", T + "bootstrap_errors.py", "common/polychoric.py"],
     [("options threaded through helpers", "grm_mml -> create_beta_LUT / LatentPDF(options)"),
      ("options forwarded by wrappers", "rasch_mml, twopl_mml, twopl_mml_eap, multidimensional_twopl_mml, standard_errors_bootstrap")])

prop("C06", "A response tagged as missing carries no information",
     "For every method that supports missing data, a response tagged as missing contributes nothing: no estimate, score, count, mean, variance, correlation, category table or likelihood term depends on the placeholder stored in that cell or on the response category it happens to index, and such a respondent-item pair enters likelihoods as a constant factor only. "
     "Tagging itself replaces exactly the cells whose value is not a declared valid response.",
     ["inputs"], "for every pattern of missing cells, every method that accepts tagged data, every category count",
     "The missing-data tests compare noisy estimates to a loose tolerance on one random 10% pattern; scoring, reliability and classical statistics are tested without missing data or with one pattern.",
     EST + ABL + [T + "utils.py", T + "polytomous_utils.py", T + "ctt_statistics.py", "common/cronbach_alpha.py", "common/reverse.py", "common/polychoric.py", U + "dichotomous/partial_integrals.py", U + "polytomous/partial_integrals_poly.py", M + "partial_integral_md.py"],
     [("masked neutral factor", "partial_integrals*.py: temp_output[invalid_response_mask] = 1"),
      ("zero kernel sign", T + "utils.py: convert_responses_to_kernel_sign"),
      ("where= masks", "common/cronbach_alpha.py, " + T + "ctt_statistics.py"),
      ("masked trimming", T + "utils.py: trim_response_set_and_counts")])

prop("C07", "Results depend on the numbers, not on their storage type",
     "The same responses stored as booleans, small or unsigned integers, wide integers or floating point, and the same parameters stored as integers or floating point, give the same result: no call writes a value into storage whose type was inherited from the caller and cannot hold it, truncates a real-valued parameter because the caller passed integers, lets arithmetic overflow in the caller's narrow type, or uses the caller's storage type as an index type.",
     ["inputs"], "for every public function and every numeric storage type of every array argument",
     "All tests pass 64-bit integer responses and floating point parameters.",
     [T + "utils.py", T + "polytomous_utils.py", U + "dichotomous/ability_estimation.py", U + "dichotomous/rasch_mml.py", "synthetic/dichotomous.py", "common/polychoric.py", "factoranalysis/maximum_likelihood.py", T + "latent_ability_distribution.py", "common/entropy.py"],
     [("index arrays built from responses", T + "polytomous_utils.py: condition_polytomous_response; ability_eap; onepl_mml"),
      ("like-typed buffers", "synthetic/dichotomous.py: full_like; look for zeros_like/full_like/copy/empty_like of arguments")])

prop("C08", "Scoring one respondent never depends on the other respondents",
     "Given item parameters, the ability estimated for a respondent (maximum likelihood, maximum a posteriori or expected a posteriori, one- or multi-dimensional, two- or three-parameter) is a function of that respondent's own responses, the item parameters and the options only, and is returned at that respondent's position. "
     "Adding, removing, reordering or changing other respondents does not change it.",
     ["inputs", "histories"], "for every dataset, every subset and ordering of its respondents",
     "Tests score one fixed batch; a dependence through warm starts, shared scratch storage, batch statistics or misaligned masks shows only for particular batches.",
     ABL + [U + "polytomous/ability_estimation_poly.py", U + "dichotomous/partial_integrals.py", M + "partial_integral_md.py"],
     [("per-respondent loop / row-wise integrals", "ability_*: thetas[ndx], partial_int rows"),
      ("mask scatter of untrimmed respondents", "ability_mle, ability_3pl_mle: thetas[mask] = trimmed_theta")])

prop("C09", "Parallel and serial polychoric matrices are the same, symmetric, unit diagonal",
     "For any number of workers, the polychoric correlation matrix has ones on its diagonal and, at (i, j) and (j, i) alike, the coefficient computed from rows i and j of the data with the caller's first and last category. "
     "Every pair is computed exactly once and stored at its own position, whether computed serially or by a pool of workers reading the shared copy of the data.",
     ["schedules", "inputs", "configurations"], "for every dataset, category range, number of items and number of workers, and every completion order of the workers",
     "The tests compare one 4-item style example with two workers and 1..5 style categories.",
     ["common/polychoric.py", M + "multidimensional_initial_guess.py"],
     [("pair list split across workers", "common/polychoric.py: polychoric_correlation"),
      ("worker", "common/polychoric.py: _polychoric_engine"), ("serial loop", "common/polychoric.py: polychoric_correlation_serial")])

prop("C10", "Bootstrap: whole respondents, same model and options, exact summaries",
     "Each bootstrap replicate re-estimates the caller's model with the caller's options on as many respondents as the dataset holds, drawn with replacement as whole columns, each worker using its own random stream, and exactly the requested number of replicates is run and used. "
     "The reported interval is the 2.5 and 97.5 percentile per parameter, the standard error the sample standard deviation (n-1) per parameter, and the bias the replicate mean minus the full-data estimate, each computed from that parameter's own replicates and reported under its own name and in its own shape.",
     ["inputs", "configurations", "schedules"], "for every dataset, model, option set, replicate count, worker count and seed",
     "All five bootstrap tests are skipped in the baseline, so nothing exercises this code.",
     [T + "bootstrap_errors.py"],
     [("resampling worker", T + "bootstrap_errors.py: _bootstrap_func"), ("summaries", T + "bootstrap_errors.py: standard_errors_bootstrap")])

prop("C11", "Worker processes get picklable work and every resource is released",
     "Everything sent to a worker process (function and arguments) can be pickled by a spawned process, workers share no mutable state with the parent other than the shared buffer they only read, and results are consumed in submission order. "
     "Every pool, executor, manager and shared-memory block opened by a call is closed or released on every exit, normal or exceptional, and shared memory is not used after its release.",
     ["schedules", "fault_sequences", "programs"], "for every exit path (including exceptions raised by a model in a worker) and every process start method",
     "Tests run under the fork start method with successful workers; leaks and spawn-only pickling failures are invisible to them.",
     ["common/polychoric.py", T + "bootstrap_errors.py"],
     [("context managers", "common/polychoric.py: SharedMemoryManager/ProcessPoolExecutor; bootstrap_errors.py: Pool"),
      ("module-level worker functions", "_polychoric_engine, _bootstrap_func")])

prop("C12", "Iterative estimation stops within the limit and only on genuine convergence",
     "Every iterative estimator performs at most the requested maximum number of sweeps over the items. "
     "It stops earlier only when the largest absolute change of the monitored parameters between the state before this sweep and the state after this sweep is below a positive tolerance, where both states are genuinely distinct snapshots of the same parameters.",
     ["inputs", "histories"], "for every dataset and every iteration limit",
     "Recovery tests cannot distinguish a loop that stops too early, compares a parameter with an alias of itself, or ignores the limit, when estimates stay inside the tolerance.",
     EST + ["factoranalysis/maximum_likelihood.py"],
     [("outer sweep loops", "for iteration in range(options['max_iteration']) in each estimator"),
      ("convergence tests", "np.abs(previous - current).max() < tolerance")])

prop("C13", "Reported estimates are the optimiser's answer, not its last trial point",
     "Every estimate that is obtained by numerical minimisation and reported (or carried into the next sweep) is the point the minimiser returned, or is recomputed from that point; no reported quantity is a leftover of whatever trial point the minimiser happened to evaluate last. "
     "Parameters that depend on the optimised one (difficulties solved for a given discrimination, density coefficients) are those belonging to the returned point.",
     ["inputs"], "for every dataset and every sequence of trial points a minimiser may evaluate",
     "Which point is evaluated last depends on the data and the optimiser version; for the tested data it is usually within tolerance of the optimum.",
     EST + [T + "latent_ability_distribution.py", "common/polychoric.py", "common/polyserial.py", "factoranalysis/minimum_rank.py", "factoranalysis/paf.py", "factoranalysis/rotation.py"],
     [("objective functions that write their trial point into shared arrays", "grm_mml._local_min_func, onepl_mml.min_func, threepl_mml.min_func_local, onepl_jml._alpha_min, LatentPDF.optimize_distribution")])

prop("C14", "Inputs outside a function's domain are refused, not processed",
     "A call outside the documented domain raises instead of returning numbers: fewer than two factors in multidimensional estimation or scoring, more than ten factors in the tensor-product grid, an unknown polytomous model name, polytomous items with a single threshold, graded-model thresholds not in ascending order, an even number or asymmetric set of unfolding thresholds, discrimination with more than two dimensions, a reverse-score mask whose length differs from the number of items, density coefficients of the wrong size, and resampling a density to its current size. "
     "Inputs inside the domain are not refused by these checks.",
     ["inputs"], "for every input of each abstract class, in every combination with the other arguments",
     "The tests try one representative of some of these classes; boundary members and combinations with other arguments are not tried.",
     ["synthetic/polytomous.py", "synthetic/dichotomous.py", M + "multidimensional_mml_methods.py", M + "multidimensional_ability_methods.py", "common/reverse.py", T + "latent_ability_distribution.py", T + "polytomous_utils.py"],
     [("guard clauses", "raise AssertionError/ValueError in the files listed")])

prop("C15", "Results have the documented fields and shapes for data of any size",
     "Each estimator and scorer returns the documented fields, with one entry (or row) per item for item parameters and one entry (or column) per respondent for abilities, in the dataset's own order, whatever the numbers of items, respondents, factors and response categories. "
     "This includes the smallest sizes: a single respondent to score, and items whose category counts differ.",
     ["inputs"], "for every number of items, respondents, categories and factors",
     "Tests use square-ish examples with many items and respondents; size-one dimensions and unequal category counts are hardly tried.",
     EST + ABL + [T + "ctt_statistics.py", T + "bootstrap_errors.py", "factoranalysis/pca.py", "factoranalysis/paf.py", "factoranalysis/minimum_rank.py", "factoranalysis/maximum_likelihood.py", "factoranalysis/rotation.py", "common/polychoric.py", "synthetic/dichotomous.py", "synthetic/polytomous.py"],
     [("result dictionaries", "return {...} of each estimator"), ("shape-dropping calls", "squeeze() in twopl wrappers, jml and 3PL integrals")])

prop("C16", "Synthetic responses lie in the declared categories of the chosen model",
     "Dichotomous simulation returns an integer matrix of zeros and ones with one row per item and one column per ability. "
     "Polytomous simulation returns integers from 1 to the number of categories (thresholds plus one, or half of that many plus one for the unfolding model), of the same layout, drawn from the model that was named (in any letter case), each response being compared with one fresh uniform draw.",
     ["inputs"], "for every parameter set, number of thresholds, model name and seed",
     "Tests check a few models with fixed seeds; boundary draws and rounding at the top category occur too rarely to be sampled.",
     ["synthetic/dichotomous.py", "synthetic/polytomous.py"],
     [("uniform comparison", "create_synthetic_irt_dichotomous"), ("digitise and clip", "create_synthetic_irt_polytomous")])

prop("C17", "AIC and BIC are the stated functions of one log-likelihood",
     "Every reported information criterion equals 2k - 2LL (AIC) and k ln N - 2LL (BIC) for one and the same log-likelihood, with N the number of respondents and k the number of free density points (samples minus three when the density is estimated, zero otherwise). "
     "The null criterion uses the supplied density with k = 0, the final one the density in force at the end, both at the final item parameters, and the reported difference is null minus final.",
     ["inputs", "configurations"], "for every estimator that reports them, every dataset and both settings of density estimation",
     "Tests check a difference or a sign on one dataset; the number of respondents and of density points is the same in all of them.",
     [T + "latent_ability_distribution.py", U + "polytomous/grm_mml.py", U + "polytomous/grm_mml_eap.py", U + "polytomous/pcm_mml.py", U + "polytomous/gum_mml.py", M + "multidimensional_mml_methods.py"],
     [("metrics", T + "latent_ability_distribution.py: LatentPDF.compute_metrics"), ("reporting", "return {... 'AIC' ... 'BIC'} in the estimators")])

prop("C18", "One quadrature rule and one current density serve all integrals of a sweep",
     "Every marginal integral multiplies the likelihood and the latent density, both evaluated at the nodes of one quadrature rule built from the call's bounds and size, by that same rule's weights, exactly once. "
     "When the latent density is re-estimated, the likelihood weights, the difficulty look-up table or difficulty equations, and the reported abilities of a sweep all use the same, most recent density.",
     ["inputs", "configurations", "histories"], "for every dataset, grid, density and combination of the density-estimation and look-up-table switches",
     "The numbers change only slightly when a stale density, a doubled weight on one path or a second grid is used; tolerance-based recovery tests accept that.",
     [T + "latent_ability_distribution.py", T + "look_up_table.py", U + "polytomous/grm_mml.py", U + "polytomous/grm_mml_eap.py", U + "polytomous/pcm_mml.py", U + "polytomous/gum_mml.py", U + "dichotomous/rasch_mml.py", U + "dichotomous/ability_estimation.py", U + "dichotomous/ability_threepl.py", M + "multidimensional_mml_methods.py", M + "multidimensional_ability_methods.py"],
     [("nodes and weights", T + "utils.py: _get_quadrature_points"), ("current density", "LatentPDF.__call__ / optimize_distribution"), ("look-up table refresh", "grm_mml, grm_mml_eap")])

prop("C19", "The look-up table changes how fast difficulties are found, not which",
     "In the graded-response estimators that can use a difficulty look-up table, an entry of the table is the difficulty at which the same marginal integral (same response curve, nodes, weights and density) "
     "equals the cumulative proportion that the direct solution sets it equal to. The table spans the direct solution's range of difficulties and every discrimination the estimator can try, in steps of at most 0.03; "
     "a reading interpolates linearly between the two neighbouring entries in each direction, and a proportion beyond the table gives the end of the difficulty range on its side, as the direct solution does. "
     "The same proportions are converted whether or not the table is used.",
     ["inputs", "configurations"], "for every dataset, density, grid and discrimination tried during a fit",
     "The comparison of both ways in the tests uses one dataset and a wide tolerance; extreme proportions, small discriminations and custom densities are not reached.",
     [T + "look_up_table.py", T + "polytomous_utils.py", U + "polytomous/grm_mml.py", U + "polytomous/grm_mml_eap.py", M + "multidimensional_mml_methods.py"],
     [("table", "create_beta_LUT / interpolate_function"), ("direct solution", "_solve_integral_equations"), ("users", "grm_mml, grm_mml_eap, multidimensional_grm_mml")])

prop("C20", "Respondents are exchangeable and each of them counts once",
     "Item parameters, latent densities, reliability figures, correlations, counts and information criteria do not depend (beyond rounding) on the order in which the respondents are listed, and abilities are "
     "listed in the order of the respondents. Every respondent enters every sum over respondents, equally: none is left out, counted twice, kept back or used as the starting point of another because of where it "
     "stands in the data, and where identical response patterns are evaluated only once, each pattern counts as many times as it occurs. "
     "(Respondents removed because of what they answered, such as all correct in joint estimation, are removed wherever they stand.)",
     ["inputs", "histories"], "for every dataset and every permutation of its respondents",
     "Tests estimate one dataset in one order; a dropped last respondent or a start value taken from the neighbour changes estimates less than their tolerances.",
     [U + "dichotomous/jml_methods.py", U + "dichotomous/rasch_mml.py", U + "polytomous/grm_mml.py", U + "polytomous/grm_jml.py", U + "polytomous/pcm_jml.py", M + "multidimensional_mml_methods.py", T + "utils.py", "common/polychoric.py"],
     [("patterns", "unique columns and their counts"), ("person steps", "loops over respondents in joint estimation"), ("criteria", "sums of log-likelihoods over respondents")])

prop("C21", "Only the order of the response categories matters: codes may start at any number",
     "Response categories are named by integers, and nothing but their order counts. Raising every category code of a dataset by the same amount (1 to 4 becoming 0 to 3, or 11 to 14) changes no result of the polytomous "
     "estimators and ability estimators, the starting values for several factors, the classical item statistics other than the mean, Cronbach's alpha, and the polychoric, polyserial and contingency functions (the stated first and last codes moving along); "
     "for the estimators, the ability estimators and the polyserial correlation any other numbers in the same order (such as 1, 2, 5, 9) give the same results too.",
     ["inputs"], "for every dataset and every renumbering of its categories that keeps their order",
     "Tests use the codes 1 to K of the simulator, or 0 and 1; a rule that holds for these only is never noticed.",
     [T + "polytomous_utils.py", U + "polytomous/grm_mml.py", U + "polytomous/grm_mml_eap.py", U + "polytomous/pcm_mml.py", U + "polytomous/gum_mml.py", U + "polytomous/grm_jml.py", U + "polytomous/pcm_jml.py", M + "multidimensional_mml_methods.py",
      M + "multidimensional_initial_guess.py", M + "multidimensional_ability_methods.py", T + "ctt_statistics.py", "common/polychoric.py", "common/polyserial.py", "common/cronbach_alpha.py"],
     [("recoding", "condition_polytomous_response"), ("first and last code", "initial_guess_md, contingency_table"), ("thresholds by distinct values", "polyserial_correlation")])

prop("C22", "Each item enters every likelihood exactly once, with its own answers and parameters",
     "The likelihood of a response pattern at an ability is the product over all items of the probability of the given answer. Every likelihood the marginal estimators and the EAP scorers build (for the latent density, "
     "while an item is re-estimated, for abilities, AIC and BIC) holds each item exactly once: none is left out, none is counted twice, and each item's probability is computed from its own answers and its own parameters. "
     "While one item is re-estimated its old probability is replaced (taken out at the parameter values it was multiplied in with, and put back at the new values), the others stay; "
     "the product is started afresh whenever it is rebuilt, and the density at the quadrature nodes is applied once.",
     ["inputs", "histories"], "for every dataset, number of items and number of passes over the items",
     "An item that is counted twice or kept at an old value shifts the estimates by less than the tolerances of the tests, which have five or more items and one pass in mind.",
     [U + "polytomous/grm_mml.py", U + "polytomous/grm_mml_eap.py", U + "polytomous/pcm_mml.py", U + "polytomous/gum_mml.py", U + "dichotomous/threepl_mml.py", U + "dichotomous/rasch_mml.py", U + "dichotomous/ability_estimation.py",
      M + "multidimensional_mml_methods.py", M + "multidimensional_ability_methods.py"],
     [("building", "partial_int *= ... over the items"), ("replacing", "partial_int /= old_values, partial_int *= new_values"), ("using", "sums over the nodes of partial_int")])

# ------------------------------------------------------------------ declined
prop("C90", "Item parameters are recovered as samples grow",
     "For data generated by a model, the estimator for that model converges to the generating item parameters as the number of respondents grows.",
     ["inputs"], "for all parameter sets and sample sizes", "Tests check a tolerance on a few simulated datasets.",
     EST, [("estimators", "all")])
prop("C91", "Category probabilities are non-negative and sum to one",
     "For all item parameters and abilities the modelled probabilities of an item's categories are non-negative and sum to one.",
     ["inputs"], "for all parameters and abilities", "Tests sample a few parameter values.",
     ["synthetic/polytomous.py", U + "polytomous/partial_integrals_poly.py", U + "dichotomous/partial_integrals.py", M + "partial_integral_md.py"], [("probability kernels", "as listed")])
prop("C92", "Minimisers reach the global optimum of their objective",
     "The point returned by each numerical minimisation is the global optimum of the likelihood within the stated bounds.",
     ["inputs"], "for all datasets", "Tests check a few datasets.", EST, [("scipy minimisers", "all estimators")])
prop("C93", "Expected a posteriori integrals are accurate",
     "Quadrature with the requested size approximates posterior means to a stated accuracy for all item parameters inside the bounds.",
     ["inputs"], "for all parameters and grids", "Tests check a few grids.", ABL, [("quadrature", T + "utils.py: _get_quadrature_points")])
prop("C94", "Factor extractions reproduce the correlation matrix",
     "Loadings and unique variances returned by each extraction method reproduce the input matrix as well as that method's criterion allows, and unique variances stay positive.",
     ["inputs"], "for all correlation matrices", "Tests check a few matrices.",
     ["factoranalysis/pca.py", "factoranalysis/paf.py", "factoranalysis/minimum_rank.py", "factoranalysis/maximum_likelihood.py"], [("extraction", "as listed")])
prop("C95", "Procrustes rotation is orthogonal and least squares",
     "The returned rotation is orthogonal and minimises the squared distance to the target.",
     ["inputs"], "for all matrix pairs", "Tests check a few pairs.", ["common/procrustes.py"], [("svd product", "procrustes_rotation")])
prop("C96", "Hyperspherical angle conversion round-trips",
     "Converting angles to a unit vector and back returns the angles, including at the poles and for negative last components.",
     ["inputs"], "for all angle vectors", "Tests check a few vectors.", ["common/hypersphere.py"], [("conversion pair", "hyperspherical_vector / hyperspherical_angles")])
prop("C97", "Bootstrap intervals have nominal coverage",
     "The 95% intervals contain the true parameter in about 95% of repeated experiments.",
     ["inputs"], "for all models and sample sizes", "Tests are skipped.", [T + "bootstrap_errors.py"], [("percentile intervals", "standard_errors_bootstrap")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
