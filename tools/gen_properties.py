"""Writes properties.jsonl (one object per line) from the table below."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": observe, "hook_needed": None},
    })


SAF = "esat/model/sa.py"
prop("P01", "Least-squares NMF iterations descend and keep factors non-negative",
     "For every strictly positive data and uncertainty matrix, every iteration of the least-squares NMF algorithm turns non-negative factor matrices without an all-zero factor into finite non-negative ones and never increases the uncertainty-weighted squared residual beyond rounding. "
     "One iteration is exactly the published multiplicative update: profiles first, from the current contributions, then contributions from the new profiles, with the weights entering as one over the squared uncertainty.",
     ["inputs", "histories"], "all V>0, U>0, non-negative starting W and H (no all-zero column of W or row of H), all factor counts, all iterations of a run",
     "The tests train one dataset and look only at 'a result exists'; descent and non-negativity are claims about every iteration on every matrix.",
     ["esat/model/ls_nmf.py", SAF], [("multiplicative update", "esat/model/ls_nmf.py LSNMF.update"), ("weights", "esat/model/sa.py SA.__init__ (We)")],
     ["LSNMF.update arguments and result", "SA.W, SA.H, SA.q_list after train"])
prop("P02", "Weighted semi-NMF iterations solve contributions exactly and descend",
     "For every data matrix (negative values allowed) with positive uncertainties, each weighted semi-NMF iteration leaves the profiles non-negative, computes for every sample the contributions that minimise the uncertainty-weighted squared residual for the profiles it was given, and moves the profiles by the weighted semi-NMF multiplicative square-root rule for those contributions. "
     "Consequently the loss with the new contributions and the same profiles is never larger than with the previous contributions, and a least-squares request on data with negative values is run with this algorithm.",
     ["inputs", "histories"], "all V (any sign), U>0, H>=0, all factor counts, all iterations",
     "The only test of this algorithm trains one positive dataset and fails or passes on completion; optimality and sign claims range over all inputs.",
     ["esat/model/ws_nmf.py", SAF], [("per-row weighted normal equations", "esat/model/ws_nmf.py WSNMF.update"), ("square-root multiplicative step", "esat/model/ws_nmf.py WSNMF.update")],
     ["WSNMF.update arguments and result", "SA.W, SA.H, SA.q_list"])
prop("P03", "Held profiles stay bit-identical until released, for either algorithm",
     "While training is asked to hold the factor profiles, the profile matrix stays bit-identical to the starting one and only contributions move, for both algorithms; without a delay it is held for the whole run. "
     "With a delay of d>0 the profiles stay held while the zero-based iteration number is at most d and move in every later iteration, and without holding they move in every iteration.",
     ["inputs", "configurations", "histories"], "all datasets, both algorithms, all hold/delay/iteration-limit combinations",
     "No test uses holding; bootstrap, displacement and constrained runs depend on the combination of flag, delay and iteration limit.",
     [SAF, "esat/model/ls_nmf.py", "esat/model/ws_nmf.py"], [("hold/delay switch", "esat/model/sa.py SA.train"), ("skip of the H update", "esat/model/ls_nmf.py LSNMF.update")],
     ["H before/after SA.train for each max_iter", "H after every update step"])
prop("P04", "Reported model results are exactly those of its factor matrices",
     "After every completed training run the reported reconstruction equals contributions times profiles, the reported true loss equals the sum of squared uncertainty-scaled residuals of that reconstruction, and the reported robust loss equals the same sum with every scaled residual above the cut-off alpha replaced by sqrt(alpha*residual), so it never exceeds the true loss. "
     "The recorded loss history has one entry per executed iteration, its last entry is the reported true loss, and the recorded metadata (limits, seed, method, dimensions) are the ones actually used. The printed summary states these same values.",
     ["inputs", "configurations", "histories"], "all datasets, methods, iteration limits, robust cut-offs, also after repeated training of one model",
     "Tests compare nothing against the matrices; a stale reconstruction or loss only shows for particular histories (retraining, early stop).",
     [SAF, "esat/metrics.py"], [("final bookkeeping", "esat/model/sa.py SA.train tail"), ("loss definitions", "esat/metrics.py q_loss, qr_loss, q_factor, calculate_Q")],
     ["SA.WH, Qtrue, Qrobust, q_list, metadata after train", "metrics functions"])
prop("P05", "Training stops at the first converged iteration and not before",
     "A run executes at most the iteration limit and stops early exactly at the first iteration whose loss improved by less than the convergence tolerance over the last window of the requested number of recorded losses (the newest and the ones before it), once more losses than that have been recorded; a loss that is not a number also ends the run. "
     "The converged flag is set if and only if the tolerance was met, and the reported matrices are those of the stopping iteration.",
     ["inputs", "configurations", "histories"], "all datasets, tolerances, windows, limits",
     "One test runs with one tolerance; the stop rule is a relation over the whole loss history.",
     [SAF], [("sliding window", "esat/model/sa.py SA.train")], ["SA.q_list, SA.converged, SA.converge_steps", "state after train(max_iter=k)"])
prop("P06", "Same seed gives the same model and caller data is never modified",
     "Creating, initialising and training a model with the same data, settings and seed always gives bit-identical factor matrices and losses regardless of global random state or other models trained in between, while different seeds start from different matrices. "
     "The data, uncertainty and starting matrices passed by the caller are never modified.",
     ["inputs", "histories", "configurations"], "all datasets, seeds, methods, initialisation kinds; interleavings of several models",
     "Tests train each configuration once; reproducibility compares pairs of runs and aliasing needs the caller's arrays to be inspected.",
     [SAF, "esat/model/ls_nmf.py", "esat/model/ws_nmf.py"], [("per-model generator", "esat/model/sa.py SA.__init__ rng"), ("input conversion", "esat/model/sa.py SA.__init__/initialize")],
     ["SA.W, SA.H after initialize/train", "caller's arrays before/after"])
prop("P07", "Invalid model inputs are refused and valid ones accepted",
     "A model whose data, uncertainty or starting matrices contain missing values, whose uncertainty contains negative values, whose data and uncertainty shapes differ, or whose starting contributions have the wrong shape is never trained: initialisation raises an error or training reports failure, and the factor matrices and results stay untouched. "
     "Every data matrix of finite values with same-shaped non-negative uncertainties is accepted and trained, zero uncertainties being replaced by a tiny positive number.",
     ["inputs", "configurations"], "all placements of a bad value, all dimensions, both methods",
     "No test feeds an invalid matrix; the claim is about every position and kind of bad value.",
     [SAF], [("validation", "esat/model/sa.py SA.__validate"), ("uncertainty floor", "esat/model/sa.py SA.__init__")],
     ["return value of SA.train", "SA.W/H/WH/Q* after a refused train"])
prop("P08", "Model start: given matrices are used, generated ones are valid",
     "A starting profile or contribution matrix of the right shape given by the caller is the one training starts from, except that non-positive profile entries are raised to a tiny positive number; a partial set of profiles fills the first rows (up to one common scale per feature) and the remaining factors are generated. "
     "Generated starts have the right shape, are finite, have strictly positive profiles and (for least-squares NMF) strictly positive contributions: normal deviates times the square root of the mean of the feature (sample) over the factor count, non-positive ones floored, or the centroids and memberships of k-means clusters of the data (normalised on request).",
     ["inputs", "configurations"], "all datasets, factor counts, supplied/partial/absent W and H, column-mean and k-means initialisation",
     "Tests only check that initialisation does not raise for two settings.",
     [SAF], [("initialisation", "esat/model/sa.py SA.initialize")], ["SA.W, SA.H after initialize", "matrices entering the first update"])
prop("P09", "Saved models reload to the same model and text exports match it",
     "Saving a model to a binary file and loading it back yields the same matrices, losses, history and metadata, and the reloaded model continues exactly like the original. "
     "The text exports parse back to the model's profiles, contributions, reconstruction and residuals with the right feature and factor headers, with or without headers being given, and saving to or loading from a relative or missing path is refused without writing anything.",
     ["inputs", "configurations", "histories"], "all trained models, header or none, every path kind",
     "The save test checks that a path is returned for one case; fidelity of contents is never compared.",
     [SAF, "esat/utils.py"], [("save/load", "esat/model/sa.py SA.save, SA.load"), ("json encoding", "esat/utils.py np_encoder")],
     ["files written by SA.save", "object from SA.load"])
prop("P10", "A batch contains every requested model in order and points at the best",
     "A batch run returns exactly the requested number of models, the i-th created from the i-th seed of the batch, each individually equal to training that model alone with the batch's settings, and the reported best model is the one with the smallest loss of the selected kind. "
     "Parallel and sequential execution of the same batch give the same models in the same order with the same best model, whatever order the workers finish in; the log and the progress reports carry the models' own figures. A batch whose start matrices do not fit the dataset reports failure with a message.",
     ["schedules", "configurations", "inputs"], "all batch sizes, seeds, worker finishing orders, parallel or sequential, best by true or robust loss",
     "No stable test runs a batch; worker completion order cannot be sampled by a test.",
     ["esat/model/batch_sa.py"], [("pool collection and ordering", "esat/model/batch_sa.py BatchSA.train"), ("best-model selection", "esat/model/batch_sa.py BatchSA.train")],
     ["BatchSA.results, best_model after train", "SA objects built by workers"])
prop("P11", "A saved batch reloads to the same batch and exports every model",
     "A saved batch loads back with the same settings, models, losses and best model; exporting it model by model writes one set of files per model, each parsing back to that model's matrices. "
     "Saving to a relative or missing directory, or loading a missing file, is refused without writing anything.",
     ["inputs", "configurations", "histories"], "all batches, both export forms, every path kind",
     "Not tested; fidelity ranges over all batches.", ["esat/model/batch_sa.py", SAF], [("save/load", "esat/model/batch_sa.py BatchSA.save, BatchSA.load")],
     ["files written by BatchSA.save", "object from BatchSA.load"])
prop("P12", "Prepared data stays aligned, cleaned and category-consistent",
     "From any two equally labelled tables of data and uncertainty, in memory or in comma or tab separated or Excel files, the prepared matrices contain exactly the samples without a missing value in either and exactly the selected features, row for row and column for column, with zeros replaced by a tiny positive value and the index labels kept. "
     "Marking features bad removes exactly those columns, weak triples exactly their uncertainty, strong restores them, in any order and any number of times, without changing the source tables; unknown features or categories are refused and change nothing.",
     ['inputs', 'histories'], "all tables with missing/zero values in either table, dropped and location columns, all sequences of category changes and data requests",
     "The tests load one clean file; alignment and idempotence depend on where values are missing and on the history of calls.",
     ["esat/data/datahandler.py"], [("row filter and column selection", "esat/data/datahandler.py DataHandler._set_dataset, _set_data, get_data, set_category")],
     ["DataHandler.get_data result", "input_data_df / uncertainty_data_df"],
     [("metrics['Category']", "per-feature category", "DataHandler")])
prop("P13", "Feature statistics describe the loaded data",
     "The per-feature statistics of a loaded dataset (signal-to-noise ratio, minimum, quartiles, maximum) equal their definitions over the loaded (and merged) values of the features, location and dropped columns excluded: signal to noise is the mean over the loaded samples of (value-uncertainty)/uncertainty, a sample whose value does not exceed its uncertainty counting as zero. "
     "They do not depend on the order of the samples, every feature starts as strong, and the suggested bootstrap block size is the whole part of the average over the features of the best circular block length (Politis and White), from one to the number of samples.",
     ['inputs'], "all datasets",
     "No test looks at the numbers.", ["esat/data/datahandler.py"], [("metrics", "esat/data/datahandler.py DataHandler._determine_metrics")],
     ["DataHandler.metrics"])
prop("P14", "Splitting and merging site datasets loses no sample",
     "Splitting a dataset by its location columns returns one dataset per distinct location (samples without one make up their own) which together hold every sample exactly once, each with its own data, uncertainty and index label, in the original order and without the location columns. "
     "Merging datasets with the same features keeps every sample of every source once, labelled with its source and with data and uncertainty still aligned, so that the merged data can be prepared for a model and split back into the sources; mismatching features or labels are refused without changing anything.",
     ['inputs', 'histories'], "all numbers of sites, sizes, numeric and textual locations, overlapping index labels, missing values",
     "Not tested; conservation ranges over all partitions.", ["esat/data/datahandler.py"], [("merge/split", "esat/data/datahandler.py DataHandler.merge, split_locations")],
     ["split results against the source tables"])
prop("P15", "Imputation fills every gap and leaves observed values alone",
     "Whatever the method and the marker for missing values, imputing the features of a dataset leaves every observed data value and every observed uncertainty unchanged and fills every missing one with a finite number, which for the simple methods is the mean, median or most frequent observed value of its feature and for the nearest-neighbour method the (weighted) mean of the nearest samples. "
     "The results keep the shape, labels and order of the loaded tables, the reported mask marks exactly the cells missing in either table, the same seed reproduces the result, and the loaded tables are not modified.",
     ["inputs", "configurations"], "all missing patterns, all imputation methods and missing markers",
     "Existing tests of the imputer mostly fail on this tree; none compares observed cells.", ["esat/data/impute.py"], [("imputers", "esat/data/impute.py DataImputer")],
     ["returned tables"])
prop("P16", "Bootstrap resamples whole aligned blocks and accounts for every run",
     "Every bootstrap dataset consists of rows of the original data with their own uncertainties, taken as consecutive blocks of the block size and cut to the original number of samples, every block of the data being eligible. "
     "Each run's model is the one that training on these rows gives; each of its factors is either mapped to the base factor with the highest squared correlation, when that reaches the threshold, or counted as unmapped, so that the mapping table of every bootstrap factor adds up to the number of runs. "
     "The base model is not modified.",
     ["inputs", "configurations", "histories"], "all datasets, block sizes, overlap on/off, thresholds, seeds, numbers of runs",
     "No test covers error estimation; conservation over all runs needs every resample to be observed.",
     ["esat/error/bootstrap.py"], [("block resampling", "esat/error/bootstrap.py Bootstrap._block_resample, _resample"), ("mapping", "esat/error/bootstrap.py Bootstrap.map_contributions")],
     ["SA inputs created per run", "Bootstrap.bs_results, mapping_df"])
prop("P17", "Bootstrap tables, intervals and figures are the statistics of the runs",
     "For every factor the collected bootstrap profiles, profile shares and mass contributions are those of that factor in each run, one entry per run in run order, and the reported mean, deviation, percentiles, interquartile flags, robust losses and plotted boxes are those of the collection. "
     "The same seed gives the same results in sequential and parallel execution, whatever order the workers finish in, and a saved bootstrap loads back with the same results.",
     ["inputs", "schedules", "configurations"], "all bootstrap runs, finishing orders and seeds", "Not tested at all.",
     ["esat/error/bootstrap.py"], [("factor statistics", "esat/error/bootstrap.py Bootstrap._calculate_factors, _build_table"), ("pool collection", "esat/error/bootstrap.py Bootstrap._train")],
     ["Bootstrap tables after run"])
prop("P18", "Displacement bounds keep the loss change within the allowed limit",
     "Each displacement changes one profile element of the base solution, in the stated direction, and its recorded loss change is the one these displaced profiles have with the base contributions; at a minimum of the loss it lies within the tolerance below the allowed change, unless the search limit was used up or a decreased element reached zero. "
     "One result exists for every factor, selected feature, direction and allowed change, and its swap flag and loss drop are those of a refit started from the displaced profiles. "
     "The base model is not modified.",
     ["inputs", "configurations", "histories"], "all base models, feature subsets, search limits and tolerances",
     "Not tested; the bound is a claim about a search over refits.", ["esat/error/displacement.py"], [("bisection", "esat/error/displacement.py Displacement._increase_disp, _decrease_disp")],
     ["every SA refit made during the search", "Displacement.increase_results, decrease_results, compiled_results"])
prop("P19", "Displacement tables attribute results to the right factor and limit",
     "The displacement swap counts, swap percentages, interval table, figures and saved files attribute every result to the factor, feature and allowed loss change it was computed for, in every execution mode and whatever order parallel workers finish in, and parallel and sequential runs agree. "
     "Each interval runs from the decreased to the increased profile share (and concentration) at that allowed change and contains the base value, features not selected keep their base value, and the reported drop is the largest decrease of the loss in the two refits.",
     ["schedules", "inputs", "configurations"], "all worker finishing orders, base models, feature subsets", "Not tested; completion order cannot be sampled by a test.",
     ["esat/error/displacement.py"], [("compile", "esat/error/displacement.py Displacement._compile_results, summary")], ["count_table, swap_table, compiled_results, summary output"])
prop("P20", "Bootstrap-displacement aggregates every bootstrap run exactly once",
     "The combined bootstrap-displacement analysis performs, for every bootstrap run, the displacement of the selected features of that run's model, and its interval (lowest minimum, highest maximum, mean value), swap, count and drop totals include each run exactly once. "
     "Sequential and parallel execution give the same aggregate, whatever order the workers finish in; its figures and saved files show that aggregate.",
     ["schedules", "inputs", "configurations"], "all numbers of bootstrap runs, features, execution modes", "Not tested; the module cannot even be imported without the compiled extension.",
     ["esat/error/bs_disp.py"], [("compile", "esat/error/bs_disp.py BSDISP.__compile_results, run")], ["BSDISP.compiled_results, count/swap tables against the per-run Displacements"])
prop("P21", "Constraint and expression bookkeeping matches what was requested",
     "Adding, listing and removing constraints and expressions on a solution keeps exactly the requested valid ones, each labelled with the factor and the feature or sample it targets, and refuses requests with unknown kinds or targets, out-of-range indices, missing parameters or an already constrained element without changing what is stored. "
     "An expression is parsed into exactly the coefficients, targets and allowed loss change written in it. The evaluation tables list exactly the stored constraints and expressions with the base and solution values of the elements they target.",
     ["histories", "inputs"], "all sequences of add/remove/list requests, all valid and invalid requests", "Not tested.",
     ["esat/rotational/constrained.py"], [("bookkeeping", "esat/rotational/constrained.py ConstrainedModel.add_constraint, remove_constraint, add_expression")], ["constraints, expressions after each operation"])
prop("P22", "Constrained solutions honour the constraints within their loss budget",
     "A constrained run starts from the base solution and leaves it untouched, and every update of it starts from matrices in which elements set to zero are zero, elements fixed to base hold the base value, limited elements are inside their limits, pulled elements moved in the requested direction (never past the requested value) by an amount whose own loss cost stays within the budget, and all other elements are unchanged. "
     "Elements of an expression are moved towards satisfying it only as far as the loss stays within the allowed change above the base. The run reports the losses, reconstruction, stopping step and loss history of its own matrices, and under ls-nmf profile elements set to zero end at zero.",
     ["inputs", "configurations", "histories"], "all base solutions, constraint kinds, targets, softness and budgets", "Not tested.",
     ["esat/rotational/constrained.py"], [("constraint application", "esat/rotational/constrained.py ConstrainedModel.train")], ["constrained_model W/H/Q, base_model before/after"])
prop("P23", "Factor-count estimation holds out its test cells and reports their errors",
     "For every factor count the estimator trains on a random subset of cells and measures the error on the cells it did not train on, and the per-count train and test errors it reports are the means over exactly the samples run for that count. "
     "Every requested sample is run once for a factor count inside the requested range, counts appear in order, the error ratio column is derived from those means, and the input data are not modified.",
     ["inputs", "schedules", "configurations"], "all datasets, ranges, sample counts, worker orders", "Not tested; held-out accounting needs each worker's masks to be observed.",
     ["esat/estimator.py"], [("sampling", "esat/estimator.py FactorEstimator._random_sample, run")], ["masks/weights used by each sample", "results table"])
prop("P24", "Simulated datasets obey their generating model",
     "A simulated dataset equals contributions times profiles perturbed only by the requested relative noise and by outliers of the requested magnitude on about the requested fraction of cells, with strictly positive data and uncertainty in the requested relative range, and the exposed true factors are the ones used. "
     "The same seed and call history reproduce it exactly, customised profiles and contribution curves are honoured within their bounds, and what is saved reloads to the same data.",
     ["inputs", "configurations", "histories"], "all dimensions, seeds, noise/outlier settings, sequences of contribution updates", "No test uses the simulator's numbers; statistics need many cells.",
     ["eval/simulator.py"], [("generation", "eval/simulator.py Simulator._generate_data, generate_profiles, update_contribution")], ["syn_data/uncertainty/profiles/contributions frames", "saved files"])
prop("P25", "Factor matching finds the best one-to-one assignment",
     "Comparing models with known factors assigns each factor to a distinct counterpart so that the average squared correlation (of profiles, contributions, reconstructed masses, or all) is maximal over all assignments, reports that average and its per-factor values, and names the best model over the batch. "
     "Permuting the factors of a model permutes the mapping and changes nothing else. "
     "The factor map between a base model and other models and the comparison figures follow the same rule for each similarity measure (relative error, profile or contribution correlation).",
     ["inputs", "configurations"], "all factor counts, models, selection methods, factor permutations", "Not tested; optimality ranges over all permutations.",
     ["eval/factor_comparison.py"], [("permutation search", "eval/factor_comparison.py FactorCompare.compare"), ("assignment", "eval/factor_comparison.py FactorCompareV2.determine_map")], ["model_results, factor_map, best_model, determine_map result"])
prop("P26", "Uncertainty perturbation touches only the selected share of cells",
     "A perturbed uncertainty matrix equals the original times the reported multipliers, differs from it only on a random subset of cells of about the requested percentage per feature, stays positive, is reproducible from its seed, and leaves the original unchanged. "
     "Every perturbed model starts from the base solution and is trained with its own perturbed uncertainty. "
     "The comparison tables and figures describe exactly those models, their factors matched one to one with the base.",
     ["inputs", "configurations", "schedules"], "all datasets, percentages, sigmas, seeds", "Not tested.",
     ["eval/perturbation.py"], [("perturb", "eval/perturbation.py Perturbation.perturb, run")], ["perturb() result", "perturbed_models, perturbed_multipliers"])
prop("P27", "The factor catalog accounts for every factor of every model once",
     "Cataloguing a batch of models files every factor of every included model exactly once, either into the most similar existing entry that meets the similarity threshold or as a new entry, and excludes exactly the models whose loss exceeds the outlier limit. "
     "Entry counts and occurrence percentages are relative to the number of models catalogued, and a search reports the most similar entry by the chosen measure.",
     ["inputs", "histories", "configurations"], "all batches, similarity measures, thresholds, insertion orders", "Not tested.",
     ["eval/factor_catalog.py"], [("add", "eval/factor_catalog.py FactorCatalog.add_factor, add_batch")], ["catalog entries and table after each addition"])
prop("P28", "The full workflow runs without the compiled extension",
     "With the optional compiled extension absent, every documented workflow (single and batch models with both algorithms, bootstrap, displacement, combined error estimation, constrained models, factor estimation, simulator comparison) is importable and completes on valid data using the reference implementation. "
     "A completed batch or error analysis reports finite results for every model and factor.",
     ["configurations", "inputs"], "all workflow entry points, both algorithms, parallel and sequential", "The stable tests avoid every module that needs the extension.",
     [SAF, "esat/model/batch_sa.py", "esat/error/bs_disp.py"], [("fallback", "esat/model/sa.py SA.__init__ except ModuleNotFoundError")], ["import and end-to-end run of each workflow"])
prop("P29", "Analysis tables and figures show the model's own numbers",
     "The numbers in the analysis tables and figures for a model (feature statistics and residual tests, residuals, observed/predicted values, factor profiles and percentages, contributions, loss curves and distributions) equal their definitions computed from that model's matrices and dataset. "
     "Aggregating a long series for plotting preserves per-bin means and never changes the model or the dataset.",
     ["inputs", "configurations"], "all models, features, factors, series lengths and time steps", "Not tested.",
     ["esat/data/analysis.py", "esat/data/datahandler.py", "esat/utils.py"], [("figures", "esat/data/analysis.py ModelAnalysis, BatchAnalysis"), ("time step", "esat/utils.py min_timestep")], ["figure trace data", "statistics tables"])
prop("P30", "The combined error summary shows every method's own interval",
     "For every factor, the combined error summary shows one bar per supplied method (bootstrap, displacement, combined) that spans exactly the lowest to the highest contribution this method found for every feature, and marks the base model's own contribution of that factor. "
     "Factors outside the model are refused without a figure, and drawing a summary changes neither the models nor the analyses.",
     ["inputs", "configurations"], "all base models, factors, method combinations, selected features", "Not tested.",
     ["esat/error/error.py"], [("summary", "esat/error/error.py Error.plot_summary")], ["captured figure: bar base and height per feature, base marks"])
prop("P31", "Every command does what the project's configuration says",
     "Given a project directory, the run, estimate, run-error, run-constrained and simulator commands compute and save exactly what the library computes from the project's data with the configured typed values. "
     "Every analysis command shows exactly the figures of the saved results for the chosen model, factor and feature. "
     "A missing or invalid selection produces a message and shows or writes nothing in place of a result.",
     ["inputs", "configurations", "history"], "all projects, configurations, command sequences", "One command is imported; none is run.",
     ["esat/cli/esat_cli.py", "esat/configs.py"], [("commands", "esat/cli/esat_cli.py"), ("configurations", "esat/configs.py DataHandlerConfig, ModelConfig, ErrorConfig, ConstrainedModelConfig")], ["saved pickles and captured figures against the library run on the same data"])
prop("P32", "The compiled engine trains the same models as the reference one",
     "With the compiled extension in place, training performs the same published iterations as the reference implementation (within single precision), whatever the memory order of data and start, held or delayed profiles, zero features or samples, or model number. "
     "The run stops at the first iteration at which the configured number of losses is recorded and the newest is less than the tolerance below the oldest of them, and the loss history, final losses, converged flag, step count and progress reports it returns describe exactly the returned factors. "
     "Every workflow built on training gives what it promises with either engine, and an update given by the caller is the one run.",
     ["inputs", "configurations", "history"], "all datasets, starts, memory layouts, tolerances, windows, workflows", "The stable tests cannot import the extension.",
     ["rust/lib.rs", SAF], [("iterations", "rust/lib.rs ls_nmf_update_cpu, ws_nmf_update_cpu"), ("conversion", "esat/model/sa.py SA.train, rust/lib.rs ls_nmf, ws_nmf")],
     ["SA.W/H after every shorter limit, q_list, converged, progress callback arguments"])
prop("P33", "Saved results reload whole in any process, or are refused",
     "Every saved result (model, batch, bootstrap, displacement, combined analysis, constrained model, simulator), loaded in the same or in another process, has every stored value of the original; saving neither changes the original nor touches other files. "
     "A file that is missing, incomplete (a save interrupted at any byte) or of another kind, and a relative or missing directory, is answered with the documented failure value and nothing is written. "
     "A save that could not write all of its data is never reported as done.",
     ["crash points", "inputs", "history"], "all saved objects, names, cut points, damaged files and disk limits", "Not tested.",
     [SAF, "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py", "esat/rotational/constrained.py", "eval/simulator.py"],
     [("save and load", "save() and load() of SA, BatchSA, Bootstrap, Displacement, BSDISP, ConstrainedModel, Simulator")], ["state of the reloaded object, return values, directory contents"])
prop("P34", "Comparison figures show every solution's own matched numbers",
     "For a reference solution and two models of the same data with a matching of their factors, every comparison figure shows, for every solution, the numbers of its own profiles and contributions: shares per feature, matched profiles side by side under their own factor names, the modelled series of the matched factor and of the sum of all factors, and the residuals with their range, mean and count beyond the threshold. "
     "Every feature can be chosen by name or position, and drawing changes none of the solutions.",
     ["inputs", "configurations"], "all solutions, matchings, features, numbers of factors", "Not tested.",
     ["esat/data/test_tools.py"], [("comparison figures", "esat/data/test_tools.py CompareAnalyzer")], ["captured figures against the three solutions"])
(Path(__file__).resolve().parent.parent / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
