import json
COV="regain/covariance/"
def P(id,title,statement,over,qtext,why,files,mech):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
L=[]
L.append(P("R01","The outcome of a fit never depends on what was run before it",
"Fitting an estimator on given data with given parameters gives the same fitted attributes and the same answers from later read-only calls as a brand-new estimator fitted once in a fresh process, whatever was done before: earlier fits on other data or shapes, interrupted fits, parameter changes, cloning, copying or pickling, other estimators, or perturbed random streams. A fit, finished or interrupted, never alters a parameter the user set, and a read-only call never alters the fitted state.",
["histories","inputs","fault_sequences"],
"every sequence of operations on any set of estimators of the library, with every parameter setting and data shape, including operations cut short at any point",
"tests fit each estimator once on one data set; leftovers (overwritten parameters, stale attributes, caches) show only in particular sequences of two or more operations",
[COV+"*.py","regain/forward_backward/time_graphical_lasso_.py","regain/generalized_linear_model/*.py","regain/linear_model/group_lasso_overlap_.py","regain/bayesian/wishart_process_.py","regain/discriminant_analysis.py"],
[("fit of every estimator class",COV+"time_graphical_lasso_.py:fit and its subclasses"),("parameters kept as given","regain/covariance/kernel_time_graphical_lasso_.py:SimilarityTimeGraphicalLasso.fit, regain/forward_backward/time_graphical_lasso_.py:fit")]))
L.append(P("R02","Caller-owned arrays are never modified, not even temporarily",
"Data, labels, starting points, kernels, groups and other arrays or lists handed to an estimator, solver or sampler are never modified by it: at every instant of the call they hold exactly the values the caller put there, so an interrupted call leaves them intact too and read-only arrays are accepted wherever writable ones are. What the call returns or stores does not share memory that would let a later operation on the estimator change the caller's arrays, or a later change of the caller's data arrays change a fitted result.",
["inputs","fault_sequences","schedules"],
"every estimator, parameter setting, memory layout (contiguous, Fortran, strided, read-only) and dtype, at every executed line",
"a test compares inputs at most after a successful call, on one layout; modification on a rare branch, modification followed by restoration, or aliasing is invisible to it",
[COV+"*.py","regain/linear_model/group_lasso_overlap_.py","regain/datasets/ising.py","regain/generalized_linear_model/*.py"],
[("copying on entry",COV+"time_graphical_lasso_.py:fit, init_precision"),("samplers","regain/datasets/ising.py")]))
L.append(P("R03","Concurrent fits in one process do not influence one another",
"Estimators fitted at the same time in different threads of one process, each thread using its own estimator object, give each the result it would give alone, however the threads are interleaved and even when they read the same input arrays. A thread that is interrupted or fails does not change the result of the others.",
["schedules","inputs","fault_sequences"],
"every interleaving, at the granularity of executed lines and calls, of two or three fits (same or different classes, non-random estimators) and every parameter setting",
"tests are single-threaded, and a real threaded test samples a handful of interleavings the interpreter happens to pick",
[COV+"*.py","regain/update_rules.py","regain/utils.py","regain/prox.py"],
[("per-call state only: no module-level scratch, caches or shared defaults","regain/update_rules.py, "+COV+"*.py, regain/prox.py")]))
L.append(P("R04","Parallel work gives the sequential result under every schedule",
"Anything the library runs through parallel jobs (group lasso with many targets, stability selection, grid search over its estimators) gives the same result for every number of jobs, every batching, and every order in which tasks are started, delayed and completed. A worker failure surfaces as an exception, never as a partial or wrong result, and a repeated call after it gives the normal result.",
["schedules","fault_sequences","configurations"],
"every number of jobs, completion order, interleaving of tasks and single worker failure",
"tests run with one job, so no task is ever reordered, delayed or lost",
["regain/linear_model/group_lasso_overlap_.py","regain/model_selection/stability_optimization.py"],
[("Parallel over targets","regain/linear_model/group_lasso_overlap_.py:GroupLassoOverlap.fit"),("Parallel over candidates and folds","regain/model_selection/stability_optimization.py:GraphicalModelStabilitySelection.fit")]))
L.append(P("R05","Calls leave no trace in process-wide state",
"After any call into the library - whether it succeeded, failed on bad input, or was interrupted at an arbitrary point - process-wide settings are as before: warning filters, numpy error handling and print options, standard streams and their file descriptors, working directory, environment, logging configuration, recursion and garbage-collector settings, and (for every estimator documented as deterministic) the global random streams. Importing the library does not change them either.",
["fault_sequences","inputs","histories"],
"every estimator and parameter setting, single-threaded, with an exception injected at any executed line or none",
"tests never look at process-wide state and never interrupt a call between a setting's change and its restoration",
[COV+"*.py","regain/utils.py","regain/generalized_linear_model/glm_ising.py","regain/model_selection/stability_optimization.py"],
[("suppress_stdout","regain/utils.py:suppress_stdout"),("warning handling","regain/generalized_linear_model/glm_ising.py, regain/model_selection/stability_optimization.py")]))
L.append(P("R06","An asynchronous failure is never swallowed into a wrong result",
"When a keyboard interrupt or an out-of-memory error strikes anywhere inside a call, it reaches the caller; if the call nevertheless returns normally, its result is exactly the fault-free one. Failures raised by the numerical routines below the library (singular matrices, failed decompositions, failed line searches) likewise either reach the caller or are handled without changing what a successful answer means.",
["fault_sequences","crash_points","inputs"],
"every estimator and parameter setting, every executed line and occurrence, both failure kinds, and every call of a numerical routine",
"tests inject no failures; a broad exception handler is invisible until a failure lands inside it",
[COV+"*.py","regain/bayesian/*.py","regain/forward_backward/time_graphical_lasso_.py","regain/prox.py"],
[("exception handlers","regain/bayesian/wishart_process_.py, regain/bayesian/wishart_distribution_.py, regain/covariance/kernel_time_graphical_lasso_.py")]))
L.append(P("R07","Every solver path reaches the optimum of its penalised problem",
"Run to convergence, each convex estimator (graphical lasso, latent, time-varying, latent time-varying, kernel variants, matrix decomposition, forward-backward with the l1 or Laplacian time norm, overlapping group lasso by ADMM or active sets with one or several targets, the Gaussian, Poisson and Ising neighbourhood models, and the temporal Ising and Poisson models) returns the minimiser of its documented objective for the penalties laplacian, l1, l2, linf and node, whatever the starting point, the step-size and penalty-update schedule, over-relaxation, line-search choice, the order of samples, and however often the run was stopped at an iteration budget and resumed from the returned estimate. Estimated precision matrices are symmetric, wherever a covariance of the model is stored it is the inverse of the estimated precision, and latent components are positive semidefinite.",
["inputs","configurations","histories"],
"every data set, starting point, rho, rho-update options, over-relaxation, step-choice mode and sequence of iteration budgets used to stop and resume",
"tests check that a fit runs and returns arrays of some shape; none compares the answer with the optimum, nor across schedules",
[COV+"*.py","regain/forward_backward/time_graphical_lasso_.py","regain/linear_model/group_lasso_overlap_.py","regain/generalized_linear_model/*.py","regain/prox.py","regain/update_rules.py"],
[("ADMM loops",COV+"graphical_lasso_.py, time_graphical_lasso_.py, latent_*.py, kernel_*.py"),("forward-backward loop","regain/forward_backward/time_graphical_lasso_.py"),("rho update","regain/update_rules.py:update_rho")]))
L.append(P("R08","Iteration budgets and convergence claims are honest",
"A solver performs at most the requested number of iterations, stops as soon as its stopping criterion (or the requested target objective) is met, and - for the solvers that report convergence - warns about non-convergence exactly when it stopped on the budget without meeting the criterion. The trajectory does not depend on the budget: the records of a short run are a prefix of those of a longer one (except where an inner solver is documented to share the budget: the node penalty, the missing-data and the temporal GLM estimators). Recorded residuals, objective values and tolerances are those of the recorded iterates, and the returned estimate is the last of them. History recording, objective computation and verbose output never change the result or the warnings, whatever was run, interrupted or failed before.",
["histories","inputs","configurations"],
"every iterative estimator, budget, tolerance, and recording option",
"tests use one budget and never compare runs of different budgets, nor the warning with the criterion",
[COV+"*.py","regain/forward_backward/time_graphical_lasso_.py","regain/linear_model/group_lasso_overlap_.py"],
[("stopping test and else-clause warning",COV+"*.py for ... else: warnings.warn"),("Convergence records","regain/utils.py:convergence")]))
L.append(P("R09","Seeded data generation is reproducible whatever happened before",
"With the same random state or the same seeds of the global streams (numpy's and Python's), every documented data generator - make_dataset in all its modes, the classification set, the Meinshausen-Yuan, Ising and Poisson generators and samplers - returns bit-identical data regardless of what was generated or fitted earlier in the process, and different requests in between do not alter it. A generator or sampler given an explicit random state neither reads nor advances the global streams for what that state governs.",
["histories","inputs","configurations"],
"every generator and option set, every prior history of draws and generator calls, hash seed and number of earlier calls",
"tests call a generator once per process and check shapes",
["regain/datasets/*.py"],
[("make_dataset and generators","regain/datasets/base.py, regain/datasets/gaussian.py, regain/datasets/ising.py, regain/datasets/poisson.py")]))
L.append(P("R10","Generated data sets are well-formed for every random stream",
"For every random stream, including the extreme values it can legally produce, each default data generator either raises or returns a well-formed data set: precision matrices symmetric and positive definite, observed precisions equal to sparse minus latent part with a positive semidefinite latent part of at most the requested rank, covariances inverse to precisions, graphs symmetric without self-loops where promised and of the requested sparsity or edge count, samples of the requested number, dimension, labels and value range. Consecutive time points differ only by the evolution that was asked for.",
["inputs","fault_sequences","configurations"],
"every seed and every adversarial replacement of draws (minimum, maximum, repeated values) for every supported mode, size, number of latent variables and number of times",
"tests draw one seed per mode and check shapes; bad matrices appear for rare draws only",
["regain/datasets/gaussian.py","regain/datasets/ising.py","regain/datasets/poisson.py","regain/datasets/base.py","regain/datasets/multi_class.py"],
[("make_covariance and evolution generators","regain/datasets/gaussian.py"),("graph updates","regain/datasets/ising.py, regain/datasets/poisson.py")]))
L.append(P("R11","Bayesian chains record consistent samples and survive failed draws",
"In every run of the Wishart-process sampler, each recorded sample belongs together: its stored log-likelihood is that of its stored parameters, later steps never alter an earlier record, and the reported estimate is the recorded sample of highest likelihood after burn-in with its covariance and precision inverse to each other. Under any random stream, transient numerical failures of a draw are retried or raised, never turned into an inconsistent record, and the number of recorded samples is the requested one.",
["fault_sequences","histories","inputs"],
"every random stream, data set, hyper-parameter choice and sequence of transient draw failures",
"the tests run one short chain and check that it finishes; inconsistent records only show when each record is recomputed",
["regain/bayesian/wishart_process_.py","regain/bayesian/sampling.py"],
[("GWP_construct and sampling loop","regain/bayesian/wishart_process_.py:fit"),("elliptical slice sampling","regain/bayesian/sampling.py:elliptical_slice")]))
L.append(P("R12","Saved results are never lost, torn or silently altered",
"Saving a result either completes, after which loading gives back exactly what was saved (also after the process or machine crashes), or raises; no I/O error, full disk, short write or crash at any point leaves the previously saved file damaged, and a load never returns anything but a complete saved version. This holds for pickled results and for network files, including networks with isolated nodes, any labels the format allows, and non-negatively weighted edges, and when several threads save and load the same name.",
["crash_points","fault_sequences","histories"],
"every write/sync/rename/close of every save, every failure kind there (error, short or torn write, crash with unsynced data lost), every sequence of saves and loads",
"tests save once to a healthy disk",
["regain/utils.py"],
[("save_pickle, load_pickle, write_network, read_network","regain/utils.py")]))
L.append(P("R13","Each log record reaches each configured log exactly once",
"However often logging is initialised, with whatever levels, files and prior handlers or filters, every record at or above the level (INFO for the file; for the console INFO, or ERROR when not verbose) is written exactly once to the console and exactly once to the most recently configured file, which starts empty, and records are never written to files configured earlier. Records are complete lines in order, also when several threads log, and an initialisation that failed or was interrupted does not change this for the next one.",
["histories","schedules"],
"every sequence of initialisations and log calls, including failing initialisations, and every interleaving of logging threads",
"the tests never initialise logging twice",
["regain/utils.py"],
[("init_logger","regain/utils.py:init_logger")]))
L.append(P("R14","Stability selection follows its rule for every resampling",
"For every candidate, resampling and schedule, the reported instability of a candidate is computed from exactly the edge estimates of that candidate's subsamples, instabilities are monotonised along the candidates, which each grid lists from the largest parameter values to the smallest, and whenever some candidate's monotonised instability is at most 0.05 the chosen one is such a candidate (edge mode: the one of highest instability among them). The final model is the chosen candidate refitted on all data, and subsamples have the requested size and never mix time points.",
["inputs","schedules","histories"],
"every grid order, subsample draw, number of subsamples, threshold and parallel schedule",
"the repository has no test of stability selection at all",
["regain/model_selection/stability_optimization.py"],
[("GraphicalModelStabilitySelection.fit, global_instability, graphlet_instability, upper_bound","regain/model_selection/stability_optimization.py")]))
L.append(P("R15","Scores, criteria and structure metrics follow their definitions",
"Information criteria, likelihood scores, error norms and structure metrics equal their textbook definitions for every estimate and truth, and reward a better estimate more than a worse one.",
["inputs"],
"every pair of matrices and every data set",
"the tests evaluate a few fixed matrices",
["regain/scores.py","regain/utils.py"],
[("log_likelihood, BIC, EBIC","regain/scores.py"),("structure_error, error_norm","regain/utils.py")]))
L.append(P("R16","Elementary proximal operators and norms match their definitions",
"Taken by itself, each proximal operator returns the minimiser of its definition, and each norm the value of its definition, for every array, weight and layout.",
["inputs"],
"every array, weight and parameter",
"the tests evaluate a few fixed arrays",
["regain/prox.py","regain/norm.py"],
[("soft_thresholding, prox_logdet, prox_trace_indicator, prox_laplacian, prox_node_penalty","regain/prox.py"),("l1_norm, l1_od_norm, node_penalty","regain/norm.py")]))
L.append(P("R17","Bayesian updating does not depend on how the data arrived",
"Updating a normal-inverse-Wishart belief gives the textbook posterior whatever the split of the data into batches, their order, and the copies, pickling, parameter changes, draws and interrupted updates in between; the belief that is updated and the data are never altered. The densities, mean, mode, marginals, predictive distribution and draws of the Wishart, inverse-Wishart and normal-inverse-Wishart distributions are those of their current parameters, and draws depend on nothing but parameters and random stream.",
["histories","fault_sequences","inputs"],
"every history of updates, copies, parameter changes, draws and interruptions, and every split and order of the data",
"the repository has no test of these distributions at all",
["regain/bayesian/wishart_distribution_.py"],
[("NormalInverseWishartDistribution.posterior","regain/bayesian/wishart_distribution_.py:posterior")]))
L.append(P("R18","Bayesian structure selection returns the best of the graphs it sampled",
"Whatever blankets the random draws pick, and whatever ran or was interrupted before, Bayesian graphical lasso returns the mean of the posterior-mode precisions of the top_n best-scoring sampled graphs. Blankets are drawn with probabilities proportional to exp(sum of the lasso R^2 of the node on its blanket), a sampled graph has an edge only where both ends chose it, the precision of a graph is the mode of its G-Wishart posterior with exact zeros outside the graph, and its score is the BIC or the (diagonal) Laplace approximation of the log marginal likelihood as defined. mk_all_ugs lists every undirected graph exactly once, ordered by number of edges, and markov_blankets every variable's neighbours in every graph.",
["inputs","histories","fault_sequences"],
"every data set, set of penalties, random draw (including the extreme ones), score, solver mode, top_n, and every history of earlier or interrupted selections on the same estimator",
"the repository has no test of the structure selection; scores and draws are internal, so a wrong winner looks like any other sparse matrix",
["regain/bayesian/gwishart_inference.py"],
[("bayesian_graphical_lasso","regain/bayesian/gwishart_inference.py:bayesian_graphical_lasso"),("GWishartScore, GWishartFit, compute_score","regain/bayesian/gwishart_inference.py"),("score_blankets, markov_blankets, mk_all_ugs","regain/bayesian/gwishart_inference.py")]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in L))
for p in L:
    print(p["id"],len(p["title"]),p["statement"].count(". ")+1)
