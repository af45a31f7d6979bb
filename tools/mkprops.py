#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here because the statements are easier to review as Python)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


COV = ["regain/covariance/%s.py" % x for x in (
    "graphical_lasso_", "latent_graphical_lasso_", "time_graphical_lasso_", "latent_time_graphical_lasso_",
    "kernel_time_graphical_lasso_", "kernel_latent_time_graphical_lasso_", "latent_time_matrix_decomposition",
    "infimal_convolution_", "missing_graphical_lasso_")]
GLM = ["regain/generalized_linear_model/%s.py" % x for x in ("base", "glm_gaussian", "glm_ising", "glm_poisson", "glm_time_ising", "glm_time_poisson")]
LIN = ["regain/linear_model/%s.py" % x for x in ("lasso_", "group_lasso_", "group_lasso_overlap_", "_group_lasso_overlap_old_")]
EST = COV + GLM + LIN[2:3] + ["regain/forward_backward/time_graphical_lasso_.py", "regain/discriminant_analysis.py",
                               "regain/bayesian/gwishart_inference.py", "regain/bayesian/wishart_process_.py"]

prop("C01", "Estimators store their constructor arguments unchanged",
     """For every estimator of the library, after construction each constructor argument can be read back from the attribute of the same
     name and is the very object that was passed (or the documented default). The constructor does not convert, copy, combine, rename or drop arguments.""",
     ["programs", "configurations", "inputs"], "every estimator class, every constructor argument, every value",
     "tests construct a few estimators with a few arguments; parameter get/set/clone relies on it for every argument of every class, including ones no test passes.",
     EST, [("constructors", "every __init__ of a BaseEstimator subclass and the super().__init__ chains they use")])
prop("C02", "Fitting never changes hyper-parameters",
     """For every estimator, fitting, scoring, predicting or transforming never rebinds or mutates in place any value the user gave to the constructor.
     A second fit, a clone or a parameter read after fitting therefore sees exactly the configuration the user chose.""",
     ["programs", "configurations", "histories"], "every estimator, every hyper-parameter, every sequence of method calls after construction",
     "tests look at fitted results, not at the hyper-parameters afterwards, and never refit the same object.",
     EST, [("fit/_fit/score/predict/transform", "methods of the estimator classes")])
prop("C03", "Each hyper-parameter reaches the solver in its own role",
     """Fitting an estimator solves the problem its hyper-parameters describe: every regularisation weight, penalty function choice, tolerance, iteration limit, penalty parameter,
     update option, initialisation choice and kernel given to the constructor is handed to the optimiser unchanged and in its own role.
     None is swapped with another, replaced by a constant or default, rescaled or ignored (beyond the recorded findings).""",
     ["configurations", "programs"], "every estimator and every combination of its constructor arguments",
     "tests fit with the defaults (where a dropped or swapped argument is invisible) or with one or two settings.",
     EST, [("solver calls", "fit/_fit of each estimator class and the super().__init__ calls that route arguments")])
prop("C04", "Caller-supplied arrays are never modified",
     """No public function or estimator method changes the contents of an array, list or dictionary that the caller passed in (data, labels, initial precisions, kernels, graphs, penalty weights),
     except for the few helpers whose documented purpose is to work in place. Results never alias the inputs in a way that a later iteration of the same call writes through.""",
     ["inputs", "configurations", "programs"], "every public function and method, every input container, every option combination",
     "tests do not compare the inputs before and after a call, and most pass throw-away temporaries.",
     EST + ["regain/utils.py", "regain/prox.py", "regain/norm.py", "regain/datasets/ising.py", "regain/clustering.py", "regain/math.py"],
     [("defensive copies", "init_precision, zeros_like/copy before in-place updates in solvers; .copy() in utils and samplers")])
prop("C05", "Solvers stop silently only when both tolerances are met, else they warn",
     """An iterative solver ends before its iteration limit only in an iteration in which both the primal and the dual residual are within their tolerances (or at a documented extra stop:
     non-finite objective or a user-requested stopping point). When the iteration limit is exhausted without that, the user gets a convergence warning, and never gets one otherwise.""",
     ["inputs", "configurations", "histories"], "every problem instance, tolerance and iteration limit, every iteration history",
     "the tests run a handful of tiny instances and do not check which condition ended the loop or whether the warning appeared.",
     COV + GLM + LIN + ["regain/prox.py", "regain/forward_backward/time_graphical_lasso_.py"],
     [("stopping test", "'if check.rnorm <= check.e_pri and check.snorm <= check.e_dual: break' and the for-else warning in every solver")])
prop("C06", "Dual variables accumulate the residual and are rescaled with the penalty",
     """In every ADMM solver each scaled dual variable changes in an iteration by exactly the primal residual of its own constraint.
     Whenever the penalty parameter changes, every dual variable is rescaled by old/new penalty in the same iteration and the new penalty is the one used from the next iteration on.""",
     ["inputs", "histories", "configurations"], "every iteration of every ADMM solver, for every input and penalty-update option",
     "tests compare end results on one tiny instance with loose conditions; a missing or mis-scaled dual update still converges on easy inputs.",
     COV + ["regain/generalized_linear_model/glm_time_ising.py", "regain/generalized_linear_model/glm_time_poisson.py", "regain/prox.py",
            "regain/linear_model/lasso_.py", "regain/linear_model/group_lasso_.py", "regain/update_rules.py"],
     [("dual updates", "U/U_0/U_1/U_2/U_M statements and 'U *= rho / rho_new' in the solvers"), ("penalty rule", "update_rules.update_rho")])
prop("C07", "Residuals and tolerances use consecutive iterates and the stated formulas",
     """The residuals a solver reports in its convergence history and tests for stopping are: primal = norm of the constraint violation of the current iterates; dual = penalty times the change of the
     consensus variables between this iteration and the previous one (never between an array and itself). The tolerances combine the absolute and relative tolerance with the problem size and the current iterate norms.""",
     ["inputs", "histories"], "every iteration of every solver and every input shape (number of variables, times, samples)",
     "tests never inspect the history; aliasing of old and new iterates, or a residual missing one block, only shows as early or late stopping on particular inputs.",
     COV + ["regain/generalized_linear_model/glm_time_ising.py", "regain/generalized_linear_model/glm_time_poisson.py", "regain/prox.py"] + LIN[:2],
     [("convergence record", "convergence(obj=..., rnorm=..., snorm=..., e_pri=..., e_dual=...) in every solver; *_old copies")])
prop("C08", "Every block update solves its own sub-problem",
     """In every iteration each primal block is updated by the proximal step of its own term of the documented objective, evaluated at the point given by the other blocks and its dual, with step sizes and
     weights consistent with the penalty parameter and the number of constraints sharing the block. Boundary times (first and last) use the same rule as interior ones with their own number of neighbours.""",
     ["inputs", "histories", "configurations"], "every iteration, every number of times/variables, every penalty choice and weight",
     "a wrong weight, a missing neighbour at a boundary time or a stale block still yields plausible symmetric matrices on the small random data of the tests.",
     COV + ["regain/generalized_linear_model/glm_time_ising.py", "regain/generalized_linear_model/glm_time_poisson.py", "regain/prox.py"],
     [("primal updates", "the prox_* / soft_thresholding calls inside each solver loop")])
prop("C09", "Estimated precisions are symmetric and their parts have the promised structure",
     """Every precision or adjacency matrix returned or stored by an estimator is symmetric by construction; the likelihood block comes from an eigen-decomposition whose eigenvalues are mapped to strictly
     positive ones, low-rank latent parts have their eigenvalues thresholded at zero, and covariances are the (pseudo-)inverses of the reported precisions.
     For node-wise models the combination rule (union or intersection of the two directions) is the requested one and yields a symmetric matrix.""",
     ["inputs", "configurations"], "every data set and hyper-parameter setting",
     "tests check shapes, or symmetry on a single random input for one configuration.",
     COV + GLM + ["regain/prox.py"],
     [("prox_logdet / prox_trace_indicator", "regain/prox.py"), ("build_adjacency_matrix and the union/intersection code", "regain/generalized_linear_model")])
prop("C10", "The reported number of iterations is the number performed",
     """For every solver and estimator that reports an iteration count, the reported value equals the number of iterations actually executed, whether the run converged or exhausted the limit, and it never exceeds the limit.""",
     ["inputs", "configurations", "histories"], "every run, whatever the iteration at which it stops",
     "tests at most check that the attribute exists; an off-by-one is consistent with every existing assertion.",
     COV + GLM + LIN + ["regain/forward_backward/time_graphical_lasso_.py", "regain/bayesian/gwishart_inference.py"],
     [("return of iteration count", "'return_n_iter' branches of the solvers; n_iter_ attributes in fit/_fit")])
prop("C11", "Optional outputs come in the documented order and land in the right attribute",
     """For every combination of the flags that request extra outputs (history, iteration count), a solver returns its results in one fixed order: the estimated matrices first, then the convergence history, then the iteration count,
     and only those requested. Every estimator stores each returned item under the attribute that names it (precision, covariance, latent, history, count).""",
     ["configurations"], "all combinations of the output flags of every solver and all estimators calling them",
     "tests use one flag combination per solver.",
     COV + GLM + LIN + ["regain/forward_backward/time_graphical_lasso_.py"],
     [("return protocol", "return_list construction in each solver; unpacking in fit/_fit")])
prop("C12", "Samples, labels, times and per-time results stay aligned",
     """In every time-varying or multi-class estimator the k-th estimated matrix, mean and covariance belong to the k-th distinct label in sorted order and are computed from exactly the samples carrying that label, however the rows are ordered and whatever
     the group sizes. Scoring, error and data-conversion routines use the same correspondence and every sample of every group.""",
     ["inputs"], "every label vector (unsorted, unequal group sizes, non-consecutive values) and data matrix",
     "tests use sorted labels with equal group sizes.",
     ["regain/covariance/time_graphical_lasso_.py", "regain/covariance/latent_time_matrix_decomposition.py", "regain/covariance/kernel_time_graphical_lasso_.py",
      "regain/covariance/kernel_latent_time_graphical_lasso_.py", "regain/discriminant_analysis.py", "regain/generalized_linear_model/glm_time_ising.py",
      "regain/generalized_linear_model/glm_time_poisson.py", "regain/utils.py", "regain/validation.py"],
     [("per-class covariance", "np.unique(y) / X[y == cl] in fit methods"), ("stacked layout", "check_input, convert_data_to_2d")])
prop("C13", "Latent-variable models expose and score the observed precision",
     """For models with latent variables the observed precision is the estimated sparse part minus the estimated latent part, at every time; scores, likelihoods and error norms use that observed precision, and the objective's likelihood term is evaluated there too.
     Models without latent variables use the estimated precision itself.""",
     ["inputs", "configurations"], "every fitted latent model and every evaluation data set",
     "tests only check that scoring runs.",
     [f for f in COV if "latent" in f or "time_graphical" in f or "infimal" in f] + ["regain/discriminant_analysis.py"],
     [("get_observed_precision / get_precision / score / error_norm", "regain/covariance")])
prop("C14", "Norms and proximal operators match their mathematical definition and pairing",
     """Each penalty function and each proximal operator computes its mathematical definition for every input (scalars, vectors, matrices, stacks): soft-thresholding and its off-diagonal, block, infinity-norm, Laplacian, log-determinant, trace, total-variation and node variants, and the corresponding norms.
     Each named penalty is paired with its own operator and an unknown name is rejected with an error.""",
     ["inputs", "configurations"], "all real inputs, all penalty names",
     "tests evaluate one or two inputs per operator and the behaviour on ties, negative entries, zero rows or other axes is not sampled.",
     ["regain/prox.py", "regain/norm.py", "regain/validation.py"],
     [("definitions", "every function of prox.py and norm.py"), ("pairing", "validation.check_norm_prox")])
prop("C15", "Estimation is deterministic and free of global side effects",
     """Fitting, solving, scoring and evaluating give the same result for the same input every time: they draw no numbers from the global random generator (except through a supplied random state, or as recorded), keep no state between calls, and mutate no module-level or default-argument object.
     They do not reconfigure warnings, numpy error handling or the process, and print nothing unless verbose output was requested.""",
     ["histories", "programs"], "every sequence of calls of the estimation, scoring and evaluation interface in one process",
     "a test cannot observe that repeated or interleaved calls agree for every history, nor that no global switch was flipped.",
     EST + ["regain/utils.py", "regain/prox.py", "regain/norm.py", "regain/scores.py", "regain/model_selection/stability_optimization.py"],
     [("absence of global effects", "all library modules outside dataset generation and plotting")])
prop("C16", "Every internal call, name and attribute resolves",
     """On every path of the library, each name that is read is defined, each internal call supplies the arguments its callee requires and none it does not accept, every unpacking matches the number of values produced,
     and each attribute a method reads from its own object is set by the constructor, by fitting, or inherited.""",
     ["programs", "configurations"], "every path through every function of the package, including options no test uses",
     "tests execute a fraction of the paths; Python reports these errors only when the path runs.",
     ["regain"], [("call sites and attribute reads", "all modules")])
prop("C17", "Invalid input is rejected and validation precedes use",
     """Inputs that violate the documented requirements (wrong dimensionality, inconsistent shapes or sizes, values outside an Ising or Poisson model's domain, unknown option names, too few classes, missing required attributes) raise an error under exactly the documented condition,
     before any estimation is done, and valid inputs are never rejected. Validated data, not the raw argument, is what the computation uses.""",
     ["inputs", "configurations"], "every input and option value",
     "tests try at most one invalid input per function, if any.",
     ["regain/validation.py"] + COV + GLM + ["regain/discriminant_analysis.py", "regain/utils.py", "regain/bayesian/gwishart_inference.py", "regain/datasets/base.py"],
     [("check_array/check_X_y/check_input and explicit raises", "fit methods, validation.py")])
prop("C18", "Generated datasets satisfy their contract",
     """Every data generator returns, for every requested size, number of times, latent dimension and mode: one precision, observed precision and latent matrix per time with observed = precision minus latent; samples drawn from the model defined by those matrices, in the requested number and layout, labelled by their time;
     and evolving graphs that follow the requested change rule while staying symmetric and valid.""",
     ["inputs", "configurations"], "every generator, mode and parameter combination",
     "tests call one or two modes with one size and look at shapes.",
     ["regain/datasets/%s.py" % x for x in ("base", "gaussian", "ising", "poisson", "kernels", "multi_class")],
     [("generators and samplers", "regain/datasets")])
prop("C19", "Graph-recovery metrics count edges correctly",
     """The structure-error report counts true/false positives and negatives over the matrix entries of the two graphs (leaving out the diagonal on request) after the requested thresholding, and every derived rate (precision, recall, F1, accuracy, specificity, balanced accuracy, MCC and others) is its definition on those four counts, with defined results when a denominator is zero.
     The averaged version averages each entry over repetitions, and matrix error norms follow their stated formulas.""",
     ["inputs", "configurations"], "every pair of graphs (including empty and complete ones), every option",
     "tests evaluate one pair of graphs.",
     ["regain/utils.py"], [("structure_error, mean_structure_error, error_norm, error_norm_time, error_rank", "regain/utils.py")])
prop("C20", "Node-wise and Ising/Poisson losses use every sample and variable exactly once",
     """The losses, gradients, objectives and scores of the Gaussian, Ising and Poisson graphical models are the negative (pseudo-)log-likelihood of the stated exponential family plus the stated penalties: every sample and every variable contributes exactly once, each variable is regressed on the others and not on itself,
     and gradients are the derivatives of the losses they accompany.""",
     ["inputs"], "every data matrix and coefficient matrix",
     "tests only check that fitting runs or a shape on one random data set.",
     GLM, [("loss/objective/gradient functions and node-wise fitting", "regain/generalized_linear_model")])
prop("C21", "Likelihood and information-criterion scores match their formulas",
     """Log-likelihood, BIC, EBIC and their variants for single and time-varying models are the stated functions of data covariance, precision, sample size, number of variables and number of edges; each time contributes once with its own covariance and precision, and model size is the number of non-zero off-diagonal entries.
     The empirical log-likelihood inside the solvers' objectives uses the same definition.""",
     ["inputs"], "every covariance, precision and sample size",
     "tests evaluate at most one numeric example.",
     ["regain/scores.py", "regain/covariance/time_graphical_lasso_.py", "regain/covariance/graphical_lasso_.py", "regain/math.py"],
     [("scores", "regain/scores.py; logl, batch_log_likelihood, loss; math.batch_logdet")])
prop("C22", "Reported objective values are the loss plus every weighted penalty",
     """For every solver the objective reported in its history equals the data-fit term plus each regularisation term with its own weight, evaluated with the requested penalty functions on the blocks of the current iterate it constrains, summed over all times and time differences.""",
     ["inputs", "configurations"], "every iterate, weight and penalty choice",
     "no test recomputes the objective independently.",
     COV + GLM + LIN + ["regain/forward_backward/time_graphical_lasso_.py"],
     [("objective functions", "objective* in every solver module")])
prop("C23", "Discriminant analysis scores each class with its own parameters",
     """The discriminant classifier fits its estimator on the class-partitioned data, uses for each class that class's mean, precision/covariance and prior (given or empirical class frequency), optionally repaired to be positive definite without altering the wrapped estimator, and predicts the class with the largest quadratic discriminant.
     Its score is the weighted accuracy of those predictions.""",
     ["inputs", "configurations"], "every labelled data set and option combination",
     "there is no test of this module beyond import or a single run.",
     ["regain/discriminant_analysis.py", "regain/utils.py"], [("fit/_decision_function/score", "regain/discriminant_analysis.py"), ("ensure_posdef", "regain/utils.py")])
prop("C24", "Stability-based selection measures edge instability as defined",
     """For a set of fitted models the instability measures count, over all unordered pairs of distinct variables (and all times), how often each edge is present, and aggregate 2p(1-p) (or the stated bound or graphlet distance) with the stated normalisation.
     Selection ranks candidates by the monotonised instabilities in candidate order and reports the parameters of the selected one.""",
     ["inputs", "configurations"], "every collection of fitted estimators and every parameter grid",
     "no test exercises this module.",
     ["regain/model_selection/stability_optimization.py", "regain/model_selection/_bayesian_optimization.py"],
     [("global_instability, graphlet_instability, upper_bound, fit, _format_results", "regain/model_selection/stability_optimization.py")])
prop("C25", "Regularised regression solvers implement their updates and predictions",
     """The lasso, group-lasso and overlapping-group-lasso solvers perform the stated ADMM updates for every design matrix, group structure and weight: each group (overlapping ones included) is penalised as given, consensus averages use each feature's number of groups, and intercept/centering handling in fit and predict is consistent.
     Classifier variants map decisions back to the original labels.""",
     ["inputs", "configurations"], "every design matrix, target, group structure and option",
     "tests fit one small design with one group structure.",
     LIN, [("lasso, group_lasso, group_lasso_overlap and the estimator classes", "regain/linear_model")])
prop("C26", "Matrix and general utilities compute what they state for every input",
     """The matrix helpers (diagonal get/fill/create, log-determinants of stacks, packing and unpacking of upper triangles, normalisation, positive-definiteness tests and repair, top-n selection, thresholding, function composition, flattening, alpha heuristic) return exactly their stated result for every shape and value,
     and save/load helpers restore the object that was saved under the file name the user gave.""",
     ["inputs"], "every array shape, value and option",
     "tests cover a few of these helpers on single inputs.",
     ["regain/utils.py", "regain/math.py"], [("helpers", "regain/utils.py, regain/math.py")])
prop("C27", "Step-size and penalty adaptation follow their rules",
     """The penalty parameter is multiplied, divided or kept exactly according to the comparison of primal and dual residuals with the given factors and threshold; the forward-backward solver evaluates its smooth loss, gradient and proximal penalty consistently, accepts a step only under its backtracking/descent conditions,
     reduces step and relaxation by the given factors within their limits, and combines iterates with the stated weights.""",
     ["inputs", "histories"], "all residual values and option settings; every iteration of the forward-backward solver",
     "tests run one configuration of the forward-backward solver and never exercise the adaptation branches deliberately.",
     ["regain/update_rules.py", "regain/forward_backward/forward_backward.py", "regain/forward_backward/time_graphical_lasso_.py"],
     [("update_rho/update_gamma", "regain/update_rules.py"), ("choose_gamma, choose_lamda, fista_step, tgl_forward_backward", "regain/forward_backward")])
prop("C28", "Graph clustering assigns every graph to its nearest representative",
     """Clustering of graphs assigns each input graph to exactly one of the requested clusters, namely the one whose representative (the edges common to all its members) is nearest in the stated distance, iterates until assignments are stable or the limit warns, and returns the similarity kernel of the last distances with one row per graph in input order.
     Distances and representatives are computed from edge presence, never from a modified input.""",
     ["inputs"], "every list of graphs, number of clusters and initial choice",
     "no test exercises clustering beyond a single run, if at all.",
     ["regain/clustering.py"], [("get_representative, compute_distances, graph_k_means", "regain/clustering.py")])
prop("C29", "Temporal kernels couple exactly the intended pairs of times",
     """Kernel-based time-varying models couple times i and j with the kernel entry for exactly that pair, each unordered pair once and with its own auxiliary variables; kernels are evaluated on the sorted time labels (or taken as given when precomputed), and similarity-based models recompute them from the current precisions by the stated rule.
     Transforming returns the learned similarity.""",
     ["inputs", "configurations"], "every number of times, every kernel and coupling option",
     "tests use one kernel and a few equally spaced times.",
     ["regain/covariance/kernel_time_graphical_lasso_.py", "regain/covariance/kernel_latent_time_graphical_lasso_.py",
      "regain/generalized_linear_model/glm_time_ising.py", "regain/generalized_linear_model/glm_time_poisson.py"],
     [("loops over m and the kernel diagonals", "kernel_* solvers, precision_similarity, _fit of kernel estimators")])
prop("C30", "Bayesian graph inference evaluates the stated densities and scores",
     """Wishart, inverse-Wishart and normal-inverse-Wishart objects, log-densities, covariance selection and graph scores compute their stated formulas for every argument; posterior parameters combine prior and data by the conjugate update, and the graph search returns the best-scoring graphs in order with their own scores and precision estimates.""",
     ["inputs", "configurations"], "every parameter matrix, data set, graph and option",
     "tests run one small example or none.",
     ["regain/bayesian/%s.py" % x for x in ("gwishart_inference", "wishart_distribution_", "stats", "sampling", "wishart_process_", "gaussian_process_", "_laplace_approximation")],
     [("scores, covsel, distributions", "regain/bayesian")])
prop("C31", "Missing values are imputed from the observed entries only",
     """With missing data, means and covariances are computed from observed entries, the imputed part of each sample is its conditional expectation given its observed part under the current precision, the conditional covariance correction is added exactly for the missing coordinates, and observed entries are never altered.
     The reported likelihood history, precision and covariance correspond to the final imputation step.""",
     ["inputs", "histories"], "every pattern of missing entries and every iteration",
     "tests use one random pattern and check only that fitting runs.",
     ["regain/covariance/missing_graphical_lasso_.py"], [("compute_mean, compute_cs, compute_empirical_covariance, missing_graphical_lasso", "regain/covariance/missing_graphical_lasso_.py")])

prop("N01", "Solvers converge to the minimiser of their objective",
     """For every input the returned estimate is within tolerance of the global minimiser of the convex objective.""",
     ["inputs", "histories"], "every convex problem instance",
     "tests compare against a reference solution on one instance at most.",
     COV, [("ADMM iteration", "every solver")])
prop("N02", "Results are numerically accurate and stable",
     """Floating-point error, ill-conditioned covariances and extreme scales do not change results beyond the requested tolerance, and positive definiteness survives rounding.""",
     ["inputs"], "every floating-point input", "tests use well-conditioned random data.", COV + ["regain/prox.py"], [("eigen-decompositions", "regain/prox.py")])
prop("N03", "Estimators recover the true graph with enough samples",
     """As the number of samples grows, the estimated edge set approaches the generating one.""",
     ["inputs"], "every generating model", "a statistical limit statement.", COV + GLM, [("estimators", "regain")])
prop("N04", "Relabelling variables permutes the result",
     """Permuting the variables of the input permutes every estimated matrix accordingly.""",
     ["inputs"], "every data set and permutation", "tests use one ordering.", COV, [("solvers", "regain/covariance")])
prop("N05", "Samplers produce draws from their target distribution",
     """Slice sampling, Metropolis-Hastings and Gibbs steps leave their stated target distribution invariant.""",
     ["inputs", "histories"], "every chain", "a distributional statement.", ["regain/bayesian/sampling.py", "regain/datasets/ising.py"], [("samplers", "regain/bayesian/sampling.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
