"""Which functions, and which components of their analysed behaviour, carry each property."""
import re

C = "regain.covariance."
G = "regain.generalized_linear_model."
L = "regain.linear_model."
FB = "regain.forward_backward."
D = "regain.datasets."
B = "regain.bayesian."
MS = "regain.model_selection."

ADMM = [C + x for x in (
    "graphical_lasso_.graphical_lasso", "latent_graphical_lasso_.latent_graphical_lasso", "time_graphical_lasso_.time_graphical_lasso",
    "latent_time_graphical_lasso_.latent_time_graphical_lasso", "kernel_time_graphical_lasso_.kernel_time_graphical_lasso",
    "kernel_latent_time_graphical_lasso_.kernel_latent_time_graphical_lasso",
    "latent_time_matrix_decomposition.latent_time_matrix_decomposition", "infimal_convolution_.infimal_convolution")]
GLM_ADMM = [G + "glm_time_ising._fit_time_ising_model", G + "glm_time_poisson._fit_time_poisson_model"]
LIN_SOLVERS = [L + "lasso_.lasso", L + "group_lasso_.group_lasso", L + "group_lasso_overlap_.group_lasso_overlap",
               L + "_group_lasso_overlap_old_.group_lasso_feat_split"]
NODE = ["regain.prox.prox_node_penalty"]
MISSING = [C + "missing_graphical_lasso_.missing_graphical_lasso"]
OTHER_SOLVERS = MISSING + [FB + "time_graphical_lasso_.tgl_forward_backward", G + "glm_ising._fit", G + "glm_poisson.fit_each_variable",
                           G + "glm_gaussian.fit_each_variable", B + "gwishart_inference.bayesian_graphical_lasso"]
SOLVERS = ADMM + GLM_ADMM + LIN_SOLVERS + NODE + OTHER_SOLVERS

# the functions whose calls are compared as calls (they are obligations of their own)
ATOM_RE = re.compile(r"^regain\.(prox|update_rules|norm|scores|math|validation|clustering)\.[a-z]\w*$"
                     r"|^regain\.utils\.[a-z]\w*$"
                     r"|\.(objective\w*|loss\w*|init_precision|logl|penalty\w*|grad_loss\w*|_J|batch_log_likelihood|precision_similarity)$"
                     r"|^regain\.model_selection\.\w+\.[a-z]\w*$"
                     r"|^regain\.bayesian\.(stats|gwishart_inference|sampling)\.[a-z]\w*$"
                     r"|^regain\.datasets\.\w+\.[a-z]\w*$"
                     r"|\.(build_adjacency_matrix|compute_cs|compute_mean|compute_empirical_covariance|choose_\w+|fista_step|_scalar_product|upper_diag_3d)$"
                     r"|^(" + "|".join(re.escape(s) for s in SOLVERS) + ")$")


def is_atom(q):
    return bool(ATOM_RE.search(q))


ALL = r".*"
EST_METHODS = r"(fit|_fit)"
PROX = r"^regain\.prox\."
NORM = r"^regain\.norm\."


def q(*names):
    return "^(" + "|".join(re.escape(n) for n in names) + ")$"


DUALS = r"^(next|init):(U\w*|rho|u\w*|mu)\b"
# property -> [(function regex, component regex)]
REF = {
    "C03": [(r"^regain\.(covariance|generalized_linear_model|forward_backward|linear_model|bayesian)\..*\.[A-Z]\w*\.(_fit|fit)$", ALL),
            (r"^regain\.(covariance|generalized_linear_model|forward_backward|linear_model|bayesian)\..*\.[A-Z]\w*\.__init__$", r"^(field|signature)"),
            (r"^regain\.(discriminant_analysis|model_selection|wrapper)\..*\.(_?fit\w*|__init__)$", ALL),
            (q(*SOLVERS), r"^(signature|domain@|exit@|warn)"), (q(*SOLVERS), "roles:."), (r"\.init_precision$", ALL)],
    "C05": [(q(*SOLVERS), r"^(exit@|warn|domain@|loops|(next|init):(checks?|\w*_old\w*|\w*old\w*)\b)"),
            (r"\.clustering\.graph_k_means$", r"^(exit@|warn|domain@)"), (r"\.group_lasso_overlap_\.\w+$", r"^(exit@|warn|(next|init):count)"),
            (r"\.choose_(gamma|lamda)$", r"^(exit@|warn|domain@)")],
    "C06": [(q(*(ADMM + GLM_ADMM + NODE + LIN_SOLVERS)), r"^(next|init):(?!checks)"), (q("regain.update_rules.update_rho"), ALL)],
    "C07": [(q(*SOLVERS), r"^(exit@|(next|init):(checks?|\w*_old\w*|\w*old\w*|history\w*)\b)")],
    "C08": [(q(*SOLVERS), r"^(next|init):(?!checks)"), (PROX, ALL), (r"^regain\.math\.", ALL), (r"\.init_precision$", ALL),
            (q(*GLM_ADMM), ALL), (r"glm_time_(ising|poisson)\.(loss|_gradient)\w*$", ALL), (r"\.prox\w*$", ALL)],
    "C09": [(q(*(SOLVERS)), r"^(value|(next|init):(?!checks))"), (PROX, ALL), (r"^regain\.math\.", ALL),
            (r"\.build_adjacency_matrix$", ALL), (r"\.get_(observed_)?precision$", ALL),
            (r"^regain\.(covariance|generalized_linear_model|forward_backward)\..*\.[A-Z]\w*\.(_fit|fit)$", r"^field:"),
            (r"\.init_precision$", ALL)],
    "C10": [(q(*SOLVERS), r"^(value|domain@|exit@)"), (r"\.[A-Z]\w*\.(_fit|fit)$", r"^field:n_iter_?$")],
    "C11": [(q(*SOLVERS), r"^value"), (r"\.[A-Z]\w*\.(_fit|fit)$", r"^field:")],
    "C12": [(r"^regain\.(covariance\.(time|latent_time|kernel|infimal)|generalized_linear_model\.glm_time|forward_backward\.time|bayesian\.wishart_process)\w*\.", ALL),
            (r"^regain\.scores\.", ALL), (r"^regain\.utils\.(error_norm|mean_structure_error|error_rank)$", ALL),
            (r"\.DiscriminantAnalysis\.", ALL), (r"^regain\.validation\.check_(input|array)\w*$", ALL), (r"\.convert_data_to_2d$", ALL),
            (r"\.(precision_similarity|batch_log_likelihood|loss)$", ALL), (r"\.error_norm_time$", ALL)],
    "C13": [(r"\.(get_observed_precision|get_precision|score|error_norm)$", ALL),
            (r"^regain\.covariance\..*(objective|loss|batch_log_likelihood|logl)$", ALL),
            (r"^regain\.covariance\..*[lL]atent.*\.[A-Z]\w*\.(_fit|fit)$", r"^field:"), (r"^regain\.covariance\..*[lL]atent.*_$", r"^value"),
            (q(*[s for s in ADMM if "latent" in s or "infimal" in s]), r"^(value|next|exit@)"), (r"^regain\.scores\.", ALL)],
    "C14": [(PROX, ALL), (NORM, ALL), (r"^regain\.math\.", ALL), (r"^regain\.validation\.check_norm_prox$", ALL)],
    "C17": [(r"^regain\.validation\.", ALL), (r"^regain\.(covariance|generalized_linear_model|discriminant|bayesian|linear_model|forward_backward)", r"^raise"),
            (r"^regain\.(prox|norm|utils|datasets|math|model_selection|clustering)\b", r"^raise"),
            (r"\.[A-Z]\w*\.(fit|score)$", ALL)],
    "C18": [(r"^regain\.datasets\.", ALL), (r"^regain\.data\.base\.", ALL), (r"^regain\.utils\.(normalize_matrix|ensure_posdef|is_pos_\w+|positive_definite)$", ALL)],
    "C19": [(r"^regain\.utils\.(structure_error|mean_structure_error|error_norm|error_norm_time|error_rank|normalize_matrix|threshold)$", ALL)],
    "C20": [(r"^regain\.generalized_linear_model\.", ALL)],
    "C21": [(r"^regain\.scores\.", ALL), (r"^regain\.math\.", ALL), (r"\.(logl|batch_log_likelihood|loss|batch_logdet)$", ALL), (r"^regain\.covariance\..*\.(score|objective)$", ALL)],
    "C22": [(r"\.(objective\w*|loss\w*|penalty\w*|logl|_J|batch_log_likelihood)$", ALL), (NORM, ALL), (r"\.check_norm_prox$", ALL),
            (q(*(ADMM + GLM_ADMM + LIN_SOLVERS + OTHER_SOLVERS)), r"^next:(checks?|history\w*)\b")],
    "C23": [(r"\.(DiscriminantAnalysis|PrecomputedDiscriminantAnalysis)\.", ALL), (r"^regain\.utils\.(ensure_posdef|is_pos_\w+|positive_definite)$", ALL)],
    "C24": [(r"^regain\.model_selection\.", ALL)],
    "C25": [(r"^regain\.wrapper\.paspal\.", ALL), (r"^regain\.linear_model\.", ALL), (r"^regain\.prox\.(soft_thresholding\w*|blockwise\w*)$", ALL)],
    "C26": [(r"^regain\.(utils|math)\.", ALL)],
    "C27": [(r"^regain\.(update_rules|forward_backward)\.", ALL), (q(*SOLVERS), r"^(next|init):(rho|gamma|lamda|t|step\w*)\b")],
    "C28": [(r"^regain\.clustering\.", ALL)],
    "C29": [(r"^regain\.covariance\.kernel_", ALL), (r"glm_time_(ising|poisson)\.", ALL)],
    "C30": [(r"^regain\.bayesian\.", ALL)],
    "C31": [(r"\.missing_graphical_lasso_\.", ALL)],
}
# functions left out of the reference comparison everywhere (plotting, console demos)
SKIP = re.compile(r"\.(plot\w*|plot_acquisition|main|display_topics|__str__)$")


def select(prop, quals):
    out = {}
    for fr, cr in REF.get(prop, ()):
        f, c = re.compile(fr), re.compile(cr)
        for x in quals:
            if f.search(x) and not SKIP.search(x):
                out.setdefault(x, []).append(c)
    return out
