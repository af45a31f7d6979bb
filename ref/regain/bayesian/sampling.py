import numpy as np
from scipy import stats
from regain.bayesian.stats import lognstat

def GWP_construct(umat, L):
    M = np.matmul(np.matmul(L, np.matmul(umat.T, umat.transpose(2, 0, 1))), L.T)
    return M.T

def elliptical_slice(current_state, prior, likelihood=None, angle_range=0, max_iter=20):
    if likelihood is None:
        raise ValueError('`likelihood` parameter is None, should be a function to evaluate likelihood')
    initial_theta = current_state.xx
    v, p, N = initial_theta.shape
    D = v * p * N
    L = current_state.L
    start_logp = current_state.log_likelihood
    if start_logp is None:
        start_logp = likelihood(current_state.V)
    current_logp = start_logp
    if prior.size == D:
        nu = prior
    else:
        if prior.shape != (D, D):
            raise ValueError('Prior must be given by a D-element sample or DxD chol(Sigma)')
        nu = np.reshape(prior.T.dot(np.random.normal(size=D)), initial_theta.shape)
    hh = 0.001 * np.log(np.random.uniform()) + current_logp
    if angle_range <= 0:
        phi = np.random.uniform() * 2 * np.pi
        phi_min = phi - 2 * np.pi
        phi_max = phi
    else:
        phi_min = -angle_range * np.random.uniform()
        phi_max = phi_min + angle_range
        phi = np.random.uniform() * (phi_max - phi_min) + phi_min
    update_state = True
    for iteration_ in range(max_iter):
        proposal = np.real(initial_theta * np.cos(phi) + nu * np.sin(phi))
        V = GWP_construct(proposal, L)
        current_logp = likelihood(V)
        if current_logp > hh:
            break
        if phi > 0:
            phi_max = phi
        elif phi < 0:
            phi_min = phi
        else:
            raise RuntimeError('BUG: Shrunk to current position and still not acceptable.')
        phi = np.random.uniform() * (phi_max - phi_min) + phi_min
    else:
        update_state = False
    if update_state:
        current_state['xx'] = proposal
        current_state['V'] = V
        current_state['log_likelihood'] = current_logp
    return current_state

def sample_hyper_kernel(initial_theta, var_proposal, ustack, kern, prior_distr):
    mu, sigma = lognstat(initial_theta, var_proposal)
    proposal = np.random.lognormal(mu, sigma)
    log_qzastztau = stats.lognorm.logpdf(proposal, loc=0, s=sigma, scale=np.exp(mu))

    def logp_post(inverse_width):
        K = kern(inverse_width=inverse_width)
        logp = stats.multivariate_normal(ustack.mean(axis=0), cov=K, allow_singular=True).logpdf(ustack).sum()
        logp_prior = prior_distr.logpdf(inverse_width)
        return logp + logp_prior
    logp_diff = logp_post(proposal) - logp_post(initial_theta)
    mu, sigma = lognstat(proposal, var_proposal)
    log_qztauzast = stats.lognorm.logpdf(initial_theta, loc=0, s=sigma, scale=np.exp(mu))
    log_acceptance_proba = min(0, logp_diff + log_qztauzast - log_qzastztau)
    accept = np.log(np.random.uniform()) < log_acceptance_proba
    sample = proposal if accept else initial_theta
    return (sample, accept)

def sample_ell(Ltau, var_proposal, umat, prior_distr, likelihood=None):
    Ltau = Ltau.copy()
    free_elements = Ltau.size
    L_proposal = np.zeros(free_elements)
    if not isinstance(var_proposal, np.ndarray):
        var_proposal = var_proposal * np.ones(free_elements)
    sigma_proposal = np.sqrt(var_proposal)

    def get_logp(ell_lower):
        v, p, _ = umat.shape
        ell = np.zeros((p, p))
        ell[np.tril_indices_from(ell)] = ell_lower
        D = GWP_construct(umat, ell)
        logp = likelihood(D)
        return logp
    for i in range(free_elements):
        L_proposal[i] = _sample_ell_comp(Ltau, i, sigma_proposal=sigma_proposal[i], prior_distr=prior_distr, likelihood=get_logp)
        Ltau[i] = L_proposal[i]
    return L_proposal

def _sample_ell_comp(Ltaug, i, sigma_proposal, prior_distr, likelihood=None):
    Ltau = Ltaug[i]
    Last = np.random.normal(Ltau, sigma_proposal)
    Lastg = Ltaug.copy()
    Lastg[i] = Last

    def logp_post(ell_lower):
        prior = prior_distr.logpdf(ell_lower[i])
        return likelihood(ell_lower) + prior
    logp_diff = logp_post(Lastg) - logp_post(Ltaug)
    logq_ast_tau = stats.norm.logpdf(Last, Ltau, sigma_proposal)
    logq_tau_ast = stats.norm.logpdf(Ltau, Last, sigma_proposal)
    logq_diff = logq_tau_ast - logq_ast_tau
    log_acceptance_proba = min(0, logp_diff + logq_diff)
    accept = np.log(np.random.uniform()) < log_acceptance_proba
    sample = Last if accept else Ltau
    return sample
