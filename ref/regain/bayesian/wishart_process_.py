from __future__ import print_function
from functools import partial
import numpy as np
from scipy import linalg, stats
from sklearn.covariance import empirical_covariance
from sklearn.gaussian_process import kernels
from sklearn.metrics.pairwise import rbf_kernel
from sklearn.utils import Bunch
from sklearn.utils.validation import check_X_y
from tqdm import trange
from regain.bayesian.gaussian_process_ import sample as sample_gp
from regain.bayesian.sampling import GWP_construct, elliptical_slice, sample_ell, sample_hyper_kernel
from regain.bayesian.stats import lognstat, t_mvn_logpdf
from regain.covariance.time_graphical_lasso_ import TimeGraphicalLasso

def fit(theta, var_prop, prior_theta_kernel, var_Lprop, prior_ell, kern, p, nu=None, n_iter=500, verbose=False, likelihood=None, L=None):
    if nu is None:
        nu = p + 1
    K = kern(inverse_width=theta)
    umat = sample_gp(K, nu=nu, p=p)
    if L is None:
        learn_ell = True
        L = np.tril(np.random.randn(p, p))
    else:
        learn_ell = False
    V = GWP_construct(np.real(umat), L)
    current_state = Bunch(xx=umat, V=V, L=L, log_likelihood=likelihood(V))
    samples_u = []
    loglikes = np.zeros(n_iter)
    lps = np.zeros(n_iter)
    if learn_ell:
        Ltau = L[np.tril_indices_from(L)]
        L__ = np.zeros((p, p))
        L__[np.tril_indices_from(L__)] = Ltau
        Ls = []
    pbar = trange(n_iter, disable=not verbose)
    for i in pbar:
        pbar.set_description('loss: {:.3e}'.format(current_state.log_likelihood))
        current_state = elliptical_slice(current_state, umat, likelihood=likelihood)
        theta, accept = sample_hyper_kernel(theta, var_prop, np.vstack(current_state.xx), kern, prior_distr=prior_theta_kernel)
        if accept:
            K = kern(inverse_width=theta)
            while True:
                try:
                    umat = sample_gp(K, nu=nu, p=p)
                    break
                except Exception:
                    K += 1e-08 * np.eye(K.shape[0])
            current_state['xx'] = umat
            current_state['log_likelihood'] = likelihood(GWP_construct(umat, current_state['L']))
        if learn_ell:
            Ltau = sample_ell(Ltau, var_Lprop, current_state.xx, prior_distr=prior_ell, likelihood=likelihood)
            L__[np.tril_indices_from(L__)] = Ltau
            current_state['L'] = L__
            current_state['log_likelihood'] = likelihood(GWP_construct(current_state['xx'], current_state['L']))
        samples_u.append(current_state.xx)
        loglikes[i] = current_state.log_likelihood
        lps[i] = theta
        if learn_ell:
            Ls.append(L__.copy())
    return_list = [samples_u, loglikes, lps]
    if learn_ell:
        return_list.append(Ls)
    return return_list

def predict(t_test, t_train, u_map, L_map, kern, inverse_width_map):
    KB = kern(t_train[:, None], inverse_width=inverse_width_map)
    A = kern(t_test[:, None], t_train[:, None], inverse_width=inverse_width_map)
    invKB = linalg.pinvh(KB)
    A_invKb = A.dot(invKB)
    u_test = np.tensordot(A_invKb, u_map.T, axes=1).T
    return GWP_construct(u_test, L_map)

def _rbf_kernel(X, Y=None, var=None, inverse_width=None, normalised=False):
    gamma = 0.5 * inverse_width
    k = var * rbf_kernel(X, Y=Y, gamma=gamma)
    if normalised:
        k *= np.sqrt(inverse_width / (2 * np.pi))
    return k

def _periodic_kernel(X, Y=None, inverse_width=1):
    return kernels.ExpSineSquared(length_scale=inverse_width)(X, Y=Y)

class WishartProcess(TimeGraphicalLasso):

    def __init__(self, theta=100, var_prop=1, mu_prior=1, var_prior=10, var_Lprop=10, mu_Lprior=1, var_Lprior=1, n_iter=500, burn_in=None, verbose=False, assume_centered=False, kernel=None, learn_ell=True):
        self.n_iter = n_iter
        self.burn_in = burn_in
        self.verbose = verbose
        self.assume_centered = assume_centered
        self.theta = theta
        self.var_prop = var_prop
        self.var_Lprop = var_Lprop
        self.kernel = kernel
        self.learn_ell = learn_ell
        self.mu_prior = mu_prior
        self.var_prior = var_prior
        self.mu_Lprior = mu_Lprior
        self.var_Lprior = var_Lprior
        mu_prior, sigma_prior = lognstat(mu_prior, var_prior)
        self.prior_theta_kernel = stats.lognorm(loc=0, s=sigma_prior, scale=np.exp(mu_prior))
        self.prior_ell = stats.norm(loc=mu_Lprior, scale=np.sqrt(var_Lprior))

    def fit(self, X, y):
        X, y = check_X_y(X, y, accept_sparse=False, dtype=np.float64, order='C', ensure_min_features=2, estimator=self)
        n_dimensions = X.shape[1]
        self.classes_, n_samples = np.unique(y, return_counts=True)
        n_times = self.classes_.size
        if self.assume_centered:
            self.location_ = np.zeros((n_times, n_dimensions))
        else:
            self.location_ = np.array([X[y == cl].mean(0) for cl in self.classes_])
        X_center = [X[y == cl] - self.location_[i] for i, cl in enumerate(self.classes_)]
        if self.kernel is None or self.kernel.lower() == 'rbf':
            kern = partial(_rbf_kernel, var=1)
        else:
            kern = _periodic_kernel
        self.likelihood = partial(t_mvn_logpdf, X_center)
        self.nu_ = 1
        L = None
        if not self.learn_ell:
            cov = empirical_covariance(X)
            try:
                L = np.linalg.cholesky(cov)
            except:
                np.fill_diagonal(cov, np.sum(np.abs(cov), axis=0) + 0.01)
                L = np.linalg.cholesky(cov)
        out = fit(theta=self.theta, var_prop=self.var_prop, prior_theta_kernel=self.prior_theta_kernel, var_Lprop=self.var_Lprop, prior_ell=self.prior_ell, kern=partial(kern, self.classes_[:, None]), nu=self.nu_, p=n_dimensions, n_iter=self.n_iter, verbose=self.verbose, likelihood=self.likelihood, L=L)
        if self.learn_ell:
            samples_u, loglikes, lps, Ls = out
        else:
            samples_u, loglikes, lps = out
        burn_in = self.n_iter // 4 if self.burn_in is None else self.burn_in
        self.lps_after_burnin = lps[burn_in:]
        self.samples_u_after_burnin = samples_u[burn_in:]
        self.loglikes_after_burnin = loglikes[burn_in:]
        pos = np.argmax(self.loglikes_after_burnin)
        self.lmap = self.lps_after_burnin[pos]
        self.u_map = self.samples_u_after_burnin[pos]
        if self.learn_ell:
            self.Ls_after_burnin = Ls[burn_in:]
            self.Lmap = self.Ls_after_burnin[pos]
        else:
            self.Lmap = L
        self.D_map = GWP_construct(self.u_map, self.Lmap)
        self.covariance_ = self.D_map.T
        self.precision_ = np.array([linalg.pinvh(cov) for cov in self.covariance_])
        return self

    def score(self, X, y):
        X, y = check_X_y(X, y, accept_sparse=False, dtype=np.float64, order='C', ensure_min_features=2, estimator=self)
        X_center = np.array([X[y == cl] - self.location_[i] for i, cl in enumerate(self.classes_)])
        logp = t_mvn_logpdf(X_center, self.D_map)
        return logp
