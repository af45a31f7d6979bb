from __future__ import division
import warnings
import numpy as np
from scipy import linalg
from regain.covariance.graphical_lasso_ import GraphicalLasso, init_precision, objective as obj_gl
from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
from regain.update_rules import update_rho
from regain.utils import Convergence

def objective(emp_cov, R, K, L, alpha, tau):
    obj = obj_gl(emp_cov, R, K, alpha=alpha)
    obj += tau * np.linalg.norm(L, ord='nuc')
    return obj

def latent_graphical_lasso(emp_cov, alpha=1.0, tau=1.0, rho=1.0, max_iter=100, verbose=False, tol=0.0001, rtol=0.01, return_history=False, return_n_iter=True, update_rho_options=None, compute_objective=True, init='empirical'):
    K = init_precision(emp_cov, mode=init)
    L = np.zeros_like(emp_cov)
    U = np.zeros_like(emp_cov)
    R_old = np.zeros_like(emp_cov)
    checks = []
    for iteration_ in range(max_iter):
        A = K - L - U
        A += A.T
        A /= 2.0
        R = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
        A = L + R + U
        K = soft_thresholding(A, lamda=alpha / rho)
        A = K - R - U
        A += A.T
        A /= 2.0
        L = prox_trace_indicator(A, lamda=tau / rho)
        U += R - K + L
        obj = objective(emp_cov, R, K, L, alpha, tau) if compute_objective else np.nan
        rnorm = np.linalg.norm(R - K + L)
        snorm = rho * np.linalg.norm(R - R_old)
        check = Convergence(obj=obj, rnorm=rnorm, snorm=snorm, e_pri=np.sqrt(R.size) * tol + rtol * max(np.linalg.norm(R), np.linalg.norm(K - L)), e_dual=np.sqrt(R.size) * tol + rtol * rho * np.linalg.norm(U))
        R_old = R.copy()
        if verbose:
            print(check)
        checks.append(check)
        if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
            break
        if check.obj == np.inf:
            break
        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_, **update_rho_options or {})
        U *= rho / rho_new
        rho = rho_new
    else:
        warnings.warn('Objective did not converge.')
    covariance_ = linalg.pinvh(K)
    return_list = [K, L, covariance_]
    if return_history:
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iteration_ + 1)
    return return_list

class LatentGraphicalLasso(GraphicalLasso):

    def __init__(self, alpha=0.01, tau=1.0, rho=1.0, tol=0.0001, rtol=0.0001, max_iter=100, verbose=False, assume_centered=False, mode='admm', update_rho_options=None, compute_objective=True, init='empirical'):
        super(LatentGraphicalLasso, self).__init__(alpha=alpha, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter, verbose=verbose, assume_centered=assume_centered, mode=mode, update_rho_options=update_rho_options, compute_objective=compute_objective, init=init)
        self.tau = tau

    def get_precision(self):
        return self.precision_ - self.latent_

    def _fit(self, emp_cov):
        self.precision_, self.latent_, self.covariance_, self.n_iter_ = latent_graphical_lasso(emp_cov, alpha=self.alpha, tau=self.tau, rho=self.rho, tol=self.tol, rtol=self.rtol, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=False, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.init)
        return self
