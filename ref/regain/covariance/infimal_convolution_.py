from __future__ import division
import warnings
import numpy as np
from scipy import linalg
from six.moves import range
from sklearn.utils.extmath import squared_norm
from regain.norm import l1_od_norm
from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding
from regain.update_rules import update_rho
from regain.utils import Convergence

def objective(S, R, K, L, alpha, tau):
    obj = 0.5 * squared_norm(S - R)
    obj += alpha * l1_od_norm(K)
    obj += tau * np.linalg.norm(L, ord='nuc')
    return obj

def infimal_convolution(S, alpha=1.0, tau=1.0, rho=1.0, max_iter=100, verbose=False, tol=0.0001, rtol=0.01, return_history=False, return_n_iter=True, update_rho_options=None, compute_objective=True):
    K = np.zeros_like(S)
    L = np.zeros_like(S)
    U = np.zeros_like(S)
    R_old = np.zeros_like(S)
    checks = []
    for iteration_ in range(max_iter):
        A = K - L - U
        A += A.T
        A /= 2.0
        R = prox_laplacian(S + rho * A, lamda=rho / 2.0)
        A = L + R + U
        K = soft_thresholding(A, lamda=alpha / rho)
        A = K - R - U
        A += A.T
        A /= 2.0
        L = prox_trace_indicator(A, lamda=tau / rho)
        U += R - K + L
        obj = objective(S, R, K, L, alpha, tau) if compute_objective else np.nan
        rnorm = np.linalg.norm(R - K + L)
        snorm = rho * np.linalg.norm(R - R_old)
        check = Convergence(obj=obj, rnorm=rnorm, snorm=snorm, e_pri=np.sqrt(R.size) * tol + rtol * max(np.linalg.norm(R), np.linalg.norm(K - L)), e_dual=np.sqrt(R.size) * tol + rtol * rho * np.linalg.norm(U))
        R_old = R.copy()
        if verbose:
            print(check)
        checks.append(check)
        if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
            break
        if check.obj == np.inf:
            break
        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_, **update_rho_options or {})
        U *= rho / rho_new
        rho = rho_new
    else:
        warnings.warn('Objective did not converge.')
    covariance_ = linalg.pinvh(K)
    return_list = [K, L, covariance_]
    if return_history:
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iteration_ + 1)
    return return_list
