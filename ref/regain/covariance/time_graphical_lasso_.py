from __future__ import division
import warnings
import numpy as np
from scipy import linalg
from sklearn.covariance import empirical_covariance, log_likelihood
from sklearn.utils.extmath import squared_norm
from sklearn.utils.validation import check_X_y
from regain.covariance.graphical_lasso_ import GraphicalLasso, init_precision
from regain.math import batch_logdet
from regain.norm import l1_od_norm
from regain.prox import prox_logdet, soft_thresholding
from regain.update_rules import update_rho
from regain.utils import Convergence, error_norm_time
from regain.validation import check_norm_prox

def batch_log_likelihood(emp_cov, precision):
    return batch_logdet(precision) - np.sum(emp_cov * precision, axis=(-1, -2))

def loss(emp_cov, precision, n_samples: np.ndarray=None) -> float:
    if n_samples is None:
        batch_dim = emp_cov.shape[0]
        n_samples = np.ones(batch_dim)
    return np.sum(-n_samples * batch_log_likelihood(emp_cov, precision))

def objective(n_samples, emp_cov, K, Z_0, Z_1, Z_2, alpha, beta, psi) -> float:
    obj: float = loss(emp_cov, K, n_samples=n_samples)
    if isinstance(alpha, np.ndarray):
        obj += np.sum(l1_od_norm(alpha * Z_0))
    else:
        obj += alpha * np.sum(l1_od_norm(Z_0))
    if isinstance(beta, np.ndarray):
        obj += sum((b[0][0] * m for b, m in zip(beta, map(psi, Z_2 - Z_1))))
    else:
        obj += beta * sum(map(psi, Z_2 - Z_1))
    return obj

def time_graphical_lasso(emp_cov, alpha=0.01, rho=1, beta=1, max_iter=100, n_samples=None, verbose=False, psi='laplacian', tol=0.0001, rtol=0.0001, return_history=False, return_n_iter=True, mode='admm', compute_objective=True, stop_at=None, stop_when=0.0001, update_rho_options=None, init='empirical'):
    psi, prox_psi, psi_node_penalty = check_norm_prox(psi)
    Z_0 = init_precision(emp_cov, mode=init)
    Z_1 = Z_0.copy()[:-1]
    Z_2 = Z_0.copy()[1:]
    U_0 = np.zeros_like(Z_0)
    U_1 = np.zeros_like(Z_1)
    U_2 = np.zeros_like(Z_2)
    Z_0_old = np.zeros_like(Z_0)
    Z_1_old = np.zeros_like(Z_1)
    Z_2_old = np.zeros_like(Z_2)
    divisor = np.full(emp_cov.shape[0], 3, dtype=float)
    divisor[0] -= 1
    divisor[-1] -= 1
    if n_samples is None:
        n_samples = np.ones(emp_cov.shape[0])
    checks = [Convergence(obj=objective(n_samples, emp_cov, Z_0, Z_0, Z_1, Z_2, alpha, beta, psi))]
    for iteration_ in range(max_iter):
        A = Z_0 - U_0
        A[:-1] += Z_1 - U_1
        A[1:] += Z_2 - U_2
        A /= divisor[:, None, None]
        A += A.transpose(0, 2, 1)
        A /= 2.0
        A *= -rho * divisor[:, None, None] / n_samples[:, None, None]
        A += emp_cov
        lamda = np.expand_dims(n_samples / (rho * divisor), -1)
        K = prox_logdet(A, lamda)
        A = K + U_0
        A += A.transpose(0, 2, 1)
        A /= 2.0
        Z_0 = soft_thresholding(A, lamda=alpha / rho)
        A_1 = K[:-1] + U_1
        A_2 = K[1:] + U_2
        if not psi_node_penalty:
            prox_e = prox_psi(A_2 - A_1, lamda=2.0 * beta / rho)
            Z_1 = 0.5 * (A_1 + A_2 - prox_e)
            Z_2 = 0.5 * (A_1 + A_2 + prox_e)
        else:
            Z_1, Z_2 = prox_psi(np.concatenate((A_1, A_2), axis=1), lamda=0.5 * beta / rho, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter)
        U_0 += K - Z_0
        U_1 += K[:-1] - Z_1
        U_2 += K[1:] - Z_2
        rnorm = np.sqrt(squared_norm(K - Z_0) + squared_norm(K[:-1] - Z_1) + squared_norm(K[1:] - Z_2))
        snorm = rho * np.sqrt(squared_norm(Z_0 - Z_0_old) + squared_norm(Z_1 - Z_1_old) + squared_norm(Z_2 - Z_2_old))
        obj = objective(n_samples, emp_cov, Z_0, K, Z_1, Z_2, alpha, beta, psi) if compute_objective else np.nan
        check = Convergence(obj=obj, rnorm=rnorm, snorm=snorm, e_pri=np.sqrt(K.size + 2 * Z_1.size) * tol + rtol * max(np.sqrt(squared_norm(Z_0) + squared_norm(Z_1) + squared_norm(Z_2)), np.sqrt(squared_norm(K) + squared_norm(K[:-1]) + squared_norm(K[1:]))), e_dual=np.sqrt(K.size + 2 * Z_1.size) * tol + rtol * rho * np.sqrt(squared_norm(U_0) + squared_norm(U_1) + squared_norm(U_2)))
        Z_0_old = Z_0.copy()
        Z_1_old = Z_1.copy()
        Z_2_old = Z_2.copy()
        if verbose:
            print(check)
        checks.append(check)
        if stop_at is not None:
            if abs(check.obj - stop_at) / abs(stop_at) < stop_when:
                break
        if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
            break
        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_, **update_rho_options or {})
        U_0 *= rho / rho_new
        U_1 *= rho / rho_new
        U_2 *= rho / rho_new
        rho = rho_new
    else:
        warnings.warn('Objective did not converge.')
    covariance_ = np.array([linalg.pinvh(x) for x in Z_0])
    return_list = [Z_0, covariance_]
    if return_history:
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iteration_ + 1)
    return return_list

class TimeGraphicalLasso(GraphicalLasso):

    def __init__(self, alpha=0.01, beta=1.0, mode='admm', rho=1.0, tol=0.0001, rtol=0.0001, psi='laplacian', max_iter=100, verbose=False, assume_centered=False, return_history=False, update_rho_options=None, compute_objective=True, stop_at=None, stop_when=0.0001, suppress_warn_list=False, init='empirical'):
        super(TimeGraphicalLasso, self).__init__(alpha=alpha, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter, verbose=verbose, assume_centered=assume_centered, mode=mode, update_rho_options=update_rho_options, compute_objective=compute_objective, init=init)
        self.beta = beta
        self.psi = psi
        self.return_history = return_history
        self.stop_at = stop_at
        self.stop_when = stop_when
        self.suppress_warn_list = suppress_warn_list

    def get_observed_precision(self):
        return self.get_precision()

    def _fit(self, emp_cov, n_samples):
        out = time_graphical_lasso(emp_cov, alpha=self.alpha, rho=self.rho, beta=self.beta, mode=self.mode, n_samples=n_samples, tol=self.tol, rtol=self.rtol, psi=self.psi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, stop_at=self.stop_at, stop_when=self.stop_when, init=self.init)
        if self.return_history:
            self.precision_, self.covariance_, self.history_, self.n_iter_ = out
        else:
            self.precision_, self.covariance_, self.n_iter_ = out
        return self

    def fit(self, X, y):
        X, y = check_X_y(X, y, accept_sparse=False, dtype=np.float64, order='C', ensure_min_features=2, estimator=self)
        n_dimensions = X.shape[1]
        self.classes_, n_samples = np.unique(y, return_counts=True)
        n_times = self.classes_.size
        if self.assume_centered:
            self.location_ = np.zeros((n_times, n_dimensions))
        else:
            self.location_ = np.array([X[y == cl].mean(0) for cl in self.classes_])
        emp_cov = np.array([empirical_covariance(X[y == cl], assume_centered=self.assume_centered) for cl in self.classes_])
        return self._fit(emp_cov, n_samples)

    def score(self, X, y):
        X, y = check_X_y(X, y, accept_sparse=False, dtype=np.float64, order='C', ensure_min_features=2, estimator=self)
        test_cov = np.array([empirical_covariance(X[y == cl] - self.location_[i], assume_centered=True) for i, cl in enumerate(self.classes_)])
        res = sum((X[y == cl].shape[0] * log_likelihood(S, K) for S, K, cl in zip(test_cov, self.get_observed_precision(), self.classes_)))
        return res

    def error_norm(self, comp_cov, norm='frobenius', scaling=True, squared=True):
        return error_norm_time(self.covariance_, comp_cov, norm=norm, scaling=scaling, squared=squared)
