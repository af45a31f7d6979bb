import warnings
import numpy as np
from scipy import linalg
from six.moves import range
from sklearn.covariance import GraphicalLasso as GraphLasso, empirical_covariance
from sklearn.utils.extmath import fast_logdet
from sklearn.utils.validation import check_array
from regain.norm import l1_od_norm
from regain.prox import prox_logdet, soft_thresholding_off_diagonal
from regain.update_rules import update_rho
from regain.utils import Convergence

def logl(emp_cov, precision):
    return fast_logdet(precision) - np.sum(emp_cov * precision)

def objective(emp_cov, x, z, alpha):
    return -logl(emp_cov, x) + l1_od_norm(alpha * z)

def init_precision(emp_cov, mode='empirical'):
    if isinstance(mode, str) and mode == 'empirical':
        covariance_ = emp_cov.copy()
        covariance_ *= 0.95
        n_features = emp_cov.shape[-1]
        if emp_cov.ndim == 2:
            covariance_.flat[::n_features + 1] = emp_cov.flat[::n_features + 1]
            K = linalg.pinvh(covariance_)
        else:
            K = np.empty_like(emp_cov)
            for i, (c, e) in enumerate(zip(covariance_, emp_cov)):
                c.flat[::n_features + 1] = e.flat[::n_features + 1]
                K[i] = linalg.pinvh(c)
    elif isinstance(mode, np.ndarray):
        K = mode
    else:
        K = np.zeros_like(emp_cov)
    return K

def graphical_lasso(emp_cov, alpha=0.01, rho=1, over_relax=1, max_iter=100, verbose=False, tol=0.0001, rtol=0.0001, return_history=False, return_n_iter=True, update_rho_options=None, compute_objective=True, init='empirical'):
    Z = init_precision(emp_cov, mode=init)
    U = np.zeros_like(emp_cov)
    Z_old = np.zeros_like(Z)
    checks = []
    for iteration_ in range(max_iter):
        A = Z - U
        A += A.T
        A /= 2.0
        K = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
        K_hat = over_relax * K + (1 - over_relax) * Z
        Z = soft_thresholding_off_diagonal(K_hat + U, lamda=alpha / rho)
        U += K_hat - Z
        obj = objective(emp_cov, K, Z, alpha) if compute_objective else np.nan
        rnorm = np.linalg.norm(K - Z, 'fro')
        snorm = rho * np.linalg.norm(Z - Z_old, 'fro')
        check = Convergence(obj=obj, rnorm=rnorm, snorm=snorm, e_pri=np.sqrt(K.size) * tol + rtol * max(np.linalg.norm(K, 'fro'), np.linalg.norm(Z, 'fro')), e_dual=np.sqrt(K.size) * tol + rtol * rho * np.linalg.norm(U))
        Z_old = Z.copy()
        if verbose:
            print(check)
        checks.append(check)
        if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
            break
        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_, **update_rho_options or {})
        U *= rho / rho_new
        rho = rho_new
    else:
        warnings.warn('Objective did not converge.')
    return_list = [Z, emp_cov]
    if return_history:
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iteration_ + 1)
    return return_list

class GraphicalLasso(GraphLasso):

    def __init__(self, alpha=0.01, rho=1.0, over_relax=1.0, max_iter=100, mode='admm', tol=0.0001, rtol=0.0001, verbose=False, assume_centered=False, update_rho_options=None, compute_objective=True, init='empirical'):
        super(GraphicalLasso, self).__init__(alpha=alpha, tol=tol, max_iter=max_iter, verbose=verbose, assume_centered=assume_centered, mode=mode)
        self.rho = rho
        self.rtol = rtol
        self.over_relax = over_relax
        self.update_rho_options = update_rho_options
        self.compute_objective = compute_objective
        self.init = init

    def _fit(self, emp_cov):
        self.precision_, self.covariance_, self.n_iter_ = graphical_lasso(emp_cov, alpha=self.alpha, tol=self.tol, rtol=self.rtol, max_iter=self.max_iter, over_relax=self.over_relax, rho=self.rho, verbose=self.verbose, return_n_iter=True, return_history=False, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.init)
        return self

    def fit(self, X, y=None):
        X = check_array(X, ensure_min_features=2, ensure_min_samples=2, estimator=self)
        if self.assume_centered:
            self.location_ = np.zeros(X.shape[1])
        else:
            self.location_ = X.mean(0)
        emp_cov = empirical_covariance(X, assume_centered=self.assume_centered)
        return self._fit(emp_cov)
