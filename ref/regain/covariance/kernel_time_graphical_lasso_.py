import warnings
import numpy as np
from scipy import linalg
from six.moves import map, range
from sklearn.cluster import AgglomerativeClustering
from sklearn.gaussian_process import kernels
from sklearn.utils.extmath import squared_norm
from sklearn.utils.validation import check_is_fitted
from regain.covariance.time_graphical_lasso_ import TimeGraphicalLasso, init_precision, loss
from regain.norm import l1_od_norm
from regain.prox import prox_logdet, soft_thresholding
from regain.update_rules import update_rho
from regain.utils import Convergence
from regain.validation import check_norm_prox

def objective(n_samples, S, K, Z_0, Z_M, alpha, kernel, psi):
    obj = loss(S, K, n_samples=n_samples)
    if isinstance(alpha, np.ndarray):
        obj += np.sum(l1_od_norm(alpha * Z_0))
    else:
        obj += alpha * np.sum(l1_od_norm(Z_0))
    for m in range(1, Z_0.shape[0]):
        Z_L, Z_R = Z_M[m]
        obj += np.sum(np.array(list(map(psi, Z_R - Z_L))) * np.diag(kernel, m))
    return obj

def kernel_time_graphical_lasso(emp_cov, alpha=0.01, rho=1, kernel=None, max_iter=100, n_samples=None, verbose=False, psi='laplacian', tol=0.0001, rtol=0.0001, return_history=False, return_n_iter=True, mode='admm', update_rho_options=None, compute_objective=True, stop_at=None, stop_when=0.0001, init='empirical'):
    psi, prox_psi, psi_node_penalty = check_norm_prox(psi)
    n_times, _, n_features = emp_cov.shape
    if kernel is None:
        kernel = np.eye(n_times)
    Z_0 = init_precision(emp_cov, mode=init)
    U_0 = np.zeros_like(Z_0)
    Z_0_old = np.zeros_like(Z_0)
    Z_M, Z_M_old = ({}, {})
    U_M = {}
    for m in range(1, n_times):
        Z_L = Z_0.copy()[:-m]
        Z_R = Z_0.copy()[m:]
        Z_M[m] = (Z_L, Z_R)
        U_L = np.zeros_like(Z_L)
        U_R = np.zeros_like(Z_R)
        U_M[m] = (U_L, U_R)
        Z_L_old = np.zeros_like(Z_L)
        Z_R_old = np.zeros_like(Z_R)
        Z_M_old[m] = (Z_L_old, Z_R_old)
    if n_samples is None:
        n_samples = np.ones(n_times)
    checks = [Convergence(obj=objective(n_samples, emp_cov, Z_0, Z_0, Z_M, alpha, kernel, psi))]
    for iteration_ in range(max_iter):
        A = Z_0 - U_0
        for m in range(1, n_times):
            A[:-m] += Z_M[m][0] - U_M[m][0]
            A[m:] += Z_M[m][1] - U_M[m][1]
        A /= n_times
        A += A.transpose(0, 2, 1)
        A /= 2.0
        A *= -rho * n_times / n_samples[:, None, None]
        A += emp_cov
        lamda = np.expand_dims(n_samples / (rho * n_times), -1)
        K = prox_logdet(A, lamda)
        A = K + U_0
        A += A.transpose(0, 2, 1)
        A /= 2.0
        Z_0 = soft_thresholding(A, lamda=alpha / rho)
        U_0 += K - Z_0
        for m in range(1, n_times):
            U_L, U_R = U_M[m]
            A_L = K[:-m] + U_L
            A_R = K[m:] + U_R
            if not psi_node_penalty:
                prox_e = prox_psi(A_R - A_L, lamda=2.0 * np.diag(kernel, m)[:, None, None] / rho)
                Z_L = 0.5 * (A_L + A_R - prox_e)
                Z_R = 0.5 * (A_L + A_R + prox_e)
            else:
                Z_L, Z_R = prox_psi(np.concatenate((A_L, A_R), axis=1), lamda=0.5 * np.diag(kernel, m)[:, None, None] / rho, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter)
            Z_M[m] = (Z_L, Z_R)
            U_L += K[:-m] - Z_L
            U_R += K[m:] - Z_R
        rnorm = np.sqrt(squared_norm(K - Z_0) + sum((squared_norm(K[:-m] - Z_M[m][0]) + squared_norm(K[m:] - Z_M[m][1]) for m in range(1, n_times))))
        snorm = rho * np.sqrt(squared_norm(Z_0 - Z_0_old) + sum((squared_norm(Z_M[m][0] - Z_M_old[m][0]) + squared_norm(Z_M[m][1] - Z_M_old[m][1]) for m in range(1, n_times))))
        obj = objective(n_samples, emp_cov, Z_0, K, Z_M, alpha, kernel, psi) if compute_objective else np.nan
        check = Convergence(obj=obj, rnorm=rnorm, snorm=snorm, e_pri=n_features * n_times * tol + rtol * max(np.sqrt(squared_norm(Z_0) + sum((squared_norm(Z_M[m][0]) + squared_norm(Z_M[m][1]) for m in range(1, n_times)))), np.sqrt(squared_norm(K) + sum((squared_norm(K[:-m]) + squared_norm(K[m:]) for m in range(1, n_times))))), e_dual=n_features * n_times * tol + rtol * rho * np.sqrt(squared_norm(U_0) + sum((squared_norm(U_M[m][0]) + squared_norm(U_M[m][1]) for m in range(1, n_times)))))
        Z_0_old = Z_0.copy()
        for m in range(1, n_times):
            Z_M_old[m] = (Z_M[m][0].copy(), Z_M[m][1].copy())
        if verbose:
            print(check)
        checks.append(check)
        if stop_at is not None:
            if abs(check.obj - stop_at) / abs(stop_at) < stop_when:
                break
        if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
            break
        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_, **update_rho_options or {})
        U_0 *= rho / rho_new
        for m in range(1, n_times):
            U_L, U_R = U_M[m]
            U_L *= rho / rho_new
            U_R *= rho / rho_new
        rho = rho_new
    else:
        warnings.warn('Objective did not converge.')
    covariance_ = np.array([linalg.pinvh(x) for x in Z_0])
    return_list = [Z_0, covariance_]
    if return_history:
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iteration_ + 1)
    return return_list

def objective_kernel(theta, K, psi, kernel, times):
    psi, _, _ = check_norm_prox(psi)
    try:
        kernel = kernel(length_scale=theta)(times)
    except TypeError:
        kernel = kernel(constant_value=theta)(times)
    obj = 0
    for m in range(1, K.shape[0]):
        obj += np.sum(np.array(list(map(psi, K[m:] - K[:-m]))) * np.diag(kernel, m))
    return obj

def objective_similarity(theta, K, times, psi):
    obj = 0
    n_times = K.shape[0]
    kernel = np.eye(n_times)
    idx = np.triu_indices(n_times, 1)
    kernel[idx] = theta
    kernel[idx[::-1]] = theta
    for m in range(1, n_times):
        obj += np.sum(np.array(list(map(psi, K[m:] - K[:-m]))) * np.diag(kernel, m))
    return obj

def precision_similarity(K, psi):
    n_times = K.shape[0]
    kernel = np.zeros((n_times, n_times))
    for m in range(1, n_times):
        dist = list(map(psi, K[m:] - K[:-m]))
        np.fill_diagonal(kernel[m:], dist)
        np.fill_diagonal(kernel[:, m:], dist)
    kernel -= np.min(kernel)
    kernel /= np.max(kernel)
    return 1 - kernel

class KernelTimeGraphicalLasso(TimeGraphicalLasso):

    def __init__(self, alpha=0.01, beta=1, kernel=None, rho=1.0, tol=0.0001, rtol=0.0001, psi='laplacian', max_iter=100, verbose=False, assume_centered=False, return_history=False, update_rho_options=None, compute_objective=True, ker_param=1, max_iter_ext=100, init='empirical'):
        super(KernelTimeGraphicalLasso, self).__init__(alpha=alpha, beta=beta, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter, verbose=verbose, assume_centered=assume_centered, update_rho_options=update_rho_options, compute_objective=compute_objective, return_history=return_history, psi=psi, init=init)
        self.kernel = kernel
        self.ker_param = ker_param
        self.max_iter_ext = max_iter_ext

    def _fit(self, emp_cov, n_samples):
        if self.ker_param == 'auto':
            from scipy.optimize import minimize_scalar
            if not callable(self.kernel):
                raise ValueError("kernel should be a function if ker_param=='auto'")
            self.precision_ = init_precision(emp_cov, mode=self.init)
            theta_old = 0
            for i in range(self.max_iter_ext):
                theta = minimize_scalar(objective_kernel, args=(self.precision_, self.psi, self.kernel, self.classes_[:, None]), bounds=(0, emp_cov.shape[0]), method='bounded').x
                if i > 0 and abs(theta_old - theta) < 1e-05:
                    break
                elif self.verbose:
                    print('Find new theta: %f' % theta)
                try:
                    kernel = self.kernel(length_scale=theta)(self.classes_[:, None])
                except TypeError:
                    kernel = self.kernel(constant_value=theta)(self.classes_[:, None])
                out = kernel_time_graphical_lasso(emp_cov, alpha=self.alpha, rho=self.rho, kernel=kernel, n_samples=n_samples, tol=self.tol, rtol=self.rtol, psi=self.psi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.precision_)
                if self.return_history:
                    self.precision_, self.covariance_, self.history_, self.n_iter_ = out
                else:
                    self.precision_, self.covariance_, self.n_iter_ = out
                theta_old = theta
            else:
                warnings.warn('theta not converged')
        else:
            if callable(self.kernel):
                try:
                    kernel = self.kernel(length_scale=self.ker_param)(self.classes_[:, None])
                except TypeError:
                    kernel = self.kernel(constant_value=self.ker_param)(self.classes_[:, None])
            else:
                kernel = self.kernel
                if kernel is None:
                    kernel = np.identity(self.classes_.size)
                if kernel.shape[0] != self.classes_.size:
                    raise ValueError('Kernel size does not match classes of samples, got {} classes and kernel has shape {}'.format(self.classes_.size, kernel.shape[0]))
            out = kernel_time_graphical_lasso(emp_cov, alpha=self.alpha, rho=self.rho, kernel=kernel, n_samples=n_samples, tol=self.tol, rtol=self.rtol, psi=self.psi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.init)
            if self.return_history:
                self.precision_, self.covariance_, self.history_, self.n_iter_ = out
            else:
                self.precision_, self.covariance_, self.n_iter_ = out
        return self

class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):

    def __init__(self, alpha=0.01, beta=1, kernel=None, rho=1.0, tol=0.0001, rtol=0.0001, psi='laplacian', max_iter=100, verbose=False, assume_centered=False, return_history=False, update_rho_options=None, compute_objective=True, ker_param=1, max_iter_ext=100, init='empirical', eps=1e-06, n_clusters=None):
        super(SimilarityTimeGraphicalLasso, self).__init__(alpha=alpha, beta=beta, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter, verbose=verbose, assume_centered=assume_centered, update_rho_options=update_rho_options, compute_objective=compute_objective, return_history=return_history, psi=psi, ker_param=ker_param, init=init)
        self.kernel = kernel
        self.max_iter_ext = max_iter_ext
        self.eps = eps
        self.n_clusters = n_clusters

    def _fit(self, emp_cov, n_samples):
        if self.kernel is None:
            self.precision_ = init_precision(emp_cov, mode=self.init)
            n_times = self.precision_.shape[0]
            theta_old = np.zeros(n_times * (n_times - 1) // 2)
            kernel = np.eye(n_times)
            psi, _, _ = check_norm_prox(self.psi)
            n_clusters = n_times if self.n_clusters is None else self.n_clusters
            labels_pred_old = None
            for i in range(self.max_iter_ext):
                theta = precision_similarity(self.precision_, psi)
                kernel = theta
                labels_pred = AgglomerativeClustering(n_clusters=n_clusters, affinity='precomputed', linkage='complete').fit_predict(kernel)
                if i > 0 and np.linalg.norm(labels_pred - labels_pred_old) / labels_pred.size < self.eps:
                    break
                kernel = kernels.RBF(0.0001)(labels_pred[:, None]) + kernels.RBF(self.beta)(np.arange(n_times)[:, None])
                out = kernel_time_graphical_lasso(emp_cov, alpha=self.alpha, rho=self.rho, kernel=kernel, n_samples=n_samples, tol=self.tol, rtol=self.rtol, psi=self.psi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.precision_)
                if self.return_history:
                    self.precision_, self.covariance_, self.history_, self.n_iter_ = out
                else:
                    self.precision_, self.covariance_, self.n_iter_ = out
                theta_old = theta
                labels_pred_old = labels_pred
            else:
                warnings.warn('theta did not converge.')
            self.similarity_matrix_ = kernel
        else:
            kernel = self.kernel
            if kernel.shape[0] != self.classes_.size:
                raise ValueError('Kernel size does not match classes of samples, got {} classes and kernel has shape {}'.format(self.classes_.size, kernel.shape[0]))
            out = kernel_time_graphical_lasso(emp_cov, alpha=self.alpha, rho=self.rho, kernel=kernel, n_samples=n_samples, tol=self.tol, rtol=self.rtol, psi=self.psi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.init)
            if self.return_history:
                self.precision_, self.covariance_, self.history_, self.n_iter_ = out
            else:
                self.precision_, self.covariance_, self.n_iter_ = out
        return self

    def transform(self, X, y=None):
        check_is_fitted(self, ['similarity_matrix_'])
        return self.similarity_matrix_
