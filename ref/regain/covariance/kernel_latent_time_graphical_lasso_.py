import warnings
import numpy as np
from scipy import linalg
from sklearn.cluster import AgglomerativeClustering
from sklearn.gaussian_process import kernels
from sklearn.utils.extmath import squared_norm
from sklearn.utils.validation import check_is_fitted
from regain.covariance.kernel_time_graphical_lasso_ import KernelTimeGraphicalLasso, init_precision, objective as obj_ktgl, precision_similarity
from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
from regain.update_rules import update_rho
from regain.utils import Convergence
from regain.validation import check_norm_prox

def objective(S, n_samples, R, Z_0, Z_M, W_0, W_M, alpha, tau, kernel_psi, kernel_phi, psi, phi):
    obj = obj_ktgl(n_samples, S, R, Z_0, Z_M, alpha, kernel_psi, psi)
    if isinstance(tau, np.ndarray):
        obj += np.sum(np.linalg.norm(tau * W_0, ord='nuc', axis=(-2, -1)))
    else:
        obj += tau * np.sum(np.linalg.norm(W_0, ord='nuc', axis=(-2, -1)))
    for m in range(1, W_0.shape[0]):
        W_L, W_R = W_M[m]
        obj += np.sum(np.array(list(map(phi, W_R - W_L))) * np.diag(kernel_phi, m))
    return obj

def kernel_latent_time_graphical_lasso(emp_cov, alpha=0.01, tau=1.0, rho=1.0, kernel_psi=None, kernel_phi=None, max_iter=100, verbose=False, psi='laplacian', phi='laplacian', mode='admm', tol=0.0001, rtol=0.0001, assume_centered=False, n_samples=None, return_history=False, return_n_iter=True, update_rho_options=None, compute_objective=True, init='empirical'):
    psi, prox_psi, psi_node_penalty = check_norm_prox(psi)
    phi, prox_phi, phi_node_penalty = check_norm_prox(phi)
    n_times, _, n_features = emp_cov.shape
    if kernel_psi is None:
        kernel_psi = np.eye(n_times)
    if kernel_phi is None:
        kernel_phi = np.eye(n_times)
    Z_0 = init_precision(emp_cov, mode=init)
    W_0 = np.zeros_like(Z_0)
    X_0 = np.zeros_like(Z_0)
    R_old = np.zeros_like(Z_0)
    Z_M, Z_M_old = ({}, {})
    Y_M = {}
    W_M, W_M_old = ({}, {})
    U_M = {}
    for m in range(1, n_times):
        Z_L = Z_0.copy()[:-m]
        Z_R = Z_0.copy()[m:]
        Z_M[m] = (Z_L, Z_R)
        W_L = np.zeros_like(Z_L)
        W_R = np.zeros_like(Z_R)
        W_M[m] = (W_L, W_R)
        Y_L = np.zeros_like(Z_L)
        Y_R = np.zeros_like(Z_R)
        Y_M[m] = (Y_L, Y_R)
        U_L = np.zeros_like(W_L)
        U_R = np.zeros_like(W_R)
        U_M[m] = (U_L, U_R)
        Z_L_old = np.zeros_like(Z_L)
        Z_R_old = np.zeros_like(Z_R)
        Z_M_old[m] = (Z_L_old, Z_R_old)
        W_L_old = np.zeros_like(W_L)
        W_R_old = np.zeros_like(W_R)
        W_M_old[m] = (W_L_old, W_R_old)
    if n_samples is None:
        n_samples = np.ones(n_times)
    checks = []
    for iteration_ in range(max_iter):
        A = Z_0 - W_0 - X_0
        A += A.transpose(0, 2, 1)
        A /= 2.0
        A *= -rho / n_samples[:, None, None]
        A += emp_cov
        lamda = np.expand_dims(n_samples / rho, -1)
        R = prox_logdet(A, lamda=lamda)
        A = R + W_0 + X_0
        for m in range(1, n_times):
            A[:-m] += Z_M[m][0] - Y_M[m][0]
            A[m:] += Z_M[m][1] - Y_M[m][1]
        A /= n_times
        Z_0 = soft_thresholding(A, lamda=alpha / (rho * n_times))
        A = Z_0 - R - X_0
        for m in range(1, n_times):
            A[:-m] += W_M[m][0] - U_M[m][0]
            A[m:] += W_M[m][1] - U_M[m][1]
        A /= n_times
        A += A.transpose(0, 2, 1)
        A /= 2.0
        W_0 = np.array([prox_trace_indicator(a, lamda=tau / (rho * n_times)) for a in A])
        X_0 += R - Z_0 + W_0
        for m in range(1, n_times):
            Y_L, Y_R = Y_M[m]
            A_L = Z_0[:-m] + Y_L
            A_R = Z_0[m:] + Y_R
            if not psi_node_penalty:
                prox_e = prox_psi(A_R - A_L, lamda=2.0 * np.diag(kernel_psi, m)[:, None, None] / rho)
                Z_L = 0.5 * (A_L + A_R - prox_e)
                Z_R = 0.5 * (A_L + A_R + prox_e)
            else:
                Z_L, Z_R = prox_psi(np.concatenate((A_L, A_R), axis=1), lamda=0.5 * np.diag(kernel_psi, m)[:, None, None] / rho, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter)
            Z_M[m] = (Z_L, Z_R)
            Y_L += Z_0[:-m] - Z_L
            Y_R += Z_0[m:] - Z_R
            U_L, U_R = U_M[m]
            A_L = W_0[:-m] + U_L
            A_R = W_0[m:] + U_R
            if not phi_node_penalty:
                prox_e = prox_phi(A_R - A_L, lamda=2.0 * np.diag(kernel_phi, m)[:, None, None] / rho)
                W_L = 0.5 * (A_L + A_R - prox_e)
                W_R = 0.5 * (A_L + A_R + prox_e)
            else:
                W_L, W_R = prox_phi(np.concatenate((A_L, A_R), axis=1), lamda=0.5 * np.diag(kernel_phi, m)[:, None, None] / rho, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter)
            W_M[m] = (W_L, W_R)
            U_L += W_0[:-m] - W_L
            U_R += W_0[m:] - W_R
        rnorm = np.sqrt(squared_norm(R - Z_0 + W_0) + sum((squared_norm(Z_0[:-m] - Z_M[m][0]) + squared_norm(Z_0[m:] - Z_M[m][1]) + squared_norm(W_0[:-m] - W_M[m][0]) + squared_norm(W_0[m:] - W_M[m][1]) for m in range(1, n_times))))
        snorm = rho * np.sqrt(squared_norm(R - R_old) + sum((squared_norm(Z_M[m][0] - Z_M_old[m][0]) + squared_norm(Z_M[m][1] - Z_M_old[m][1]) + squared_norm(W_M[m][0] - W_M_old[m][0]) + squared_norm(W_M[m][1] - W_M_old[m][1]) for m in range(1, n_times))))
        obj = objective(emp_cov, n_samples, R, Z_0, Z_M, W_0, W_M, alpha, tau, kernel_psi, kernel_phi, psi, phi) if compute_objective else np.nan
        check = Convergence(obj=obj, rnorm=rnorm, snorm=snorm, e_pri=n_features * np.sqrt(n_times * (2 * n_times - 1)) * tol + rtol * max(np.sqrt(squared_norm(R) + sum((squared_norm(Z_M[m][0]) + squared_norm(Z_M[m][1]) + squared_norm(W_M[m][0]) + squared_norm(W_M[m][1]) for m in range(1, n_times)))), np.sqrt(squared_norm(Z_0 - W_0) + sum((squared_norm(Z_0[:-m]) + squared_norm(Z_0[m:]) + squared_norm(W_0[:-m]) + squared_norm(W_0[m:]) for m in range(1, n_times))))), e_dual=n_features * np.sqrt(n_times * (2 * n_times - 1)) * tol + rtol * rho * np.sqrt(squared_norm(X_0) + sum((squared_norm(Y_M[m][0]) + squared_norm(Y_M[m][1]) + squared_norm(U_M[m][0]) + squared_norm(U_M[m][1]) for m in range(1, n_times)))))
        R_old = R.copy()
        for m in range(1, n_times):
            Z_M_old[m] = (Z_M[m][0].copy(), Z_M[m][1].copy())
            W_M_old[m] = (W_M[m][0].copy(), W_M[m][1].copy())
        if verbose:
            print(check)
        checks.append(check)
        if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
            break
        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_, **update_rho_options or {})
        X_0 *= rho / rho_new
        for m in range(1, n_times):
            Y_L, Y_R = Y_M[m]
            Y_L *= rho / rho_new
            Y_R *= rho / rho_new
            U_L, U_R = U_M[m]
            U_L *= rho / rho_new
            U_R *= rho / rho_new
        rho = rho_new
    else:
        warnings.warn('Objective did not converge.')
    covariance_ = np.array([linalg.pinvh(x) for x in Z_0])
    return_list = [Z_0, W_0, covariance_]
    if return_history:
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iteration_ + 1)
    return return_list

class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):

    def __init__(self, alpha=0.01, tau=1.0, kernel_psi=None, kernel_phi=None, rho=1.0, tol=0.0001, rtol=0.0001, psi='laplacian', phi='laplacian', max_iter=100, verbose=False, assume_centered=False, return_history=False, update_rho_options=None, compute_objective=True, ker_psi_param=1, ker_phi_param=1, init='empirical'):
        super(KernelLatentTimeGraphicalLasso, self).__init__(alpha=alpha, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter, verbose=verbose, assume_centered=assume_centered, update_rho_options=update_rho_options, compute_objective=compute_objective, return_history=return_history, psi=psi, init=init)
        self.kernel_psi = kernel_psi
        self.kernel_phi = kernel_phi
        self.tau = tau
        self.phi = phi
        self.ker_psi_param = ker_psi_param
        self.ker_phi_param = ker_phi_param

    def get_observed_precision(self):
        return self.precision_ - self.latent_

    def _fit(self, emp_cov, n_samples):
        if callable(self.kernel_phi):
            try:
                kernel_phi = self.kernel_phi(length_scale=self.ker_phi_param)(self.classes_[:, None])
            except TypeError:
                kernel_phi = self.kernel_phi(constant_value=self.ker_phi_param)(self.classes_[:, None])
        else:
            kernel_phi = self.kernel_phi
            if kernel_phi is None:
                kernel_phi = np.identity(self.classes_.size)
            if kernel_phi.shape[0] != self.classes_.size:
                raise ValueError('kernel_phi size does not match classes of samples, got {} classes and kernel_phi has shape {}'.format(self.classes_.size, kernel_phi.shape[0]))
        if callable(self.kernel_psi):
            try:
                kernel_psi = self.kernel_psi(length_scale=self.ker_psi_param)(self.classes_[:, None])
            except TypeError:
                kernel_psi = self.kernel_psi(constant_value=self.ker_psi_param)(self.classes_[:, None])
        else:
            kernel_psi = self.kernel_psi
            if kernel_psi is None:
                kernel_psi = np.identity(self.classes_.size)
            if kernel_psi.shape[0] != self.classes_.size:
                raise ValueError('kernel_psi size does not match classes of samples, got {} classes and kernel_psi has shape {}'.format(self.classes_.size, kernel_psi.shape[0]))
        out = kernel_latent_time_graphical_lasso(emp_cov, alpha=self.alpha, tau=self.tau, rho=self.rho, kernel_phi=kernel_phi, kernel_psi=kernel_psi, n_samples=n_samples, tol=self.tol, rtol=self.rtol, psi=self.psi, phi=self.phi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.init)
        if self.return_history:
            self.precision_, self.latent_, self.covariance_, self.history_, self.n_iter_ = out
        else:
            self.precision_, self.latent_, self.covariance_, self.n_iter_ = out
        return self

class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):

    def __init__(self, alpha=0.01, beta=1.0, tau=1.0, eta=1.0, kernel_psi=None, kernel_phi=None, rho=1.0, tol=0.0001, rtol=0.0001, psi='laplacian', phi='laplacian', max_iter=100, verbose=False, assume_centered=False, return_history=False, update_rho_options=None, compute_objective=True, ker_psi_param=1, ker_phi_param=1, max_iter_ext=100, init='empirical', eps=1e-06, n_clusters=None):
        super(SimilarityLatentTimeGraphicalLasso, self).__init__(alpha=alpha, tau=tau, phi=phi, psi=psi, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter, verbose=verbose, assume_centered=assume_centered, update_rho_options=update_rho_options, compute_objective=compute_objective, return_history=return_history, kernel_psi=kernel_psi, kernel_phi=kernel_phi, ker_psi_param=ker_psi_param, ker_phi_param=ker_phi_param, init=init)
        self.beta = beta
        self.eta = eta
        self.max_iter_ext = max_iter_ext
        self.eps = eps
        self.n_clusters = n_clusters

    def get_observed_precision(self):
        return self.precision_ - self.latent_

    def _fit(self, emp_cov, n_samples):
        if self.kernel_psi is None:
            n_times = emp_cov.shape[0]
            kernel_phi = self.kernel_phi
            if self.kernel_phi is None or callable(self.kernel_phi):
                kernel_phi = np.eye(n_times)
                np.fill_diagonal(kernel_phi[:, 1:], self.eta)
                np.fill_diagonal(kernel_phi[1:], self.eta)
            self.precision_ = init_precision(emp_cov, mode=self.init)
            self.latent_ = np.zeros_like(self.precision_)
            theta_old = np.zeros(n_times * (n_times - 1) // 2)
            kernel_psi = np.eye(n_times)
            psi, _, _ = check_norm_prox(self.psi)
            n_clusters = n_times if self.n_clusters is None else self.n_clusters
            labels_pred_old = None
            for i in range(self.max_iter_ext):
                theta = precision_similarity(self.get_precision(), psi)
                kernel_psi = theta
                labels_pred = AgglomerativeClustering(n_clusters=n_clusters, affinity='precomputed', linkage='complete').fit_predict(kernel_psi)
                if i > 0 and np.linalg.norm(labels_pred - labels_pred_old) / labels_pred.size < self.eps:
                    break
                kernel_psi = kernels.RBF(0.0001)(labels_pred[:, None]) + kernels.RBF(self.beta)(np.arange(n_times)[:, None])
                out = kernel_latent_time_graphical_lasso(emp_cov, alpha=self.alpha, tau=self.tau, rho=self.rho, kernel_phi=kernel_phi, kernel_psi=kernel_psi, n_samples=n_samples, tol=self.tol, rtol=self.rtol, psi=self.psi, phi=self.phi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.precision_)
                if self.return_history:
                    self.precision_, self.latent_, self.covariance_, self.history_, self.n_iter_ = out
                else:
                    self.precision_, self.latent_, self.covariance_, self.n_iter_ = out
                theta_old = theta
                labels_pred_old = labels_pred
            else:
                warnings.warn('theta did not converge.')
            self.similarity_matrix_ = kernel_psi
        else:
            if callable(self.kernel_phi):
                try:
                    kernel_phi = self.kernel_phi(length_scale=self.ker_phi_param)(self.classes_[:, None])
                except TypeError:
                    kernel_phi = self.kernel_phi(constant_value=self.ker_phi_param)(self.classes_[:, None])
            else:
                kernel_phi = self.kernel_phi
                if kernel_phi.shape[0] != self.classes_.size:
                    raise ValueError('kernel_phi size does not match classes of samples, got {} classes and kernel_phi has shape {}'.format(self.classes_.size, kernel_phi.shape[0]))
            if callable(self.kernel_psi):
                try:
                    kernel_psi = self.kernel_psi(length_scale=self.ker_psi_param)(self.classes_[:, None])
                except TypeError:
                    kernel_psi = self.kernel_psi(constant_value=self.ker_psi_param)(self.classes_[:, None])
            else:
                kernel_psi = self.kernel_psi
                if kernel_psi.shape[0] != self.classes_.size:
                    raise ValueError('kernel_psi size does not match classes of samples, got {} classes and kernel_psi has shape {}'.format(self.classes_.size, kernel_psi.shape[0]))
            out = kernel_latent_time_graphical_lasso(emp_cov, alpha=self.alpha, tau=self.tau, rho=self.rho, kernel_phi=kernel_phi, kernel_psi=kernel_psi, n_samples=n_samples, tol=self.tol, rtol=self.rtol, psi=self.psi, phi=self.phi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.init)
            if self.return_history:
                self.precision_, self.latent_, self.covariance_, self.history_, self.n_iter_ = out
            else:
                self.precision_, self.latent_, self.covariance_, self.n_iter_ = out
        return self

    def transform(self, X, y=None):
        check_is_fitted(self, ['similarity_matrix_'])
        return self.similarity_matrix_
