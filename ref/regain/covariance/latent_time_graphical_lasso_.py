import warnings
import numpy as np
from scipy import linalg
from sklearn.utils.extmath import squared_norm
from regain.covariance.time_graphical_lasso_ import TimeGraphicalLasso, init_precision, objective as obj_tgl
from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
from regain.update_rules import update_rho
from regain.utils import Convergence
from regain.validation import check_norm_prox

def objective(emp_cov, n_samples, R, Z_0, Z_1, Z_2, W_0, W_1, W_2, alpha, tau, beta, eta, psi, phi):
    obj = obj_tgl(n_samples, emp_cov, R, Z_0, Z_1, Z_2, alpha, beta, psi)
    if isinstance(tau, np.ndarray):
        obj += np.sum(np.linalg.norm(tau * W_0, ord='nuc', axis=(-2, -1)))
    else:
        obj += tau * np.sum(np.linalg.norm(W_0, ord='nuc', axis=(-2, -1)))
    if isinstance(eta, np.ndarray):
        obj += sum((b[0][0] * m for b, m in zip(eta, map(phi, W_2 - W_1))))
    else:
        obj += eta * sum(map(phi, W_2 - W_1))
    return obj

def latent_time_graphical_lasso(emp_cov, alpha=0.01, tau=1.0, rho=1.0, beta=1.0, eta=1.0, max_iter=100, n_samples=None, verbose=False, psi='laplacian', phi='laplacian', mode='admm', tol=0.0001, rtol=0.0001, return_history=False, return_n_iter=True, update_rho_options=None, compute_objective=True, init='empirical'):
    psi, prox_psi, psi_node_penalty = check_norm_prox(psi)
    phi, prox_phi, phi_node_penalty = check_norm_prox(phi)
    Z_0 = init_precision(emp_cov, mode=init)
    Z_1 = Z_0.copy()[:-1]
    Z_2 = Z_0.copy()[1:]
    W_0 = np.zeros_like(Z_0)
    W_1 = np.zeros_like(Z_1)
    W_2 = np.zeros_like(Z_2)
    X_0 = np.zeros_like(Z_0)
    X_1 = np.zeros_like(Z_1)
    X_2 = np.zeros_like(Z_2)
    U_1 = np.zeros_like(W_1)
    U_2 = np.zeros_like(W_2)
    R_old = np.zeros_like(Z_0)
    Z_1_old = np.zeros_like(Z_1)
    Z_2_old = np.zeros_like(Z_2)
    W_1_old = np.zeros_like(W_1)
    W_2_old = np.zeros_like(W_2)
    divisor = np.full(emp_cov.shape[0], 3, dtype=float)
    divisor[0] -= 1
    divisor[-1] -= 1
    if n_samples is None:
        n_samples = np.ones(emp_cov.shape[0])
    checks = []
    for iteration_ in range(max_iter):
        A = Z_0 - W_0 - X_0
        A += A.transpose(0, 2, 1)
        A /= 2.0
        A *= -rho / n_samples[:, None, None]
        A += emp_cov
        lamda = np.expand_dims(n_samples / rho, -1)
        R = prox_logdet(A, lamda=lamda)
        A = R + W_0 + X_0
        A[:-1] += Z_1 - X_1
        A[1:] += Z_2 - X_2
        A /= divisor[:, None, None]
        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
        A_1 = Z_0[:-1] + X_1
        A_2 = Z_0[1:] + X_2
        if not psi_node_penalty:
            prox_e = prox_psi(A_2 - A_1, lamda=2.0 * beta / rho)
            Z_1 = 0.5 * (A_1 + A_2 - prox_e)
            Z_2 = 0.5 * (A_1 + A_2 + prox_e)
        else:
            Z_1, Z_2 = prox_psi(np.concatenate((A_1, A_2), axis=1), lamda=0.5 * beta / rho, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter)
        A = Z_0 - R - X_0
        A[:-1] += W_1 - U_1
        A[1:] += W_2 - U_2
        A /= divisor[:, None, None]
        A += A.transpose(0, 2, 1)
        A /= 2.0
        lamda = np.expand_dims(tau / (rho * divisor), -1)
        W_0 = prox_trace_indicator(A, lamda)
        A_1 = W_0[:-1] + U_1
        A_2 = W_0[1:] + U_2
        if not phi_node_penalty:
            prox_e = prox_phi(A_2 - A_1, lamda=2.0 * eta / rho)
            W_1 = 0.5 * (A_1 + A_2 - prox_e)
            W_2 = 0.5 * (A_1 + A_2 + prox_e)
        else:
            W_1, W_2 = prox_phi(np.concatenate((A_1, A_2), axis=1), lamda=0.5 * eta / rho, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter)
        X_0 += R - Z_0 + W_0
        X_1 += Z_0[:-1] - Z_1
        X_2 += Z_0[1:] - Z_2
        U_1 += W_0[:-1] - W_1
        U_2 += W_0[1:] - W_2
        rnorm = np.sqrt(squared_norm(R - Z_0 + W_0) + squared_norm(Z_0[:-1] - Z_1) + squared_norm(Z_0[1:] - Z_2) + squared_norm(W_0[:-1] - W_1) + squared_norm(W_0[1:] - W_2))
        snorm = rho * np.sqrt(squared_norm(R - R_old) + squared_norm(Z_1 - Z_1_old) + squared_norm(Z_2 - Z_2_old) + squared_norm(W_1 - W_1_old) + squared_norm(W_2 - W_2_old))
        obj = objective(emp_cov, n_samples, R, Z_0, Z_1, Z_2, W_0, W_1, W_2, alpha, tau, beta, eta, psi, phi) if compute_objective else np.nan
        check = Convergence(obj=obj, rnorm=rnorm, snorm=snorm, e_pri=np.sqrt(R.size + 4 * Z_1.size) * tol + rtol * max(np.sqrt(squared_norm(R) + squared_norm(Z_1) + squared_norm(Z_2) + squared_norm(W_1) + squared_norm(W_2)), np.sqrt(squared_norm(Z_0 - W_0) + squared_norm(Z_0[:-1]) + squared_norm(Z_0[1:]) + squared_norm(W_0[:-1]) + squared_norm(W_0[1:]))), e_dual=np.sqrt(R.size + 4 * Z_1.size) * tol + rtol * rho * np.sqrt(squared_norm(X_0) + squared_norm(X_1) + squared_norm(X_2) + squared_norm(U_1) + squared_norm(U_2)))
        R_old = R.copy()
        Z_1_old = Z_1.copy()
        Z_2_old = Z_2.copy()
        W_1_old = W_1.copy()
        W_2_old = W_2.copy()
        if verbose:
            print(check)
        checks.append(check)
        if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
            break
        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_, **update_rho_options or {})
        X_0 *= rho / rho_new
        X_1 *= rho / rho_new
        X_2 *= rho / rho_new
        U_1 *= rho / rho_new
        U_2 *= rho / rho_new
        rho = rho_new
    else:
        warnings.warn('Objective did not converge.')
    covariance_ = np.array([linalg.pinvh(x) for x in Z_0])
    return_list = [Z_0, W_0, covariance_]
    if return_history:
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iteration_ + 1)
    return return_list

class LatentTimeGraphicalLasso(TimeGraphicalLasso):

    def __init__(self, alpha=0.01, tau=1.0, beta=1.0, eta=1.0, mode='admm', rho=1.0, tol=0.0001, rtol=0.0001, psi='laplacian', phi='laplacian', max_iter=100, verbose=False, assume_centered=False, update_rho_options=None, compute_objective=True, init='empirical'):
        super(LatentTimeGraphicalLasso, self).__init__(alpha=alpha, beta=beta, mode=mode, rho=rho, tol=tol, rtol=rtol, psi=psi, max_iter=max_iter, verbose=verbose, assume_centered=assume_centered, update_rho_options=update_rho_options, compute_objective=compute_objective, init=init)
        self.tau = tau
        self.eta = eta
        self.phi = phi

    def get_observed_precision(self):
        return self.precision_ - self.latent_

    def _fit(self, emp_cov, n_samples):
        self.precision_, self.latent_, self.covariance_, self.n_iter_ = latent_time_graphical_lasso(emp_cov, n_samples=n_samples, alpha=self.alpha, tau=self.tau, rho=self.rho, beta=self.beta, eta=self.eta, mode=self.mode, tol=self.tol, rtol=self.rtol, psi=self.psi, phi=self.phi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=False, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.init)
        return self
