import warnings
import numpy as np
from sklearn.base import BaseEstimator
from sklearn.cluster import AgglomerativeClustering
from sklearn.gaussian_process import kernels
from sklearn.utils.extmath import squared_norm
from sklearn.utils.validation import check_X_y, check_is_fitted
from regain.covariance.kernel_time_graphical_lasso_ import precision_similarity
from regain.generalized_linear_model.base import build_adjacency_matrix
from regain.generalized_linear_model.glm_poisson import fit_each_variable, loss
from regain.norm import l1_od_norm
from regain.update_rules import update_rho
from regain.utils import Convergence
from regain.validation import check_norm_prox

def loss_poisson(X, K, n_samples=None):
    if n_samples is None:
        n_samples = np.ones(X.shape[0])
    return sum((ni * loss(x, k) for x, k, ni in zip(X, K, n_samples)))

def objective(X, K, Z_M, alpha, kernel, psi):
    obj = loss_poisson(X, K)
    obj += alpha * np.sum(l1_od_norm(K))
    for m in range(1, K.shape[0]):
        Z_L, Z_R = Z_M[m]
        obj += np.sum(np.array(list(map(psi, Z_R - Z_L))) * np.diag(kernel, m))
    return obj

def _fit_time_poisson_model(X, alpha=0.01, rho=1, kernel=None, max_iter=100, verbose=False, psi='laplacian', gamma=0.1, tol=0.0001, rtol=0.0001, return_history=False, return_n_iter=True, compute_objective=True, stop_at=None, stop_when=0.0001, n_cores=-1, update_rho_options=None):
    psi, prox_psi, psi_node_penalty = check_norm_prox(psi)
    n_times, n_samples, n_features = X.shape
    n_samples = np.array([n_samples] * n_times)
    if kernel is None:
        kernel = np.eye(n_times)
    K = np.zeros((n_times, n_features, n_features))
    Z_M = {}
    U_M = {}
    Z_M_old = {}
    for m in range(1, n_times):
        Z_L = K.copy()[:-m]
        Z_R = K.copy()[m:]
        Z_M[m] = (Z_L, Z_R)
        U_L = np.zeros_like(Z_L)
        U_R = np.zeros_like(Z_R)
        U_M[m] = (U_L, U_R)
        Z_L_old = np.zeros_like(Z_L)
        Z_R_old = np.zeros_like(Z_R)
        Z_M_old[m] = (Z_L_old, Z_R_old)
    checks = [Convergence(obj=objective(X, K, Z_M, alpha, kernel, psi))]
    for iteration_ in range(max_iter):
        A = np.zeros_like(K)
        for m in range(1, n_times):
            A[:-m] += Z_M[m][0] - U_M[m][0]
            A[m:] += Z_M[m][1] - U_M[m][1]
        A /= n_times
        A += A.transpose(0, 2, 1)
        A /= 2.0
        for t in range(n_times):
            thetas_pred = []
            for v in range(n_features):
                inner_verbose = max(0, verbose - 1)
                res = fit_each_variable(X[t, :, :], v, alpha, gamma=gamma, tol=tol, verbose=inner_verbose, A=A[t, :, :], T=n_times, rho=rho)
                thetas_pred.append(res[0])
            K[t, :, :] = build_adjacency_matrix(thetas_pred, 'union')
        for m in range(1, n_times):
            U_L, U_R = U_M[m]
            A_L = K[:-m] + U_L
            A_R = K[m:] + U_R
            if not psi_node_penalty:
                prox_e = prox_psi(A_R - A_L, lamda=2.0 * np.diag(kernel, m)[:, None, None] / rho)
                Z_L = 0.5 * (A_L + A_R - prox_e)
                Z_R = 0.5 * (A_L + A_R + prox_e)
            else:
                Z_L, Z_R = prox_psi(np.concatenate((A_L, A_R), axis=1), lamda=0.5 * np.diag(kernel, m)[:, None, None] / rho, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter)
            Z_M[m] = (Z_L, Z_R)
            U_L += K[:-m] - Z_L
            U_R += K[m:] - Z_R
        rnorm = np.sqrt(sum((squared_norm(K[:-m] - Z_M[m][0]) + squared_norm(K[m:] - Z_M[m][1]) for m in range(1, n_times))))
        snorm = rho * np.sqrt(sum((squared_norm(Z_M[m][0] - Z_M_old[m][0]) + squared_norm(Z_M[m][1] - Z_M_old[m][1]) for m in range(1, n_times))))
        obj = objective(X, K, Z_M, alpha, kernel, psi) if compute_objective else np.nan
        check = Convergence(obj=obj, rnorm=rnorm, snorm=snorm, e_pri=n_features * n_times * tol + rtol * max(np.sqrt(sum((squared_norm(Z_M[m][0]) + squared_norm(Z_M[m][1]) for m in range(1, n_times)))), np.sqrt(squared_norm(K) + sum((squared_norm(K[:-m]) + squared_norm(K[m:]) for m in range(1, n_times))))), e_dual=n_features * n_times * tol + rtol * rho * np.sqrt(sum((squared_norm(U_M[m][0]) + squared_norm(U_M[m][1]) for m in range(1, n_times)))))
        for m in range(1, n_times):
            Z_M_old[m] = (Z_M[m][0].copy(), Z_M[m][1].copy())
        if verbose:
            print(check)
        checks.append(check)
        if stop_at is not None:
            if abs(check.obj - stop_at) / abs(stop_at) < stop_when:
                break
        if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
            break
        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_, **update_rho_options or {})
        for m in range(1, n_times):
            U_L, U_R = U_M[m]
            U_L *= rho / rho_new
            U_R *= rho / rho_new
        rho = rho_new
    else:
        warnings.warn('Objective did not converge.')
    return_list = [K]
    if return_history:
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iteration_ + 1)
    return return_list

def objective_kernel(theta, K, psi, kernel, times):
    psi, _, _ = check_norm_prox(psi)
    try:
        kernel = kernel(length_scale=theta)(times)
    except TypeError:
        kernel = kernel(constant_value=theta)(times)
    obj = 0
    for m in range(1, K.shape[0]):
        obj += np.sum(np.array(list(map(psi, K[m:] - K[:-m]))) * np.diag(kernel, m))
    return obj

class TemporalPoissonModel(BaseEstimator):

    def __init__(self, alpha=0.01, kernel=None, rho=1.0, tol=0.0001, rtol=0.0001, gamma=0.01, psi='laplacian', max_iter=100, verbose=False, return_history=False, compute_objective=True, ker_param=1, max_iter_ext=100, n_cores=-1):
        self.alpha = alpha
        self.kernel = kernel
        self.rho = rho
        self.tol = tol
        self.rtol = rtol
        self.psi = psi
        self.max_iter = max_iter
        self.verbose = verbose
        self.return_history = return_history
        self.compute_objective = compute_objective
        self.ker_param = ker_param
        self.max_iter_ext = max_iter_ext
        self.gamma = gamma
        self.n_cores = n_cores

    def get_precision(self):
        return self.precision_

    def fit(self, X, y):
        X, y = check_X_y(X, y, accept_sparse=False, dtype=np.float64, order='C', ensure_min_features=2, estimator=self)
        self.classes_, n_samples = np.unique(y, return_counts=True)
        X = np.around(X)
        self.data = X.copy()
        if np.any(self.data < 0):
            raise ValueError('Using the poisson distribution your data has to be positive')
        X = np.array([X[y == cl] for cl in self.classes_])
        if self.ker_param == 'auto':
            from scipy.optimize import minimize_scalar
            if not callable(self.kernel):
                raise ValueError("kernel should be a function if ker_param=='auto'")
            theta_old = 0
            for i in range(self.max_iter_ext):
                theta = minimize_scalar(objective_kernel, args=(self.precision_, self.psi, self.kernel, self.classes_[:, None]), bounds=(0, X.shape[0]), method='bounded').x
                if i > 0 and abs(theta_old - theta) < 1e-05:
                    break
                elif self.verbose:
                    print('Find new theta: %f' % theta)
                try:
                    kernel = self.kernel(length_scale=theta)(self.classes_[:, None])
                except TypeError:
                    kernel = self.kernel(constant_value=theta)(self.classes_[:, None])
                out = _fit_time_poisson_model(X, gamma=self.gamma, alpha=self.alpha, rho=self.rho, kernel=kernel, tol=self.tol, rtol=self.rtol, psi=self.psi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, compute_objective=self.compute_objective, n_cores=self.n_cores)
                if self.return_history:
                    self.precision_, self.history_, self.n_iter_ = out
                else:
                    self.precision_, self.n_iter_ = out
                theta_old = theta
            else:
                warnings.warn('theta not converged')
        else:
            if callable(self.kernel):
                try:
                    kernel = self.kernel(length_scale=self.ker_param)(self.classes_[:, None])
                except TypeError:
                    kernel = self.kernel(constant_value=self.ker_param)(self.classes_[:, None])
            else:
                kernel = self.kernel
                if kernel is None:
                    kernel = np.identity(self.classes_.size)
                if kernel.shape[0] != self.classes_.size:
                    raise ValueError('Kernel size does not match classes of samples, got {} classes and kernel has shape {}'.format(self.classes_.size, kernel.shape[0]))
            out = _fit_time_poisson_model(X, gamma=self.gamma, alpha=self.alpha, rho=self.rho, kernel=kernel, tol=self.tol, rtol=self.rtol, psi=self.psi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, compute_objective=self.compute_objective)
            if self.return_history:
                self.precision_, self.history_, self.n_iter_ = out
            else:
                self.precision_, self.n_iter_ = out
        return self

    def score(self, X, y):
        X, y = check_X_y(X, y, accept_sparse=False, dtype=np.float64, order='C', ensure_min_features=2, estimator=self)
        return -99999999

class SimilarityTemporalPoissonModel(TemporalPoissonModel):

    def __init__(self, alpha=0.01, beta=1, kernel=None, rho=1.0, tol=0.0001, rtol=0.0001, psi='laplacian', max_iter=100, verbose=False, gamma=0.001, assume_centered=False, return_history=False, update_rho_options=None, compute_objective=True, ker_param=1, max_iter_ext=100, init='empirical', eps=1e-06, n_clusters=None):
        super(SimilarityTemporalPoissonModel, self).__init__(alpha=alpha, rho=rho, tol=tol, rtol=rtol, max_iter=max_iter, verbose=verbose, gamma=gamma, assume_centered=assume_centered, update_rho_options=update_rho_options, compute_objective=compute_objective, return_history=return_history, psi=psi, init=init)
        self.beta = beta
        self.kernel = kernel
        self.max_iter_ext = max_iter_ext
        self.eps = eps
        self.n_clusters = n_clusters

    def fit(self, X, y):
        X, y = check_X_y(X, y, accept_sparse=False, dtype=np.float64, order='C', ensure_min_features=2, estimator=self)
        self.classes_, n_samples = np.unique(y, return_counts=True)
        self.data = X.copy()
        if np.unique(self.data).size != 2:
            raise ValueError('Using the ising distribution your data has to contain only two values, either 0 and 1 or -1, 1')
        X = np.array([X[y == cl] for cl in self.classes_])
        print(X.shape)
        if self.kernel is None:
            self.precision_ = np.random.rand(X.shape[0], X.shape[0])
            n_times = self.precision_.shape[0]
            kernel = np.eye(n_times)
            psi, _, _ = check_norm_prox(self.psi)
            n_clusters = n_times if self.n_clusters is None else self.n_clusters
            labels_pred_old = 0
            for i in range(self.max_iter_ext):
                theta = precision_similarity(self.precision_, psi)
                kernel = theta
                labels_pred = AgglomerativeClustering(n_clusters=n_clusters, affinity='precomputed', linkage='complete').fit_predict(kernel)
                if i > 0 and np.linalg.norm(labels_pred - labels_pred_old) / labels_pred.size < self.eps:
                    break
                kernel = kernels.RBF(0.0001)(labels_pred[:, None]) + kernels.RBF(self.beta)(np.arange(n_times)[:, None])
                out = _fit_time_poisson_model(X, alpha=self.alpha, rho=self.rho, kernel=kernel, tol=self.tol, rtol=self.rtol, psi=self.psi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.precision_)
                if self.return_history:
                    self.precision_, self.history_, self.n_iter_ = out
                else:
                    self.precision_, self.n_iter_ = out
                labels_pred_old = labels_pred
            else:
                warnings.warn('theta did not converge.')
            self.similarity_matrix_ = kernel
        else:
            kernel = self.kernel
            if kernel.shape[0] != self.classes_.size:
                raise ValueError('Kernel size does not match classes of samples, got {} classes and kernel has shape {}'.format(self.classes_.size, kernel.shape[0]))
            out = _fit_time_poisson_model(X, alpha=self.alpha, rho=self.rho, kernel=kernel, tol=self.tol, rtol=self.rtol, psi=self.psi, max_iter=self.max_iter, verbose=self.verbose, return_n_iter=True, return_history=self.return_history, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.precision_)
            if self.return_history:
                self.precision_, self.history_, self.n_iter_ = out
            else:
                self.precision_, self.n_iter_ = out
        return self

    def transform(self, X, y=None):
        check_is_fitted(self, ['similarity_matrix_'])
        return self.similarity_matrix_
