from __future__ import division
import warnings
import numpy as np
from regain.covariance.graphical_lasso_ import GraphicalLasso, graphical_lasso, logl

def compute_empirical_covariance(X, K, cs):
    emp_cov = np.zeros((X.shape[0], K.shape[0], K.shape[0]))
    aux = np.nan_to_num(np.copy(X))
    aux += cs
    for i in range(X.shape[0]):
        for v in range(emp_cov.shape[1]):
            for s in range(emp_cov.shape[1]):
                if np.isnan(X[i, v]) and np.isnan(X[i, s]):
                    nans = np.where(np.isnan(X[i, :]))[0]
                    xxm, yym = np.meshgrid(nans, nans)
                    inv = np.linalg.pinv(K[xxm, yym])[np.where(nans == v)[0][0], np.where(nans == s)[0][0]]
                    emp_cov[i, v, s] = inv + cs[i, v] * cs[i, s]
                else:
                    emp_cov[i, v, s] = aux[i, v] * aux[i, s]
    emp_cov = np.sum(emp_cov, axis=0)
    return emp_cov / np.max(emp_cov)

def compute_cs(means, K, X):
    cs = np.zeros_like(X)
    for i in range(X.shape[0]):
        nans = np.where(np.isnan(X[i, :]))[0]
        obs = np.where(np.logical_not(np.isnan(X[i, :])))[0]
        xxm, yym = np.meshgrid(nans, nans)
        xxm1, yyo = np.meshgrid(obs, nans)
        KK = np.linalg.pinv(K[xxm, yym]).dot(K[xxm1, yyo])
        cs[i, nans] = means[nans] - KK.dot(X[i, obs].T - means[obs])
    return cs / max(np.max(np.abs(cs)), 1)

def compute_mean(X, cs):
    aux = np.nan_to_num(np.copy(X))
    aux += cs
    return np.mean(aux, axis=0)

def missing_graphical_lasso(X, alpha=0.01, rho=1, over_relax=1, max_iter=100, verbose=False, tol=0.0001, rtol=0.0001, return_history=False, return_n_iter=True, update_rho_options=None, compute_objective=True, init='empirical'):
    K = np.eye(X.shape[1])
    means = np.zeros(X.shape[1])
    loglik = -np.inf
    checks = []
    for iter_ in range(max_iter):
        old_logl = loglik
        cs = compute_cs(means, K, X)
        means = compute_mean(X, cs)
        emp_cov = compute_empirical_covariance(X, K, cs)
        K, _ = graphical_lasso(emp_cov, alpha=alpha, rho=rho, over_relax=over_relax, max_iter=max_iter, verbose=max(0, int(verbose - 1)), tol=tol, rtol=rtol, return_history=False, return_n_iter=False, update_rho_options=update_rho_options, compute_objective=compute_objective, init=K)
        loglik = logl(emp_cov, K)
        diff = old_logl - loglik
        checks.append(dict(iteration=iter_, log_likelihood=loglik, difference=diff))
        if verbose:
            print('Iter %d: log-likelihood %.4f, difference: %.4f' % (iter_, loglik, diff))
        if np.abs(diff) < tol:
            break
    else:
        warnings.warn('The Missing Graphical Lasso algorithm did not converge')
    aux = np.nan_to_num(np.copy(X))
    aux += cs
    return_list = [K, emp_cov, aux]
    if return_history:
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iter_ + 1)
    return return_list

class MissingGraphicalLasso(GraphicalLasso):

    def __init__(self, alpha=0.01, rho=1.0, over_relax=1.0, max_iter=100, mode='admm', tol=0.0001, rtol=0.0001, verbose=False, assume_centered=False, update_rho_options=None, compute_objective=True, init='empirical'):
        super(MissingGraphicalLasso, self).__init__(alpha=alpha, tol=tol, max_iter=max_iter, verbose=verbose, assume_centered=assume_centered, mode=mode, rho=rho, rtol=rtol, over_relax=over_relax, update_rho_options=update_rho_options, compute_objective=compute_objective, init=init)

    def fit(self, X, y=None):
        self.precision_, self.covariance_, self.complete_data_matrix_, self.n_iter_ = missing_graphical_lasso(X, alpha=self.alpha, tol=self.tol, rtol=self.rtol, max_iter=self.max_iter, over_relax=self.over_relax, rho=self.rho, verbose=self.verbose, return_n_iter=True, return_history=False, update_rho_options=self.update_rho_options, compute_objective=self.compute_objective, init=self.init)
        return self
