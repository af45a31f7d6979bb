import numpy as np
from sklearn.base import BaseEstimator
from sklearn.utils import check_array
from regain.generalized_linear_model.base import Convergence, GLM_GM, build_adjacency_matrix
from regain.norm import l1_od_norm
from regain.prox import soft_thresholding

def loss_single_variable(X, theta, n, r, selector):
    objective = 0
    for i in range(n):
        XXT = X[i, r] * X[i, selector].dot(theta)
        expXT = np.exp(X[i, selector].dot(theta))
        objective += expXT - XXT
    return 1 / n * objective

def objective(X, theta, alpha):
    n, d = X.shape
    objective = 0
    if not np.all(theta == theta.T):
        return np.inf
    for r in range(d):
        selector = [i for i in range(d) if i != r]
        objective += objective_single_variable(X, theta[r, selector], n, r, selector, 0)
    return objective + alpha * l1_od_norm(theta)

def objective_single_variable(X, theta, n, r, selector, alpha):
    objective = 0
    for i in range(X.shape[0]):
        XXT = X[i, r] * X[i, selector].dot(theta)
        expXT = np.exp(X[i, selector].dot(theta))
        objective += expXT - XXT
    return 1 / n * objective + alpha * np.linalg.norm(theta, 1)

def fit_each_variable(X, ix, alpha=0.01, gamma=1, tol=0.001, max_iter=100, verbose=0, update_gamma=0.5, return_history=True, compute_objective=True, return_n_iter=False, adjust_gamma=False, A=None, T=0, rho=1):
    n, d = X.shape
    theta = np.zeros(d - 1)
    selector = [i for i in range(d) if i != ix]

    def gradient(X, theta, r, selector, n, A, T, rho):
        XTX = X[:, selector].T.dot(X[:, r])
        EXK = X[:, selector].T.dot(np.exp(X[:, selector].dot(theta)))
        to_add = 0
        if A is not None:
            to_add = rho * T * (theta - A[r, selector]) / n
        return -(1 / n) * (XTX - EXK) + to_add
    thetas = [theta]
    checks = []
    for iter_ in range(max_iter):
        theta_old = thetas[-1]
        grad = gradient(X, theta, ix, selector, n, A, T, rho)
        while True:
            theta_new = theta - gamma * grad
            theta = soft_thresholding(theta_new, alpha * gamma)
            loss_new = loss_single_variable(X, theta, n, ix, selector)
            loss_old = loss_single_variable(X, theta_old, n, ix, selector)
            diff_theta2 = np.linalg.norm(theta_old - theta) ** 2
            grad_diff = grad.dot(theta_old - theta)
            diff = loss_old - grad_diff + diff_theta2 / (2 * gamma)
            if loss_new > diff or np.isinf(loss_new) or np.isnan(loss_new):
                gamma = update_gamma * gamma
                theta = theta_old - gamma * grad
                theta = soft_thresholding(theta, alpha * gamma)
                loss_new = loss_single_variable(X, theta, n, ix, selector)
                diff = loss_old - grad_diff + diff_theta2 / (2 * gamma)
            else:
                break
        thetas.append(theta)
        if iter_ > 0:
            check = Convergence(iter=iter_, obj=objective_single_variable(X, theta, n, ix, selector, alpha), iter_norm=np.linalg.norm(thetas[-2] - thetas[-1]), iter_r_norm=np.linalg.norm(thetas[-2] - thetas[-1]) / np.linalg.norm(thetas[-2]))
            checks.append(check)
            if verbose:
                print(check)
            if np.abs(check.iter_norm) < tol:
                break
    return_list = [thetas[-1]]
    if return_history:
        return_list.append(thetas)
        return_list.append(checks)
    if return_n_iter:
        return_list.append(iter_ + 1)
    return return_list

def loss(X, theta):
    n, d = X.shape
    objective = 0
    for r in range(d):
        selector = [i for i in range(d) if i != r]
        a = loss_single_variable(X, theta[r, selector], n, r, selector)
        objective += a
    return objective

class PoissonGraphicalModel(GLM_GM, BaseEstimator):

    def __init__(self, alpha=0.01, tol=0.0001, rtol=0.0001, reconstruction='union', mode='coordinate_descent', max_iter=100, gamma=0.1, intercept=False, verbose=False, return_history=True, return_n_iter=False, compute_objective=True):
        super(PoissonGraphicalModel, self).__init__(alpha, tol, rtol, max_iter, verbose, return_history, return_n_iter, compute_objective)
        self.reconstruction = reconstruction
        self.mode = mode
        self.gamma = gamma
        self.intercept = intercept

    def get_precision(self):
        return self.precision_

    def fit(self, X, y=None):
        X = check_array(X)
        if self.mode.lower() == 'symmetric_fbs':
            raise ValueError('Not implemented.')
        elif self.mode.lower() == 'coordinate_descent':
            thetas_pred = []
            historys = []
            if self.intercept:
                X = np.hstack((X, np.ones((X.shape[0], 1))))
            for ix in range(X.shape[1]):
                verbose = max(0, self.verbose - 1)
                res = fit_each_variable(X, ix, self.alpha, gamma=self.gamma, tol=self.tol, max_iter=self.max_iter, verbose=verbose)
                thetas_pred.append(res[0])
                historys.append(res[1:])
            self.precision_ = build_adjacency_matrix(thetas_pred, how=self.reconstruction)
            self.history = historys
        else:
            raise ValueError('Unknown optimization mode. Found ' + self.mode + ". Options are 'coordiante_descent', 'symmetric_fbs'")
        return self

    def score(self, X, y=None):
        return 0
