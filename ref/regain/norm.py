import numpy as np
from scipy.optimize import minimize

def vector_p_norm(a, p=1):
    b = np.array([b.flatten() for b in a]).T
    return np.linalg.norm(b, axis=1, ord=p).sum()

def l1_norm(precision):
    return np.abs(precision).sum()

def matrix_l1_norm(matrix):
    return np.sum(np.abs(matrix), (-1, -2))

def l1_od_norm(precision):
    diagonal_sum = np.abs(np.diagonal(precision, axis1=-2, axis2=-1)).sum(-1)
    return matrix_l1_norm(precision) - diagonal_sum

def node_penalty(X):
    cons = ({'type': 'eq', 'fun': lambda x: np.array((x.reshape(X.shape) + x.reshape(X.shape).T - X).sum()), 'jac': lambda x: np.full(X.size, 2)},)
    try:
        res = minimize(lambda x: np.sum(np.linalg.norm(x.reshape(X.shape), axis=0)), np.random.randn(X.size), constraints=cons).fun
    except ValueError:
        res = np.nan
    return res
