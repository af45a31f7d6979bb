import numpy as np
from six.moves import range
from regain.linear_model.lasso_ import lu_factor
from regain.prox import soft_thresholding_vector
from regain.utils import flatten

def group_lasso(A, b, lamda=1.0, groups=None, rho=1.0, alpha=1.0, max_iter=1000, tol=0.0001, rtol=0.01, return_history=False):
    n_samples, n_features = A.shape
    if not np.allclose(flatten(groups), np.arange(n_features)):
        raise ValueError('Invalid partition in groups. Groups must be non-overlapping and each variables must be selected')
    Atb = A.T.dot(b)
    x = np.zeros(n_features)
    z = np.zeros(n_features)
    u = np.zeros(n_features)
    L, U = lu_factor(A, rho)
    hist = []
    for _ in range(max_iter):
        q = Atb + rho * (z - u)
        if n_samples >= n_features:
            x = np.linalg.lstsq(U, np.linalg.lstsq(L, q)[0])[0]
        else:
            x = q - A.T.dot(np.linalg.lstsq(U, np.linalg.lstsq(L, A.dot(q))[0])[0]) / rho
            x /= rho
        zold = z.copy()
        x_hat = alpha * x + (1 - alpha) * zold
        for group in groups:
            z[group] = soft_thresholding_vector(x_hat[group] + u[group], lamda / rho)
        u += x_hat - z
        history = (objective(A, b, lamda, groups, x, z), np.linalg.norm(x - z), np.linalg.norm(-rho * (z - zold)), np.sqrt(n_features) * tol + rtol * max(np.linalg.norm(x), np.linalg.norm(-z)), np.sqrt(n_features) * tol + rtol * np.linalg.norm(rho * u))
        hist.append(history)
        if history[1] < history[3] and history[2] < history[4]:
            break
    return (z, hist) if return_history else z

def objective(A, b, alpha, groups, x, z):
    penalty = sum((np.linalg.norm(z[g]) for g in groups))
    return 0.5 * np.sum((A.dot(x) - b) ** 2) + alpha * penalty
