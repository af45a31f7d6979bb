import warnings
from functools import partial
import numpy as np
from sklearn.utils.extmath import squared_norm
from regain.math import create_from_diagonal, fill_diagonal, get_diagonal
from regain.update_rules import update_rho
from regain.utils import Convergence
try:
    from prox_tv import tv1_1d, tvp_1d, tvgen, tvp_2d
except ImportError:
    pass

def soft_thresholding(a, lamda):
    return np.sign(a) * np.maximum(np.abs(a) - lamda, 0)

def soft_thresholding_off_diagonal(a, lamda):
    soft = soft_thresholding(a, lamda)
    fill_diagonal(soft, get_diagonal(a))
    return soft

def soft_thresholding_vector(a, lamda):
    return np.maximum(1 - lamda / np.linalg.norm(a, axis=-1, keepdims=True), 0) * a

def blockwise_soft_thresholding(a, lamda):
    out = soft_thresholding_vector(a.swapaxes(-1, -2), lamda).swapaxes(-1, -2)
    return out

def blockwise_soft_thresholding_symmetric(a, lamda):
    col_norms = np.linalg.norm(a, axis=-2)
    out = np.matmul(a, create_from_diagonal((1 - lamda / col_norms) * (col_norms > lamda)))
    return out

def prox_linf_1d(a, lamda):
    from scipy.optimize import minimize

    def f(x):
        return lamda * np.linalg.norm(x, np.inf) + 0.5 * squared_norm(a - x)
    return minimize(f, a).x

def prox_linf(a, lamda):
    x = np.zeros_like(a)
    for t in range(a.shape[0]):
        x[t] = np.array([prox_linf_1d(a[t, :, j], lamda) for j in range(a.shape[1])]).T
    return x

def prox_logdet(a, lamda):
    es, Q = np.linalg.eigh(a)
    xi = (-es + np.sqrt(np.square(es) + 4.0 / lamda)) * lamda / 2.0
    Xi = create_from_diagonal(xi)
    QXiQt = np.matmul(np.matmul(Q, Xi), np.swapaxes(Q, -1, -2))
    return QXiQt

def prox_logdet_ala_ma(a, lamda):
    es, Q = np.linalg.eigh(a)
    xi = (-es + np.sqrt(np.square(es) + 4.0 * lamda)) / 2.0
    Xi = create_from_diagonal(xi)
    QXiQt = np.matmul(np.matmul(Q, Xi), np.swapaxes(Q, -1, -2))
    return QXiQt

def prox_trace_indicator(a, lamda):
    es, Q = np.linalg.eigh(a)
    xi = np.maximum(es - lamda, 0)
    Xi = create_from_diagonal(xi)
    QXiQt = np.matmul(np.matmul(Q, Xi), np.swapaxes(Q, -1, -2))
    return QXiQt

def prox_laplacian(a, lamda):
    return a / (1 + 2.0 * lamda)

def prox_node_penalty(A_12, lamda, rho=1, tol=0.0001, rtol=0.01, max_iter=500):
    n_time, _, n_dim = A_12.shape
    U_1 = np.full((A_12.shape[0], n_dim, n_dim), 1.0 / n_dim, dtype=float)
    U_2 = np.copy(U_1)
    Y_1 = np.copy(U_1)
    Y_2 = np.copy(U_1)
    C = np.hstack((np.eye(n_dim), -np.eye(n_dim), np.eye(n_dim)))
    inverse = np.linalg.inv(C.T.dot(C) + 2 * np.eye(3 * n_dim))
    V = np.zeros_like(U_1)
    W = np.zeros_like(U_1)
    V_old = np.zeros_like(U_1)
    W_old = np.zeros_like(U_1)
    for iteration_ in range(max_iter):
        A = (Y_1 - Y_2 - W - U_1 + (W.transpose(0, 2, 1) - U_2).transpose(0, 2, 1)) / 2.0
        V = blockwise_soft_thresholding_symmetric(A, lamda=lamda)
        A = np.concatenate(((V + U_2).transpose(0, 2, 1), A_12), axis=1)
        D = V + U_1
        Z = np.empty_like(A)
        for i, (A_i, D_i) in enumerate(zip(A, D)):
            Z[i] = inverse.dot(2 * A_i - C.T.dot(D_i))
        W, Y_1, Y_2 = (Z[:, i * n_dim:(i + 1) * n_dim, :] for i in range(3))
        delta_U_1 = V + W - (Y_1 - Y_2)
        delta_U_2 = V - W.transpose(0, 2, 1)
        U_1 += delta_U_1
        U_2 += delta_U_2
        rnorm = np.sqrt(squared_norm(delta_U_1) + squared_norm(delta_U_2))
        snorm = rho * np.sqrt(squared_norm(W - W_old) + squared_norm(V + W - V_old - W_old))
        check = Convergence(obj=np.nan, rnorm=rnorm, snorm=snorm, e_pri=np.sqrt(2 * V.size) * tol + rtol * max(np.sqrt(squared_norm(W) + squared_norm(V + W)), np.sqrt(squared_norm(V) + squared_norm(Y_1 - Y_2))), e_dual=np.sqrt(2 * V.size) * tol + rtol * rho * np.sqrt(squared_norm(U_1) + squared_norm(U_2)))
        W_old = W.copy()
        V_old = V.copy()
        if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
            break
        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_)
        U_1 *= rho / rho_new
        U_2 *= rho / rho_new
        rho = rho_new
    else:
        warnings.warn('Node norm did not converge.')
    return (Y_1, Y_2)

def prox_FL(a, beta, lamda, p=1, symmetric=False, use_matlab=False, optimize=True):
    if optimize:
        Y = tvgen(a, [beta], [1], [p], n_threads=32, max_iters=30)
    else:
        Y = np.empty_like(a)
        func = tv1_1d if p == 1 else partial(tvp_1d, p=p)
        if symmetric:
            x, y = np.triu_indices_from(a[0])
            b = np.vstack(a.transpose(1, 2, 0))
            upper_ind = x * a.shape[1] + y
            Z = np.zeros_like(b)
            Z[upper_ind] = [func(row, beta) for row in b[upper_ind]]
            e = np.array(np.split(Z, a.shape[1], axis=0)).transpose(2, 0, 1)
            Y = (e + e.transpose(0, 2, 1)) / (np.array([np.eye(a.shape[1]) for i in range(a.shape[0])]) + 1)
        else:
            for i in range(np.power(a.shape[1], 2)):
                solution = func(a.flat[i::np.power(a.shape[1], 2)], beta)
                Y.flat[i::np.power(a.shape[1], 2)] = solution
    Y_soft = soft_thresholding(Y, lamda)
    for y_s, y_fv in zip(Y_soft, Y):
        np.fill_diagonal(y_s, np.diag(y_fv))
    return Y_soft
