import numpy as np
from scipy import linalg
from sklearn.utils.extmath import fast_logdet

def h(D, K, delta=5):
    return -0.5 * (np.trace(K.T.dot(D)) - (delta - 2) * fast_logdet(K))

def first_derivative_h(D, K, delta=5):
    return -0.5 * (D - (delta - 2) * linalg.pinvh(K))

def first_derivative_h_version2(D, K, delta=5):
    res = np.empty_like(D)
    for i in range(D.shape[0]):
        for j in range(D.shape[1]):
            ones = np.zeros_like(D)
            ones[i, j] = ones[j, i] = 1.0
            res[i, j] = np.trace((D - (delta - 2) * linalg.pinvh(K)).dot(ones))
    return -res / 2.0

def second_derivative_h_version2(D, K, delta=5):
    K_inv = linalg.pinvh(K)
    num_edges = np.triu(K != 0, 1).sum()
    dof = num_edges + K.shape[0]
    H = np.empty((dof, dof))
    Vi, Vj = np.nonzero(np.triu(K != 0))
    idx = np.argsort(Vj)
    Vi, Vj = (Vi[idx], Vj[idx])
    for ei in range(dof):
        i, j = (Vi[ei], Vj[ei])
        for ej in range(ei, dof):
            l, m = (Vi[ej], Vj[ej])
            A = K_inv[[l, m]][:, [j, i]]
            B = K_inv[[i, j]][:, [m, l]]
            H[ei, ej] = H[ej, ei] = (A * B.T).sum()
    return -H * (delta - 2) / 2.0
