"""Reference definitions.  Never executed: they are lowered to value graphs by the same analysis as
the code under /repo and compared in canonical form.  `# of:` comments in SPECS tie them to code."""
import numpy as np
from scipy import linalg
from sklearn.utils.extmath import fast_logdet, squared_norm


# ------------------------------------------------------------------ norms
def vector_p_norm(a, p=1):
    b = np.array([x.flatten() for x in a]).T
    return np.sum(np.linalg.norm(b, axis=1, ord=p))


def l1_norm(precision):
    return np.sum(np.abs(precision))


def matrix_l1_norm(matrix):
    return np.sum(np.abs(matrix), axis=(-2, -1))


def l1_od_norm(precision):
    return np.sum(np.abs(precision), axis=(-2, -1)) - np.sum(
        np.abs(np.diagonal(precision, axis1=-2, axis2=-1)), axis=-1
    )


# ------------------------------------------------------------------ proximal operators
def soft_thresholding(a, lamda):
    return np.sign(a) * np.maximum(np.abs(a) - lamda, 0)


def soft_thresholding_2(a, lamda):
    return np.where(a > lamda, a - lamda, np.where(a < -lamda, a + lamda, 0))


def soft_thresholding_3(a, lamda):
    return np.maximum(a - lamda, 0) - np.maximum(-a - lamda, 0)


def soft_thresholding_4(a, lamda):
    return np.where(np.abs(a) > lamda, a - np.sign(a) * lamda, 0)


def soft_thresholding_5(a, lamda):
    return np.maximum(a - lamda, 0) + np.minimum(a + lamda, 0)


def prox_laplacian(a, lamda):
    return a / (1 + 2 * lamda)
