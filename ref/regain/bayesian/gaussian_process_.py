import numpy as np

def sample(K, nu=1, p=3):
    return np.random.multivariate_normal(np.zeros(K.shape[0]), K, size=(nu, p))
