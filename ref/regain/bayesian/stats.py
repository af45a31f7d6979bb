import numpy as np
from scipy.stats import multivariate_normal
from sklearn.utils.extmath import squared_norm

def lognormal_pdf(x, mu, sigma):
    return np.exp(-0.5 * ((np.log(x) - mu) / sigma) ** 2) / (x * sigma * np.sqrt(2 * np.pi))

def lognormal_logpdf(x, mu, sigma):
    return np.log(lognormal_pdf(x, mu, sigma))

def lognstat(mean, variance):
    m2 = mean * mean
    mu = np.log(m2 / np.sqrt(variance + m2))
    sigma = np.sqrt(np.log(variance / m2 + 1))
    return (mu, sigma)

def log_lik_frob(S, D, variance):
    logl = -0.5 * (S.size * np.log(2.0 * np.pi * variance) + squared_norm(S - D) / variance)
    return logl

def t_mvn_logpdf(X, Cov):
    logp = sum((x.shape[0] * multivariate_normal.logpdf(x, cov=Sigma, allow_singular=True).sum() for x, Sigma in zip(X, Cov.T)))
    if not isinstance(logp, float):
        logp = sum(logp)
    return logp
