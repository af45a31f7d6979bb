import numpy as np
from scipy import linalg, stats
from scipy.special import multigammaln
from sklearn.base import BaseEstimator
from sklearn.datasets import make_sparse_spd_matrix
from sklearn.utils.extmath import fast_logdet
import statsmodels.sandbox.distributions.mv_normal as mvd

class WishartDistribution(BaseEstimator):

    def __init__(self, nu, S):
        self.nu = nu
        self.S = S
        self.D = S.shape[0]
        self.inv_S = linalg.pinvh(S)

    @property
    def mean(self):
        return self.nu * self.S

    @property
    def mode(self):
        return (self.nu - self.D - 1) * self.S if self.nu > self.D + 1 else np.nan

    def log_likelihood(self, X):
        nu = self.nu
        n_dim = X.shape[0]
        inv_S = self.inv_S
        logp = (nu - n_dim - 1) * fast_logdet(X)
        logp -= np.sum(X * inv_S)
        logp -= nu * n_dim * np.log(2)
        logp -= 2 * multigammaln(0.5 * nu, n_dim)
        logp -= nu * fast_logdet(self.S)
        logp /= 2.0
        return logp

    def likelihood(self, X):
        return np.exp(self.log_likelihood(X))

    def sample(self, n_samples=1):
        return stats.wishart(df=self.nu, scale=self.S, size=n_samples)

class InverseWishartDistribution(WishartDistribution):

    def __init__(self, nu, S):
        super(InverseWishartDistribution, self).__init__(nu=nu, S=S)

    @property
    def mean(self):
        return self.S / (self.nu - self.D - 1)

    @property
    def mode(self):
        return self.S / (self.nu + self.D + 1)

    def log_likelihood(self, X):
        nu = self.nu
        n_dim = X.shape[0]
        logp = nu * fast_logdet(self.S)
        logp -= np.sum(self.S * linalg.pinvh(X))
        logp -= (nu + n_dim + 1) * fast_logdet(X)
        logp -= nu * n_dim * np.log(2)
        logp -= 2 * multigammaln(0.5 * nu, n_dim)
        logp /= 2.0
        return logp

    def sample(self, n_samples=1):
        return stats.invwishart.rvs(df=self.nu, scale=self.S, size=n_samples)

class NormalInverseWishartDistribution(InverseWishartDistribution):

    def __init__(self, mu, kappa, nu, S):
        super(NormalInverseWishartDistribution, self).__init__(nu=nu, S=S)
        self.mu = mu
        self.kappa = kappa

    def sample(self, n_samples=1):
        iw_samples = super(NormalInverseWishartDistribution, self).sample(n_samples=n_samples)
        if n_samples == 1:
            mu = np.random.multivariate_normal(self.mu, iw_samples / self.kappa)
            return (mu, iw_samples)
        return [(np.random.multivariate_normal(self.mu, Sigma / self.kappa), Sigma) for Sigma in iw_samples]

    def log_likelihood(self, mu, X):
        logl = super(NormalInverseWishartDistribution, self).log_likelihood(X)
        logl += stats.multivariate_normal.logpdf(mu, self.mu, X / self.kappa)
        return logl

    @property
    def mode(self):
        return (self.mu, self.S / (self.nu + self.D + 2))

    @property
    def marginals(self):
        df = self.nu - self.D + 1
        marginal_mu = mvd.MVT(df=df, mean=self.mu.ravel(), sigma=self.S / (self.kappa * df))
        marginal_sigma = InverseWishartDistribution(nu=self.nu, S=self.S)
        return (marginal_mu, marginal_sigma)

    def posterior(self, X):
        n = X.shape[0]
        nu_n = self.nu + n
        S = X.T.dot(X)
        mean = np.mean(X, axis=0)
        k_0 = self.kappa
        k_n = k_0 + n
        m_0 = self.mu
        m_n = (k_0 * m_0 + n * mean) / k_n
        m_0 = np.atleast_2d(m_0)
        m_n = np.atleast_2d(m_n)
        S_n = self.S + S + k_0 * m_0.T.dot(m_0) - k_n * m_n.T.dot(m_n)
        return NormalInverseWishartDistribution(m_n, k_n, nu_n, S_n)

    def predictive(self):
        df = self.nu - self.D + 1
        return mvd.MVT(df=df, mean=self.mu.ravel(), sigma=(self.kappa + 1) * self.S / (self.kappa * df))

def main():
    n_dim = 5
    n_samples = 100
    v_0 = n_dim + 2 + 1
    Sigma = make_sparse_spd_matrix(n_dim, 0.75)
    mu = np.zeros(n_dim) - 3
    x = NormalInverseWishartDistribution(mu, 1, v_0, Sigma)
    X = np.random.multivariate_normal(mu, Sigma, size=n_samples)
    prior = NormalInverseWishartDistribution(np.zeros(n_dim), 1, v_0, np.eye(n_dim))
    z = prior.posterior(X)
    print(x)
    print(z)
    print(np.linalg.norm(z.mode[1] - Sigma))
    print(np.linalg.norm(z.marginal_mode - Sigma))
    print(np.linalg.norm(z.marginal_mean - Sigma))
if __name__ == '__main__':
    main()
