from __future__ import division

def update_rho(rho, rnorm, snorm, iteration=None, mu=10, tau_inc=2, tau_dec=2):
    if rnorm > mu * snorm:
        return tau_inc * rho
    elif snorm > mu * rnorm:
        return rho / tau_dec
    return rho

def update_gamma(gamma, iteration, eps=0.0001):
    if iteration % 20 == 0:
        gamma /= 2.0
    return max(gamma, eps)
