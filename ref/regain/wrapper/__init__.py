try:
    import matlab
    import matlab.engine
except ImportError:
    matlab = None
try:
    from oct2py import octave
except:
    octave = None
import os
import numpy as np
matlab_engine = None

def check_matlab_engine(verbose=False):
    global matlab_engine
    if matlab_engine is None or not matlab_engine._check_matlab():
        if verbose:
            print('Starting matlab engine ...')
        try:
            matlab_engine = matlab.engine.start_matlab()
        except NameError as e:
            if "name 'matlab' is not defined" in str(e):
                raise ValueError('`matlab` package not found. Please note you will need Matlab >= 2016b to use it.')

def lvglasso(emp_cov, alpha, tau, rho=1, verbose=False, use_octave=True):
    lvglasso_path = os.path.join(os.path.abspath(os.path.dirname(__file__)), 'matlab', 'lvglasso')
    if use_octave:
        octave.addpath(lvglasso_path, nout=0)
        result = octave.LVGLASSO(emp_cov, alpha, tau, rho)
    else:
        global matlab_engine
        check_matlab_engine(verbose=verbose)
        matlab_engine.addpath(lvglasso_path, nargout=0)
        result = matlab_engine.LVGLASSO(matlab.double(emp_cov.tolist()), float(alpha), float(tau), float(rho))
    return result

def total_variation_condat(y, lamda, verbose=False):
    global matlab_engine
    check_matlab_engine(verbose=verbose)
    tv_path = os.path.join(os.path.abspath(os.path.dirname(__file__)), 'tv_condat')
    matlab_engine.addpath(tv_path, nargout=0)
    if verbose:
        print('Start GLOPRIDU algorithm ...')
    x = matlab_engine.TV_Condat_v2(matlab.double(y[:, None].tolist()), float(lamda))
    x = np.asarray(x).ravel()
    return x

def group_lasso_overlap_paspal(X, y, groups=(), lamda=0.1, verbose=False, **kwargs):
    global matlab_engine
    check_matlab_engine(verbose=verbose)
    glopridu_path = os.path.join(os.path.abspath(os.path.dirname(__file__)), 'GLO_PRIMAL_DUAL_TOOLBOX')
    matlab_engine.addpath(glopridu_path, nargout=0)
    if verbose:
        print('Start GLOPRIDU algorithm ...')
    coef_ = matlab_engine.glopridu_algorithm(matlab.double(X.tolist()), matlab.double(y[:, None].tolist()), [matlab.int32((np.array(x) + 1).tolist()) for x in groups], float(lamda))
    coef_ = np.asarray(coef_).ravel()
    return (coef_, None, np.nan)

def test_group_lasso_paspal():
    from sklearn.datasets import make_regression
    X, y, coef = make_regression(n_features=10, coef=True, n_informative=5)
    group_lasso_overlap_paspal(X, y, np.ones(10), 0.1)
