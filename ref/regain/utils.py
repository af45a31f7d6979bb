from __future__ import division
import functools
import logging
import os
import sys
import warnings
from contextlib import contextmanager
from dataclasses import dataclass
import numpy as np
import six
from numpy.linalg.linalg import LinAlgError
from scipy import stats
from scipy.spatial.distance import squareform
from six.moves import cPickle as pkl
from sklearn.metrics import average_precision_score, matthews_corrcoef

def display_topics(H, W, feature_names, documents, n_top_words, n_top_documents, print_docs=True):
    topics = []
    for topic_idx, topic in enumerate(H):
        topics.append(' '.join([feature_names[i] + ' (%.3f)' % topic[i] for i in topic.argsort()[:-n_top_words - 1:-1]]))
        print('Topic %d: %s' % (topic_idx, topics[-1]))
        top_doc_indices = np.argsort(W[:, topic_idx])[::-1][:n_top_documents]
        if print_docs:
            for i, doc_index in enumerate(top_doc_indices):
                print('doc %d: %s' % (doc_index, documents[doc_index]))
    return topics

def logentropy_normalize(X):
    P = X / X.values.sum(axis=0, keepdims=True)
    E = 1 + (P * np.log(P)).fillna(0).values.sum(axis=0, keepdims=True) / np.log1p(X.shape[0])
    return E * np.log1p(X)

def top_n_indexes(arr, n):
    import bottleneck as bn
    idx = bn.argpartition(arr, arr.size - n, axis=None)[-n:]
    width = arr.shape[1]
    return [divmod(i, width) for i in idx]

def retain_top_n(arr, n):
    mask_array = np.zeros_like(arr)
    for idx in top_n_indexes(np.abs(arr), n):
        mask_array[idx] = arr[idx]
    return mask_array

@dataclass
class Convergence:
    obj: float = 0
    rnorm: float = 0
    snorm: float = 0
    e_pri: float = 0
    e_dual: float = 0
    precision: float = 0

    def __str__(self):
        return f'obj: {self.obj:.4f}, rnorm: {self.rnorm:.4f}, snorm: {self.snorm:.4f},eps_pri: {self.e_pri:.4f}, eps_dual: {self.e_dual:.4f}'

@contextmanager
def suppress_stdout():
    with open(os.devnull, 'w') as devnull:
        old_stdout = sys.stdout
        sys.stdout = devnull
        try:
            yield
        finally:
            sys.stdout = old_stdout

def _ensure_filename_ending(filename, possible_extensions='.txt'):
    if isinstance(possible_extensions, six.string_types):
        possible_extensions = [possible_extensions]
    return filename + ('' if any((filename.endswith(end) for end in possible_extensions)) else possible_extensions[0])

def init_logger(filename, verbose=True):
    logfile = _ensure_filename_ending(filename, ['.log', '.txt'])
    logging.shutdown()
    root_logger = logging.getLogger()
    for _ in list(root_logger.handlers):
        root_logger.removeHandler(_)
        _.flush()
        _.close()
    for _ in list(root_logger.filters):
        root_logger.removeFilter(_)
        _.flush()
        _.close()
    logging.basicConfig(filename=logfile, level=logging.INFO, filemode='w', format='%(levelname)s (%(asctime)-15s): %(message)s')
    stream_handler = logging.StreamHandler()
    stream_handler.setLevel(logging.INFO if verbose else logging.ERROR)
    stream_handler.setFormatter(logging.Formatter('%(levelname)s (%(asctime)-15s): %(message)s'))
    root_logger.addHandler(stream_handler)
    return logfile

def save_pickle(obj, filename):
    filename = _ensure_filename_ending(filename, '.pkl')
    with open(filename, 'wb') as f:
        pkl.dump(obj, f)

def load_pickle(filename):
    with open(filename, 'rb') as f:
        res = pkl.load(f)
    return res

def write_network(dataframe, filename):
    dataframe.stack().to_csv(filename)

def read_network(filename, threshold=1.0, full_network=True, fill_diagonal=True, delimiter='auto'):
    import pandas as pd
    if filename.endswith('.tsv') or filename.endswith('.tab'):
        if delimiter == 'auto':
            delimiter = '\t'
        elif delimiter != '\t':
            warnings.warn('The extension is suggesting the filename is tab-separated. Please check you are using the correct separator.')
    elif filename.endswith('.csv'):
        if delimiter == 'auto':
            delimiter = ','
        elif delimiter != ',':
            warnings.warn('The extension is suggesting the filename is comma-separated. Please check you are using the correct separator.')
    elif delimiter == 'auto':
        raise ValueError('Unrecognized format. Please specify a separator')
    nn = pd.read_csv(filename, delimiter=delimiter, header=None)
    columns = sorted(nn[0].unique(), key=lambda x: int(x[1:]))
    n_top_edges = int(nn.shape[0] * threshold / (2.0 if full_network else 1))
    nn = nn.sort_values(2, ascending=False)[:(2 if full_network else 1) * n_top_edges]
    net_julia = pd.DataFrame(columns=columns, index=columns, dtype=float).fillna(0)
    for row in nn.itertuples():
        if row[3] > 0:
            net_julia.loc[row[1], row[2]] = net_julia.loc[row[2], row[1]] = row[3]
    if fill_diagonal:
        np.fill_diagonal(net_julia.values, net_julia.sum(axis=1).values)
    return net_julia

def flatten(lst):
    return [y for l in lst for y in flatten(l)] if isinstance(lst, (list, np.ndarray)) else [lst]

def upper_to_full(a):
    n = int((np.sqrt(1 + 8 * a.shape[0]) - 1) / 2)
    A = np.zeros((n, n))
    idx = np.triu_indices(n)
    A[idx] = A[idx[::-1]] = a
    return A

def compose(*functions):

    def compose2(f, g):
        return lambda x: f(g(x))
    return functools.reduce(compose2, functions, lambda x: x)

def convert_data_to_2d(data):
    X = np.vstack(data)
    y = np.concatenate([np.ones(x.shape[0]) * i for i, x in enumerate(data)]).astype(int)
    return (X, y)

def error_rank(ells_true, ells_pred):
    ranks_true = np.array([np.linalg.matrix_rank(l) for l in ells_true])
    ranks_pred = np.array([np.linalg.matrix_rank(l) for l in ells_pred])
    return np.mean(np.abs(ranks_true - ranks_pred))

def normalize_matrix(x):
    d = np.diag(x).reshape(1, x.shape[0])
    d = 1.0 / np.sqrt(d)
    x *= d
    x *= d.T

def error_norm(cov, comp_cov, norm='frobenius', scaling=True, squared=True, upper_triangular=False, nonzero=False, n=False):
    if n:
        comp_cov = comp_cov.copy()
        cov = cov.copy()
        [normalize_matrix(c) for c in comp_cov]
        [normalize_matrix(c) for c in cov]
    if upper_triangular:
        comp_cov = np.triu(comp_cov, 1)
        cov = np.triu(cov, 1)
    if nonzero:
        comp_cov = comp_cov[np.where(cov == 0)]
        cov = cov[np.where(cov == 0)]
    error = comp_cov - cov
    if norm == 'frobenius':
        squared_norm = np.sum(error ** 2)
    elif norm == 'spectral':
        squared_norm = np.amax(np.linalg.svd(np.dot(error.T, error), compute_uv=False))
    else:
        raise NotImplementedError('Only spectral and frobenius norms are implemented')
    if scaling:
        scaling_factor = error.shape[0] if len(error.shape) < 3 else np.prod(error.shape[:2]) * ((error.shape[1] - 1) / 2.0 if upper_triangular else error.shape[1])
        squared_norm = squared_norm / scaling_factor
    if squared:
        result = squared_norm
    else:
        result = np.sqrt(squared_norm)
    return result

def error_norm_time(cov, comp_cov, norm='frobenius', scaling=True, squared=True):
    return np.mean([error_norm(x, y, norm=norm, scaling=scaling, squared=squared) for x, y in zip(cov, comp_cov)])

def structure_error(true, pred, thresholding=False, eps=0.01, no_diagonal=False):
    true = true.copy()
    pred = pred.copy()
    if true.ndim > 2:
        y_true = np.array(flatten([squareform(x, checks=None) for x in true]))
        y_pred = np.array(flatten([squareform(x, checks=None) for x in pred]))
    else:
        y_true = squareform(true, checks=None)
        y_pred = squareform(pred, checks=None)
    average_precision = average_precision_score(y_true > 0, y_pred)
    mcc = matthews_corrcoef(y_true > 0, y_pred > 0)
    if thresholding:
        pred[np.abs(pred) < eps] = 0
    tn_to_remove = 0
    if no_diagonal:
        if true.ndim > 2:
            true = np.array([t - np.diag(np.diag(t)) for t in true])
            pred = np.array([t - np.diag(np.diag(t)) for t in pred])
            tn_to_remove = np.prod(true.shape[:2])
        else:
            true -= np.diag(np.diag(true))
            pred -= np.diag(np.diag(pred))
            tn_to_remove = true.shape[0]
    true[true != 0] = 1
    pred[pred != 0] = 2
    res = true + pred
    TN = np.count_nonzero((res == 0).astype(float)) - tn_to_remove
    FN = np.count_nonzero((res == 1).astype(float))
    FP = np.count_nonzero((res == 2).astype(float))
    TP = np.count_nonzero((res == 3).astype(float))
    precision = TP / (TP + FP) if TP + FP > 0 else 0
    recall = TP / (TP + FN) if TP + FN > 0 else 0
    miss_rate = FN / (TP + FN) if TP + FN > 0 else 1 - recall
    f1 = 2 * precision * recall / (precision + recall) if precision + recall > 0 else 0
    accuracy = (TP + TN) / true.size
    prevalence = (TP + FN) / true.size
    fall_out = FP / (FP + TN) if FP + TN > 0 else 1
    specificity = TN / (FP + TN) if FP + TN > 0 else 1.0 - fall_out
    balanced_accuracy = 0.5 * (recall + specificity)
    false_discovery_rate = FP / (TP + FP) if TP + FP > 0 else 1 - precision
    false_omission_rate = FN / (FN + TN) if FN + TN > 0 else 0
    negative_predicted_value = TN / (FN + TN) if FN + TN > 0 else 1 - false_omission_rate
    positive_likelihood_ratio = recall / fall_out if fall_out > 0 else 0
    negative_likelihood_ratio = miss_rate / specificity if specificity > 0 else 0
    diagnostic_odds_ratio = positive_likelihood_ratio / negative_likelihood_ratio if negative_likelihood_ratio > 0 else 0
    dictionary = dict(tp=TP, tn=TN, fp=FP, fn=FN, precision=precision, recall=recall, f1=f1, accuracy=accuracy, false_omission_rate=false_omission_rate, fdr=false_discovery_rate, npv=negative_predicted_value, prevalence=prevalence, miss_rate=miss_rate, fall_out=fall_out, specificity=specificity, plr=positive_likelihood_ratio, nlr=negative_likelihood_ratio, dor=diagnostic_odds_ratio, balanced_accuracy=balanced_accuracy, average_precision=average_precision, mcc=mcc)
    return dictionary

def mean_structure_error(true, preds):
    dictionary = dict(tp=[], tn=[], fp=[], fn=[], precision=[], recall=[], f1=[], accuracy=[], false_omission_rate=[], fdr=[], npv=[], prevalence=[], miss_rate=[], fall_out=[], specificity=[], plr=[], nlr=[], dor=[], balanced_accuracy=[], average_precision=[], mcc=[])
    for p in preds:
        res = structure_error(true, p, no_diagonal=True)
        for k, v in res.items():
            dictionary[k].append(v)
    res = {}
    for k, l in dictionary.items():
        res[k] = str(np.mean(l)) + '+/-' + str(np.std(l))
    return res

def is_pos_semidef(x, tol=1e-15):
    eigs = np.linalg.eigvalsh(x)
    eigs[np.abs(eigs) < tol] = 0
    return np.all(eigs >= 0)

def is_pos_def(x, tol=1e-15, chol=True):
    if chol:
        try:
            np.linalg.cholesky(x)
            return True
        except LinAlgError:
            return False
    eigs = np.linalg.eigvalsh(x)
    eigs[np.abs(eigs) < tol] = 0
    return np.all(eigs > 0)

def positive_definite(x, tol=1e-15):
    if x.ndim == 2:
        return is_pos_def(x)
    return all((is_pos_def(y) for y in x))

def ensure_posdef(X, inplace=True):

    def _ensure_posdef_2d(X, inplace=True):
        if not inplace:
            raise NotImplementedError('Only inplace implemented')
        if positive_definite(X):
            return
        X.flat[::X.shape[0] + 1] = np.abs(X - np.diag(np.diag(X))).sum(axis=1) + 0.1
    if X.ndim == 2:
        return _ensure_posdef_2d(X, inplace)
    for x in X:
        _ensure_posdef_2d(x, inplace)
    return

def threshold(a, threshmin=None, threshmax=None, newval=0):
    a = np.ma.array(a, copy=True)
    mask = np.zeros(a.shape, dtype=bool)
    if threshmin is not None:
        mask |= (a < threshmin).filled(False)
    if threshmax is not None:
        mask |= (a > threshmax).filled(False)
    a[mask] = newval
    return a

def alpha_heuristic(emp_cov, n_samples, gamma=0.1):
    if emp_cov.ndim == 3:
        diag = np.diagonal(emp_cov, axis1=1, axis2=2)
        m = np.array([d[:, None].dot(d[None, :]) for d in diag]).max()
    elif emp_cov.ndim == 2:
        diag = np.diag(emp_cov)[:, None]
        m = np.max(diag.dot(diag.T))
    else:
        raise ValueError(emp_cov.ndim)
    t = stats.t.pdf(gamma, n_samples - 2) * 2
    num = t * m
    den = np.sqrt(n_samples - 2 + t * t)
    return num / den
