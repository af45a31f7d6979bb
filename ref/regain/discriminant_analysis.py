import numpy as np
from scipy import linalg
from six.moves import range
from sklearn.base import BaseEstimator
from sklearn.discriminant_analysis import QuadraticDiscriminantAnalysis
from sklearn.utils import check_array, check_X_y, deprecated
from sklearn.utils.extmath import fast_logdet
from sklearn.utils.multiclass import check_classification_targets
from sklearn.utils.validation import check_is_fitted
from regain.utils import ensure_posdef
__all__ = ('DiscriminantAnalysis', 'PrecomputedDiscriminantAnalysis')

class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):

    def __init__(self, estimator, ensure_posdef=False, priors=None):
        self.estimator = estimator
        self.priors = priors
        self.ensure_posdef = ensure_posdef

    def fit(self, X, y):
        if not hasattr(self.estimator, 'fit'):
            raise ValueError('estimator does not implement a `fit` method.')
        X, y = check_X_y(X, y)
        check_classification_targets(y)
        self.classes_, y = np.unique(y, return_inverse=True)
        n_samples, n_features = X.shape
        n_classes = len(self.classes_)
        if n_classes < 2:
            raise ValueError('The number of classes has to be greater than one; got %d class' % n_classes)
        if self.priors is None:
            self.priors_ = np.bincount(y) / float(n_samples)
        else:
            self.priors_ = np.asarray(self.priors)
        for ind in range(n_classes):
            Xg = X[y == ind, :]
            if len(Xg) == 1:
                raise ValueError('y has only 1 sample in class %s, covariance is ill defined.' % str(self.classes_[ind]))
        self.estimator.fit(X, y)
        self.precision_ = np.array(self.estimator.precision_)
        if hasattr(self.estimator, 'covariance_'):
            self.covariance_ = self.estimator.covariance_
        elif not self.ensure_posdef:
            self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])
        if self.ensure_posdef:
            ensure_posdef(self.precision_, inplace=True)
            self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])
        self.means_ = self.estimator.location_
        return self

    @deprecated('it will be removed in v0.2.0. Use `_decision_function` instead')
    def _decision_function2(self, X):
        check_is_fitted(self, 'classes_')
        X = check_array(X)
        precisions = self.get_observed_precision()
        norm2 = []
        for i in range(len(self.classes_)):
            Xm = X - self.means_[i]
            X2 = np.linalg.multi_dot((Xm, precisions[i], Xm.T))
            norm2.append(np.diag(X2))
        norm2 = np.array(norm2).T
        u = np.asarray([-fast_logdet(s) for s in precisions])
        return -0.5 * (norm2 + u) + np.log(self.priors_)

    def _decision_function(self, X):
        rotations, scalings = ([], [])
        for p in self.covariance_:
            R, S, Rt = np.linalg.svd(p, full_matrices=False)
            rotations.append(Rt.T)
            scalings.append(S)
        self.rotations_ = rotations
        self.scalings_ = scalings
        return super(DiscriminantAnalysis, self)._decision_function(X)

    def score(self, X, y, sample_weight=None):
        from sklearn.metrics import accuracy_score
        return accuracy_score(y, self.predict(X), sample_weight=sample_weight)

class PrecomputedDiscriminantAnalysis(BaseEstimator):

    def __init__(self, precision):
        self.precision = precision
        self.precision_ = np.array(precision)

    def fit(self, X, y=None):
        pass
