from functools import partial
import numpy as np
from sklearn.base import clone, is_classifier
from sklearn.metrics._scorer import _check_multimetric_scoring
from sklearn.model_selection import cross_val_score
from sklearn.model_selection._search import BaseSearchCV
from sklearn.model_selection._split import check_cv
from sklearn.utils import deprecated
try:
    import GPyOpt
    from GPyOpt.core.task.objective import SingleObjective
    from GPyOpt.core.task.cost import CostModel
    from GPyOpt.core.task.space import Design_space
    from GPyOpt.util.arguments_manager import ArgumentsManager
    from GPyOpt.optimization.acquisition_optimizer import AcquisitionOptimizer
except ImportError:
    raise ImportError('Module GPyOpt is missing. Cannot use bayesian optimization')

@deprecated()
class _BayesianOptimization(GPyOpt.methods.BayesianOptimization, BaseSearchCV):

    def __init__(self, estimator, domain=None, constraints=None, cost_withGradients=None, model_type='GP', X=None, Y=None, initial_design_numdata=5, initial_design_type='random', acquisition_type='EI', normalize_Y=True, exact_feval=False, acquisition_optimizer_type='lbfgs', model_update_interval=1, evaluator_type='sequential', batch_size=1, num_cores=1, verbosity_model=False, verbosity=False, de_duplication=False, max_iter=50, refit=True, cv=None, scoring=None, n_jobs=1, verbose=False, **kwargs):
        self.modular_optimization = False
        self.initial_iter = True
        self.verbosity = verbosity
        self.verbosity_model = verbosity_model
        self.model_update_interval = model_update_interval
        self.de_duplication = de_duplication
        self.kwargs = kwargs
        self.problem_config = ArgumentsManager(kwargs)
        self.constraints = constraints
        self.domain = domain or {}
        self.space = Design_space(self.domain, self.constraints)
        self.objective_name = kwargs.get('objective_name', '') or 'no_name'
        self.batch_size = batch_size
        self.num_cores = num_cores
        self.cost = CostModel(cost_withGradients)
        self.X = X
        self.Y = Y
        self.initial_design_type = initial_design_type
        self.initial_design_numdata = initial_design_numdata
        self.model_type = model_type
        self.exact_feval = exact_feval
        self.normalize_Y = normalize_Y
        if 'model' in self.kwargs and isinstance(kwargs['model'], GPyOpt.models.base.BOModel):
            self.model = kwargs['model']
            self.model_type = 'User defined model used.'
            if self.verbose:
                print('Using a model defined by the used.')
        else:
            self.model = self._model_chooser()
        self.acquisition_optimizer_type = acquisition_optimizer_type
        self.acquisition_optimizer = AcquisitionOptimizer(self.space, self.acquisition_optimizer_type, model=self.model)
        self.acquisition_type = acquisition_type
        if 'acquisition' in self.kwargs and isinstance(kwargs['acquisition'], GPyOpt.acquisitions.AcquisitionBase):
            self.acquisition = kwargs['acquisition']
            self.acquisition_type = 'User defined acquisition used.'
            if self.verbose:
                print('Using an acquisition defined by the used.')
        else:
            self.acquisition = self._acquisition_chooser()
        self.evaluator_type = evaluator_type
        self.evaluator = self._evaluator_chooser()
        self.cost = CostModel(self.cost)
        self.normalization_type = 'stats'
        self.estimator = estimator
        self.cv = cv
        self.max_iter = max_iter
        self.refit = refit
        self.scoring = scoring
        self.verbose = verbose
        self.n_jobs = n_jobs

    @property
    def param_names(self):
        return [element['name'] for element in self.domain]

    def fit(self, X, y=None, groups=None, **fit_params):
        cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
        scorers, self.multimetric_ = _check_multimetric_scoring(self.estimator, scoring=self.scoring)
        score_function = partial(cross_val_score, X=X, y=y, groups=groups, scoring=self.scoring, cv=cv, n_jobs=self.n_jobs, verbose=self.verbose, fit_params=fit_params)
        self.f = partial(_fit_score, mdl=self.estimator, param_names=self.param_names, score_function=score_function)
        self.objective = SingleObjective(self.f, self.batch_size, self.objective_name)
        self._init_design_chooser()
        self.run_optimization(max_iter=self.max_iter, verbosity=self.verbosity)
        self.best_index_ = self.Y.argmin()
        self.best_params_ = dict(zip(self.param_names, 10 ** self.X[self.best_index_]))
        self.best_score_ = self.Y[self.Y.argmin()]
        self.scorer_ = scorers if self.multimetric_ else scorers['score']
        if self.refit:
            self.best_estimator_ = clone(self.estimator).set_params(**self.best_params_)
            if y is not None:
                self.best_estimator_.fit(X, y, **fit_params)
            else:
                self.best_estimator_.fit(X, **fit_params)
        return self

    def plot_acquisition(self):
        old_X, old_Y = (self.X, self.Y)
        self.X = self.X[~np.isinf(self.Y).ravel()]
        self.Y = self.Y[~np.isinf(self.Y).ravel()]
        super(_BayesianOptimization, self).plot_acquisition()
        self.X, self.Y = (old_X, old_Y)

def _fit_score(x, score_function, mdl=None, param_names=None):
    x = 10 ** np.atleast_2d(x)
    return -np.array([np.mean(score_function(mdl.set_params(**dict(zip(param_names, pars))))) for pars in x])[:, None]
