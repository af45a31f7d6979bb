import json,subprocess
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
M=[("over-relaxed","C08"),("init_precision","C03"),("n_iter reported","C10"),("missing_graphical_lasso history","C31"),("forward phi","C03"),("latent kernel it builds","C03"),
("precomputed kernel","C29"),("stores ker_param","C01"),("n_clusters during fit","C02"),("return inf for asym","C16"),("Ising gradient sums","C20"),("union reconstruction","C09"),("unknown reconstruction","C17"),
("forwards gamma","C03"),("forward gamma","C03"),("add the loss instead","C20"),("rejects negative","C17"),("global random state","C15"),("leftover debugging","C15"),("compute_mean","C31"),
("lasso solvers return","C11"),("previous iterate","C07"),("shrinks each group","C25"),("stores groups as given","C02"),("choose_lamda","C16"),("overwrite alpha ","C02"),("discriminant analysis estimators store","C01"),
("precision of the wrapped","C23"),("Matthews","C19"),("empty true graph","C19"),("existing numpy function","C16"),("classes of different size","C12"),("make_sin normalizes","C18"),("make_sin_cos","C18"),
("Ising samplers do not","C04"),("direct_sampling","C18"),("requested responses","C18"),("load_finance","C18"),("WishartProcess stores","C01"),("each sampled L","C30"),("alphas during fit","C02"),("unknown score","C17"),("silence all","C15"),("sample_ell","C04"),("prints its progress","C15"),("warns instead of printing","C15"),("monotonised instability","C24")]
out=[]
for l in log[1:]:
    h,s=l.split(" ",1)
    p=[p for k,p in M if k in s]
    assert p,s
    out.append(dict(status="fixed",property=p[0],commit=h,what=s[5:],line="fixed: property=%s %s %s"%(p[0],h,s[5:])))
P="regain.generalized_linear_model.glm_time_poisson."; G="regain.model_selection.stability_optimization.GraphicalModelStabilitySelection"
S=P+"SimilarityTemporalPoissonModel"; B="regain.model_selection._bayesian_optimization._BayesianOptimization"
K=[]
def k(p,m,w): K.append(dict(status="known",property=p,match=m,what=w))
for a,st in (("assume_centered","not stored"),("update_rho_options","not stored"),("ker_param","not stored unchanged (always 1)"),("init","not stored")):
    k("C01",r"constructor %s argument %s "%(S,a),"SimilarityTemporalPoissonModel.__init__: argument %s is %s"%(a,st))
for a in ("domain","model_type","acquisition_type"):
    k("C01",r"constructor %s argument %s "%(B,a),"_BayesianOptimization.__init__: argument %s is not stored unchanged"%a)
for a in "estimator param_grid scoring n_jobs iid refit cv verbose pre_dispatch error_score return_train_score".split():
    k("C01",r"constructor %s argument %s "%(G,a),"GraphicalModelStabilitySelection.__init__: argument %s is not stored (the base constructor call does not match the installed scikit-learn)"%a)
k("C02",r"mutates regain.discriminant_analysis.DiscriminantAnalysis.fit hyper-parameter estimator is fitted in place","DiscriminantAnalysis.fit fits self.estimator itself instead of a clone")
k("C02",r"rebinds %s\.\w+ self.sampling_size is reassigned"%G,"GraphicalModelStabilitySelection.fit overwrites self.sampling_size")
k("C02",r"rebinds %s\.\w+ self.cv is reassigned"%G,"GraphicalModelStabilitySelection.fit overwrites self.cv")
k("C04",r"caller-array regain.bayesian.sampling.elliptical_slice argument current_state","elliptical_slice updates its argument current_state in place")
k("C15",r"random \S+ numpy.random.randn in regain.norm.","norm.node_penalty starts its minimisation from a draw of the global random generator")
k("C15",r"random regain.clustering\.\w+ numpy.random.shuffle","clustering.graph_k_means initialises with the global random generator")
k("C15",r"history %sTemporalPoissonModel.fit reads self.precision_"%P,"TemporalPoissonModel.fit with ker_param='auto' reads self.precision_ before setting it (AttributeError, or the result of an earlier fit)")
k("C15",r"history %s.fit reads self.precision_"%S,"SimilarityTemporalPoissonModel.fit with ker_param='auto' reads self.precision_ before setting it")
k("C15",r"random %s\.\w+ numpy.random.rand "%S,"SimilarityTemporalPoissonModel.fit draws from the global random generator")
k("C15",r"prints %s\.\w+ print "%S,"SimilarityTemporalPoissonModel.fit prints unconditionally")
for a in ("assume_centered","update_rho_options","init"):
    k("C16",r"call %s.__init__ call of %sTemporalPoissonModel.__init__ .*unexpected keyword argument '%s'"%(S,P,a),"SimilarityTemporalPoissonModel.__init__ passes %s, which TemporalPoissonModel does not accept (TypeError)"%a)
k("C16",r"attribute %s\.\w+ self.update_rho_options "%S,"SimilarityTemporalPoissonModel.fit reads self.update_rho_options, never set")
k("C16",r"call %s\.\w+ call of %s_fit_time_poisson_model .*unexpected keyword argument 'init'"%(S,P),"SimilarityTemporalPoissonModel.fit passes init, which _fit_time_poisson_model does not accept")
k("C16",r"attribute regain.generalized_linear_model.glm_time_ising.TemporalIsingModel\.\w+ self.init ","TemporalIsingModel.fit with ker_param='auto' reads self.init, never set")
k("C16",r"call regain.bayesian.wishart_distribution_.NormalInverseWishartDistribution\.\w+ .*log_likelihood.*missing argument","NormalInverseWishartDistribution.likelihood calls log_likelihood without its second argument")
k("C16",r"call %s.__init__ call of sklearn\S* .*unexpected keyword argument 'iid'"%G,"GraphicalModelStabilitySelection cannot be constructed: GridSearchCV has no iid argument")
k("C16",r"attribute %s\.\w+ self.iid "%G,"GraphicalModelStabilitySelection._format_results reads self.iid, never set")
k("C16",r"attribute regain.discriminant_analysis.DiscriminantAnalysis\.\w+ self.get_observed_precision ","the deprecated DiscriminantAnalysis._decision_function2 calls the missing get_observed_precision")
k("C16",r"call regain.linear_model.group_lasso_overlap_._overlapping_group_lasso call of \S*P_star_x_bar_function .*missing argument","the unused _overlapping_group_lasso calls P_star_x_bar_function without its arguments")
k("C16",r"import regain.linear_model.group_lasso_overlap_\.\S+ regain.wrapper.paspal.wrapper.group_lasso_overlap_paspal","GroupLassoOverlap.fit imports the nonexistent group_lasso_overlap_paspal")
with open('/verif/known-findings.jsonl','w') as f:
    for d in out+K: f.write(json.dumps(d)+"\n")
print(len(out),len(K))
