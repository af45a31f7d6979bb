from .group_lasso_overlap_ import GroupLassoOverlap, GroupLassoOverlapClassifier
