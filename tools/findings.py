"""Write known_findings.json: the genuine defects found, repaired or listed."""
import json
import os

FIXED = """
C21 cd7d295 start_params for a model with a single predictor were rejected
C21 71dd379 start_params outside the bounds on the standardized scale led to infeasible iterates
C21 b663599 start_params without an intercept were not put on the standardized scale
C19 00901c0 convergence was reported although the gradient was not finite
C13 c71d1d3 wald_test(R) without r failed
C20 9e6ffc9 information criteria ignored the arguments of later calls (also C16)
C12 bbeff4f string or non-consecutive cluster labels failed or gave a wrong covariance
C16 f887df0 model specs and categorical levels of a previous fit were used by the next
C03 970a1a0 P1=None failed
C03 406a16d P1=None or P2=None with categorical columns failed
C15 7087617 sample weights in predict and score with integer data or several alphas
C15 2454829 scalar offset when predicting for several alphas failed
C04 f43979f scalar offset with single precision data failed
C07 5d3e28f double precision P1 with single precision data failed
C20 02e75e1 information criteria of a model with several alphas failed
C09 330b70c the response of a formula was not evaluated in the given context
C10 3d80ec8 the path of alphas did not start at the all-zero solution when there is an offset
C18 dc60349 an L1 penalty along a path was ignored by solvers that do not support it
C18 5607ffb contradictory bounds were accepted in cross-validation
C19 e3c1f4c trust-constr stopping before its tolerance was met was not reported
C14 4d0e472 total Tweedie deviance of negative responses for negative powers was wrong
C20 637aff1 log-likelihood of Tweedie distributions with negative power returned a number
C07 c2084eb double precision weights with single precision data failed
C04 ee6548c single precision columns with small variance were standardized inconsistently (also C07)
C21 b0d1515 double precision start_params with single precision data failed
C21 f779bd9 warm start with data of another precision failed
C03 4a5f8d7 a penalty matrix was rejected when categorical columns do not change the number of columns
C07 2ca62d8 covariance matrix of single precision and integer data failed (also C12)
C18 786826d an offset of the wrong length was accepted when predicting
C07 11462b4 scores and information criteria of lists and polars series failed
C07 9ba29e1 predictions of split matrices in another precision than the fit failed
C12 58ff65d the documented finite-sample correction of clustered covariances is not the computed one
C20 1e05414 log-likelihood of the binomial distribution with a scalar sample weight failed
C10 e491686 an array of alphas with the automatic solver and an L1 penalty failed
C10 54a2720 a path of alphas given as a series failed (also C12)
C18 c870526 alphas that are not numbers failed without a description
C02 e7e3468 the monotonic IRLS solver stopped at points that are not optimal
C02 4ccfc22 monotonic constraints of categoricals did not follow the order of the categories
C02 e49b006 inequality constraints were not validated in cross-validation (also C18)
C11 d74600b cross-validation of Tweedie distributions of power 1.5 failed with some links (also C18)
C18 d2988fe NaN in bounds and inequality constraints was accepted
C18 0db2c42 scalar weights and offsets that are not finite were accepted
C18 51c0f34 penalty weights that are not finite and empty or nested alphas were accepted
C18 d9736f5 invalid max_inner_iter and NaN tolerances were accepted
C18 df2e549 invalid n_alphas, min_alpha and min_alpha_ratio were accepted
C18 30e4732 a formula with data that is not a data frame was silently ignored
C16 ce25008 the regularization path of a previous fit was kept
C19 8f85da8 lbfgs stopping before the gradient tolerance was met was not reported
C19 4184969 coefficients that miss a bound by rounding never counted as converged
C18 1b6788b cat_missing_name was ignored with a formula (also C08)
C18 f7c0e1f cat_missing_method was not validated with a formula
C18 af0585a the monotonic solver without constraints failed with a bare AssertionError
C18 c5c8e4c complex bounds were accepted and their imaginary part dropped
C21 c819a4c single precision start_params failed in cross-validation of double precision data
C17 140e355 fitting with a formula added an entry to the caller's context mapping
C08 0005bd9 predictions for polars Categorical columns assigned coefficients to the wrong levels
C03 fc52273 a rank-deficient P2 was rejected depending on the scale of the predictors
C03 605f59c a sparse P2 with 2000 or more columns failed
C04 4eedf67 constant columns of sparse matrices were scaled by rounding errors of the standard deviation
C03 01c3d1f P2 given as a sparse array failed with a single column
C02 a41934c contradictory monotonic constraints for one factor were silently resolved
C08 2f5a4c7 no prediction was possible when a level is named like missing values and none were missing
C04 719e08c constant columns in single precision were scaled by rounding errors of the standard deviation
C09 3b6aea2 a context given as a number took a frame of the package in linear_predictor, score and the information criteria
C07 9917bf4 split entries of sparse input distorted the standard deviations (also C04)
C20 b985ab0 scores and information criteria failed for responses of object dtype (also C07)
"""
KNOWN = [
    dict(
        property="C08", id="formula-without-columns", status="known",
        match=r"^\{ ?(<<\"(fit-refused|refused-to-answer)\",( \d+,)? \"IndexError: list index out of range\">>(, )?)+ ?\} .*"
              r"'vals': \['\w'(, '~missing~')?\], 'mode': 'formula', 'method': 'zero', 'drop': True",
        what="formula, drop_first and cat_missing_method='zero': a categorical with a single level and missing values "
             "has no columns, and tabmat (CategoricalMatrix with only the dropped level) raises IndexError"),
    dict(
        property="C09", id="separator-of-numeric-interactions", status="known",
        match=r"^\{ ?(<< ?\"refused-to-answer\", \d+, \"FactorEncodingError: Term `[^\"]*` has generated columns that are inconsistent "
              r"with specification[^\"]*\" ?>>(, )?)+ ?\} .*'sep': '(\||_x_)'",
        what="formula with an interaction_separator other than ':' and an interaction of numeric factors: predictions fail "
             "(tabmat's materializer compares the names it generates, joined by ':', with those of the fit, joined by the separator)"),
]
fixed = [f"fixed: property={p} {c} {w}" for p, c, w in (x.split(" ", 2) for x in FIXED.strip().splitlines())]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
json.dump(dict(findings=KNOWN, fixed=fixed), open(path, "w"), indent=1)
