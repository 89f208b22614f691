--------------------------------- MODULE Hyper ---------------------------------
(***************************************************************************)
(* Which values of the hyper-parameters are valid.  Values are classes:    *)
(*   neg -1, zero 0, half 0.5, one 1, onehalf 1.5, three 3 (int), nan, inf,*)
(*   none, true, str (a word that means nothing), cplx 1j,                 *)
(*   list [0.1, 0.2], empty [], nested [[0.1, 0.2]], nanlist [0.1, nan],   *)
(*   neglist [0.1, -1], inflist [0.1, inf], strlist ["a", "b"]             *)
(* Verdict: "valid" (must be accepted), "invalid" (must be rejected),      *)
(* "open" (the documentation does not say).                                *)
(* ctx: "glm" (scalar alpha), "search" (alpha_search), "cv".               *)
(* The data have three columns.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Scalars == {"neg", "zero", "half", "one", "onehalf", "three", "nan", "inf"}
Lists == {"list", "empty", "nested", "nanlist", "neglist", "inflist", "strlist"}
Classes == Scalars \cup Lists \cup {"none", "true", "str", "cplx"}
Ctxs == {"glm", "search", "cv"}
Nonneg == {"zero", "half", "one", "onehalf", "three"}
Pos == Nonneg \ {"zero"}
PosInt == {"one", "three"}

Sort(valid, open, v) == IF v \in valid THEN "valid" ELSE IF v \in open THEN "open" ELSE "invalid"

HyperVerdict(par, v, ctx) ==
  CASE par = "alpha" -> (IF ctx = "glm" THEN Sort(Nonneg \cup {"none"}, {"true"}, v)
                         ELSE IF ctx = "search" THEN Sort({"list", "none"}, {}, v) ELSE "open")
    [] par = "alphas" -> (IF ctx = "cv" THEN Sort({"list", "none"}, {}, v) ELSE "open")
    [] par = "l1_ratio" -> Sort({"zero", "half", "one"} \cup (IF ctx = "cv" THEN {"list"} ELSE {}),
                                {"true"} \cup (IF ctx = "cv" THEN {"nested"} ELSE {}), v)
    [] par \in {"fit_intercept", "warm_start", "check_input"} -> Sort({"true"}, {}, v)
    [] par = "copy_X" -> Sort({"true", "none"}, {}, v)
    [] par \in {"max_iter", "max_inner_iter", "n_alphas"} -> Sort(PosInt, {"true"}, v)
    [] par \in {"gradient_tol", "step_size_tol"} -> Sort(Pos \cup {"none"}, {"inf", "true"}, v)
    [] par = "min_alpha" -> Sort({"none"}, Pos \cup {"true"}, v)
    [] par = "min_alpha_ratio" -> Sort({"none", "half"}, {"one", "true"}, v)
    [] par = "selection" -> Sort({}, {}, v)
    [] par = "solver" -> Sort({}, {"none"}, v)
    [] par = "family" -> Sort({}, {}, v)
    [] par = "link" -> Sort({}, {"none"}, v)
    [] par = "cat_missing_method" -> Sort({}, {}, v)
    [] par = "lower_bounds" -> Sort({"neg", "zero", "none"}, {"half", "one", "onehalf", "three", "inf", "true"}, v)
    [] par = "upper_bounds" -> Sort({"zero", "half", "one", "onehalf", "three", "inf", "none"}, {"neg", "true"}, v)
    [] par = "P1" -> Sort({"none"}, {}, v)
    [] par = "P2" -> Sort({"none"}, {}, v)
    [] par = "start_params" -> Sort({"none"}, {}, v)
    [] par = "monotonic_constraints" -> Sort({"none"}, {}, v)
    [] par = "A_ineq" -> Sort({"none"}, {}, v)
    [] par = "b_ineq" -> Sort({"none"}, {}, v)
    [] par = "cv" -> (IF ctx = "cv" THEN Sort({"three", "none"}, {"list", "nested", "strlist", "nanlist", "neglist", "inflist", "empty"}, v) ELSE "open")
Params == {"alpha", "alphas", "l1_ratio", "fit_intercept", "warm_start", "check_input", "copy_X", "max_iter",
           "max_inner_iter", "n_alphas", "gradient_tol", "step_size_tol", "min_alpha", "min_alpha_ratio",
           "selection", "solver", "family", "link", "cat_missing_method", "lower_bounds", "upper_bounds",
           "P1", "P2", "start_params", "monotonic_constraints", "A_ineq", "b_ineq", "cv"}
===============================================================================
