------------------------------ MODULE Objective ------------------------------
(***************************************************************************)
(* The documented estimation problem of the library:                       *)
(*    minimise  1/(2 sum s) deviance(y, h(X w + b + offset); s)            *)
(*              + alpha l1 sum_j P1_j c_j |w_j|                            *)
(*              + 1/2 alpha (1-l1) (C w)' P2 (C w)                         *)
(* over the feasible set  lower <= w <= upper,  A w <= b, where C = I, or  *)
(* the diagonal of predictor standard deviations when predictors are       *)
(* scaled; and its first-order optimality conditions.                      *)
(* A problem is a record                                                   *)
(*  [fam, link, X (rows), y, s, off, l1pen (seq: alpha l1 P1_j c_j),       *)
(*   l2pen (matrix: alpha (1-l1) C P2sym C), fi (fit_intercept),           *)
(*   lb, ub (sequences, +-inf if absent)]                                  *)
(***************************************************************************)
EXTENDS Families, Links

Eta(P, b, w) == Force([i \in 1..Len(P.X) |-> (RDot(P.X[i], w) ++ b) ++ P.off[i]])

MuOf(P, eta) == Force([i \in 1..Len(eta) |-> Inv(P.link, eta[i])])

Penalty(P, w) ==
  RSum(Force([j \in 1..Len(w) |-> P.l1pen[j] ** RAbs(w[j])]))
    ++ (Half ** RDot(w, MatVec(P.l2pen, w)))

ObjectiveVal(P, b, w) ==
  LET eta == Eta(P, b, w)
      mu == MuOf(P, eta)
      S == RSum(P.s)
  IN (Deviance(P.fam, P.y, mu, P.s) // (2 ** S)) ++ Penalty(P, w)

\* h'(eta) / v(mu), in a form that stays finite when mu rounds to 0 or 1
ScoreRatio(P, eta, mu) ==
  IF P.fam.name = "binomial" /\ LkNorm(P.link) = "logit" THEN One
  ELSE IF P.fam.name = "binomial" /\ LkNorm(P.link) = "cloglog" THEN RExp(eta) // mu
  ELSE InvD(P.link, eta) // UnitVariance(P.fam, mu)

\* d/d eta_i of the smooth loss:  - s_i/S (y_i - mu_i) h'(eta_i) / v(mu_i)
\* rows with zero weight contribute nothing, whatever their y
RowScore(P, eta) ==
  LET S == RSum(P.s) IN
  Force([i \in 1..Len(eta) |->
     IF REq(P.s[i], 0) THEN Zero
     ELSE LET mu == Inv(P.link, eta[i]) IN
       RNeg(((P.s[i] // S) ** (P.y[i] -- mu)) ** ScoreRatio(P, eta[i], mu))])

GradIntercept(P, r) == RSum(r)
Grad(P, r, w) ==
  LET pen == MatVec(P.l2pen, w) IN
  Force([j \in 1..Len(w) |-> RDot(Col(P.X, j), r) ++ pen[j]])

\* the minimum-norm element of the subdifferential of (objective + bound indicator)
\* at w_j given the smooth gradient g; `act' is the slack below which a bound counts as active
MinNormSub(g, l1, w, lb, ub, act) ==
  LET atLb == RIsFinite(lb) /\ RLe(w -- lb, act)
      atUb == RIsFinite(ub) /\ RLe(ub -- w, act)
      \* the two one-sided derivatives  (left: decreasing w_j, right: increasing w_j)
      right == g ++ (IF RLe(0, w) THEN l1 ELSE RNeg(l1))
      left  == g ++ (IF RLt(0, w) THEN l1 ELSE RNeg(l1))
  IN \* descent by increasing w_j possible?
     IF RLt(right, 0) /\ ~atUb THEN RNeg(right)
     \* descent by decreasing w_j possible?
     ELSE IF RLt(0, left) /\ ~atLb THEN left
     ELSE Zero

KKTResidual(P, b, w, act) ==
  LET r == RowScore(P, Eta(P, b, w))
      g == Grad(P, r, w)
  IN [int |-> IF P.fi THEN RAbs(GradIntercept(P, r)) ELSE Zero,
      w |-> Force([j \in 1..Len(w) |-> MinNormSub(g[j], P.l1pen[j], w[j], P.lb[j], P.ub[j], act)])]

Feasible(P, w, tol) ==
  \A j \in 1..Len(w) : RLe(P.lb[j] -- tol, w[j]) /\ RLe(w[j], P.ub[j] ++ tol)

\* weighted means and standard deviations of the columns
ColMean(X, s, j) == RDot(Col(X, j), s) // RSum(s)
ColStd(X, s, j) ==
  LET m == ColMean(X, s, j)
      v == RSum(Force([i \in 1..Len(X) |-> s[i] ** Sq(X[i][j] -- m)])) // RSum(s)
  IN RSqrt(RMax(v, 0))
=============================================================================
