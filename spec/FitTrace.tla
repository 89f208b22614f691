------------------------------- MODULE FitTrace -------------------------------
(***************************************************************************)
(* What a call of fit must return.  A trace line is one call: the raw data *)
(* and hyper-parameters as they were passed, and the observed intercept    *)
(* and coefficients.  The problem the library documents is built here from *)
(* the raw arguments, and the returned point must be feasible and, if the  *)
(* call did not report failure to converge, first-order optimal to within  *)
(* the documented stopping tolerance (stated on unit-variance predictors). *)
(*                                                                         *)
(* line: [X, y, sk, s, ok, off, fam, link, ak, alpha, l1, p1kind, P1,      *)
(*        p2kind, P2, fi, scale, lk, lb, uk, ub, tol, slack, outcome, b,   *)
(*        w, conv]; sk, ok, lk, uk in {"none","scalar","vec"}.             *)
(***************************************************************************)
EXTENDS TraceBase, Objective

Dim(e) == IF e.X = <<>> THEN 0 ELSE Len(e.X[1])
Spread(k, v, n, dflt) == CASE k = "none" -> Force([i \in 1..n |-> dflt])
                           [] k = "scalar" -> Force([i \in 1..n |-> R(v)])
                           [] k = "vec" -> v
PInf == R("inf")
NInf == R("-inf")

\* the arguments with their documented defaults filled in
Canon(e) ==
  [e EXCEPT !.s = Spread(e.sk, e.s, Len(e.X), One),
            !.off = Spread(e.ok, e.off, Len(e.X), Zero),
            !.lb = Spread(e.lk, e.lb, Dim(e), NInf),
            !.ub = Spread(e.uk, e.ub, Dim(e), PInf),
            !.alpha = IF e.ak = "none" THEN Zero ELSE R(e.alpha)]

\* standard deviation used for scaling; numerically constant columns are not scaled
Stds(e) == Force([j \in 1..Dim(e) |->
             LET sd == ColStd(e.X, e.s, j) IN IF RLt(sd, "1.49e-7") THEN One ELSE sd])
Means(e) == Force([j \in 1..Dim(e) |-> ColMean(e.X, e.s, j)])

PenScale(e) == IF e.scale THEN Stds(e) ELSE Force([j \in 1..Dim(e) |-> One])
P1Vec(e) == CASE e.p1kind \in {"identity", "none"} -> Force([j \in 1..Dim(e) |-> One])
              [] e.p1kind = "vec" -> e.P1
P2Mat(e) == CASE e.p2kind \in {"identity", "none"} -> Force([i \in 1..Dim(e) |-> Force([j \in 1..Dim(e) |-> IF i = j THEN One ELSE Zero])])
              [] e.p2kind = "vec" -> Force([i \in 1..Dim(e) |-> Force([j \in 1..Dim(e) |-> IF i = j THEN e.P2[i] ELSE Zero])])
              [] e.p2kind = "mat" -> Force([i \in 1..Dim(e) |-> Force([j \in 1..Dim(e) |-> Half ** (e.P2[i][j] ++ e.P2[j][i])])])

Problem(e, alpha) ==
  LET c == PenScale(e)
      p1 == P1Vec(e)
      p2 == P2Mat(e)
      a1 == alpha ** e.l1
      a2 == alpha ** (1 -- e.l1)
  IN [fam |-> e.fam, link |-> e.link, X |-> e.X, y |-> e.y, s |-> e.s, off |-> e.off, fi |-> e.fi,
      l1pen |-> Force([j \in 1..Dim(e) |-> (a1 ** p1[j]) ** c[j]]),
      l2pen |-> Force([i \in 1..Dim(e) |-> Force([j \in 1..Dim(e) |-> (a2 ** p2[i][j]) ** (c[i] ** c[j])])]),
      lb |-> e.lb, ub |-> e.ub]

\* The stopping rule bounds the (minimum-norm sub)gradient g~ on predictors
\* (x - m)/sd; on the original predictors g_j = sd_j g~_j + m_j g~_0.
OptClauses(e, alpha, b, w) ==
  LET P == Problem(e, alpha)
      sd == Stds(e)
      m == IF e.fi THEN Means(e) ELSE Force([j \in 1..Dim(e) |-> Zero])
      gt == R(e.tol) ** e.slack
      \* act: how close to a bound counts as on it (bounds are exact up to rescaling error)
      k == KKTResidual(P, b, w, "1e-9")
  IN (IF e.fi /\ ~RLe(k.int, gt) THEN {<<"intercept-not-stationary", RStr(k.int)>>} ELSE {})
     \cup UNION {
       IF RLe(k.w[j], gt ** (sd[j] ++ RAbs(m[j]))) THEN {}
       ELSE {<<"coefficient-not-optimal", j, RStr(k.w[j])>>} : j \in 1..Dim(e)}

\* Means are kept representable (C15): where a probability rounds to 0 or 1 the computed
\* objective is flat, so nothing is claimed about points with such rows.
Saturated(e, b, w) ==
  /\ e.fam.name = "binomial"
  /\ LET P == Problem(e, e.alpha)
         eta == Eta(P, b, w)
     IN \E i \in 1..Len(eta) : LET m == Inv(e.link, eta[i]) IN RLt(m, "5e-14") \/ RLt(1 -- m, "5e-14")

ShapeOK(e, w) == Len(w) = Dim(e)
FiniteOK(b, w) == RIsFinite(b) /\ \A j \in 1..Len(w) : RIsFinite(w[j])

FeasibleClauses(e, w) ==
  UNION { IF RLe(e.lb[j] -- (R("1e-9") ** RMax(1, RAbs(e.lb[j]))), w[j]) \/ ~RIsFinite(e.lb[j]) THEN {} ELSE {<<"below-lower-bound", j>>} : j \in 1..Len(w)}
  \cup UNION { IF RLe(w[j], e.ub[j] ++ (R("1e-9") ** RMax(1, RAbs(e.ub[j])))) \/ ~RIsFinite(e.ub[j]) THEN {} ELSE {<<"above-upper-bound", j>>} : j \in 1..Len(w)}

FitClauses(raw) ==
  LET e == Canon(raw) IN
  IF e.outcome # "ok" THEN {<<"fit-failed", e.outcome>>}
  ELSE IF ~ShapeOK(e, e.w) THEN {<<"wrong-number-of-coefficients">>}
  ELSE IF ~FiniteOK(e.b, e.w) THEN (IF e.conv THEN {<<"non-finite-estimate">>} ELSE {})
  ELSE (IF ~e.fi /\ ~REq(e.b, 0) THEN {<<"intercept-not-zero">>} ELSE {})
       \cup FeasibleClauses(e, e.w)
       \cup (IF e.conv /\ ~Saturated(e, e.b, e.w) THEN OptClauses(e, e.alpha, e.b, e.w) ELSE {})
=============================================================================
