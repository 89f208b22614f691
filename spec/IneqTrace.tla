------------------------------- MODULE IneqTrace -------------------------------
(***************************************************************************)
(* Fits under linear inequality constraints A w <= b.  A line is a FitTrace*)
(* line with, in addition, the constraints as passed (A, bi), the feasi-   *)
(* bility tolerance ftol, and multipliers lam found by the harness: a      *)
(* certificate that no feasible direction improves the objective.  It is   *)
(* not trusted: the clauses require lam >= 0, complementarity, and that    *)
(* gradient + A' lam vanishes to within the stopping tolerance.            *)
(* For formula fits the line carries the columns and the request (mono),   *)
(* and A must be the rows the specification derives from them.             *)
(***************************************************************************)
EXTENDS FitTrace, Monotone

Slack(e, k) == R(e.bi[k]) -- RDot(e.A[k], e.w)
RowsAsked(e) ==
  IF e.mk = "none" THEN {}
  ELSE IF {[j \in 1..Len(e.A[k]) |-> CHOOSE v \in {-1, 0, 1} : REq(e.A[k][j], v)] : k \in 1..Len(e.A)}
          = Rows(e.cols, e.mono)
       THEN {} ELSE {<<"harness-constraints-differ">>}

CertClauses(e) ==
  LET P == Problem(e, e.alpha)
      r == RowScore(P, Eta(P, e.b, e.w))
      g == Grad(P, r, e.w)
      gi == GradIntercept(P, r)
      \* the solver's coordinates: columns are divided by their deviation only when scaling
      sd == IF e.scale THEN Stds(e) ELSE Force([j \in 1..Dim(e) |-> RMax(1, Stds(e)[j])])
      m == IF e.fi THEN Means(e) ELSE Force([j \in 1..Dim(e) |-> Zero])
      gt == R(e.tol) ** e.slack
      res == Force([j \in 1..Dim(e) |-> g[j] ++ RDot(Col(e.A, j), e.lam)])
  IN (IF e.fi /\ ~RLe(RAbs(gi), gt) THEN {<<"intercept-not-stationary", RStr(gi)>>} ELSE {})
     \cup UNION {IF RLe(RAbs(res[j]), gt ** (sd[j] ++ RAbs(m[j]))) THEN {}
                 ELSE {<<"improvable-within-constraints", j, RStr(res[j])>>} : j \in 1..Dim(e)}
     \cup UNION {IF RLe(0, e.lam[k]) /\ RLe(e.lam[k] ** Slack(e, k), e.ctol) THEN {}
                 ELSE {<<"improvable-within-constraints", "slack", k, RStr(e.lam[k] ** Slack(e, k))>>} : k \in 1..Len(e.A)}

IneqClauses(raw) ==
  LET e == Canon(raw) IN
  IF e.mk = "mono" /\ ~Meaningful({e.facs[k] : k \in 1..Len(e.facs)}, e.mono)
  THEN IF e.outkind = "ValueError" THEN {} ELSE {<<"contradictory-request-not-rejected", e.outcome>>}
  ELSE IF e.outcome # "ok" THEN {<<"fit-failed", e.outcome>>}
  ELSE IF ~ShapeOK(e, e.w) THEN {<<"wrong-number-of-coefficients">>}
  ELSE IF ~FiniteOK(e.b, e.w) THEN (IF e.conv THEN {<<"non-finite-estimate">>} ELSE {})
  ELSE RowsAsked(e)
       \cup (IF ~e.fi /\ ~REq(e.b, 0) THEN {<<"intercept-not-zero">>} ELSE {})
       \cup (IF ~e.conv THEN {}
             ELSE UNION {IF RLe(RNeg(R(e.ftol) ** RMax(1, RAbs(e.bi[k]))), Slack(e, k)) THEN {}
                         ELSE {<<"constraint-violated", k, RStr(Slack(e, k))>>} : k \in 1..Len(e.A)}
                  \cup (IF Saturated(e, e.b, e.w) THEN {} ELSE CertClauses(e)))
=============================================================================
