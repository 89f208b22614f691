------------------------------ MODULE ScoreTrace ------------------------------
(***************************************************************************)
(* score = 1 - D(y, mu) / D(y, ybar), and the information criteria         *)
(*   AIC  = -2 L + 2 k                                                     *)
(*   BIC  = -2 L + ln(n) k                                                 *)
(*   AICc = AIC + 2 k (k + 1) / (n - k - 1)        if n > k + 1            *)
(* with k the number of nonzero coefficients plus the intercept, n the     *)
(* number of rows and L the log-likelihood at the arguments of the call    *)
(* with the dispersion estimated from them.                                *)
(* line: arguments as in FitTrace (those of the query), b, w; kind         *)
(*  "score": got, train (fitted without penalty, with intercept, without   *)
(*           offset on these arguments)                                    *)
(*  "ic": what "aic"/"aicc"/"bic", got, nz (nonzero coefficients), raised  *)
(***************************************************************************)
EXTENDS FitTrace

MuAt(e) == Force([i \in 1..Len(e.X) |-> InvClip(e.link, (RDot(e.X[i], e.w) ++ e.b) ++ e.off[i], "1.1102230246251565e-14")])

ScoreSpec(e) ==
  LET mu == MuAt(e)
      yb == RDot(e.s, e.y) // RSum(e.s)
      yb1 == Force([i \in 1..Len(e.y) |-> yb])
  IN [D |-> Deviance(e.fam, e.y, mu, e.s), D0 |-> Deviance(e.fam, e.y, yb1, e.s),
      \* size of the terms summed
      big |-> RSum(Force([i \in 1..Len(e.y) |-> e.s[i] ** (RAbs(UnitDeviance(e.fam, e.y[i], mu[i])) ++ RAbs(UnitDeviance(e.fam, e.y[i], yb)))]))]

RSquared(e) ==
  LET mu == MuAt(e)
      yb == RDot(e.s, e.y) // RSum(e.s)
  IN 1 -- (RSum(Force([i \in 1..Len(e.y) |-> e.s[i] ** Sq(e.y[i] -- mu[i])]))
            // RSum(Force([i \in 1..Len(e.y) |-> e.s[i] ** Sq(e.y[i] -- yb)])))

ScoreClauses(e) ==
  LET z == ScoreSpec(e)
      want == 1 -- (z.D // z.D0)
      tol == R(e.rtol) ** ((1 ++ RAbs(want)) ** (1 ++ (z.big // z.D0)))
  IN (IF RLe(RAbs(e.got -- want), tol) THEN {} ELSE {<<"score", RStr(e.got), "expected", RStr(want)>>})
     \cup (IF RLe(e.got, R(1) ++ tol) THEN {} ELSE {<<"score-above-one", RStr(e.got)>>})
     \cup (IF e.train /\ ~RLe("-1e-7", e.got) THEN {<<"negative-score-on-training-data", RStr(e.got)>>} ELSE {})
     \cup (IF e.fam.name = "normal" /\ ~RLe(RAbs(e.got -- RSquared(e)), tol) THEN {<<"not-r-squared", RStr(e.got)>>} ELSE {})

NObs(e) == Len(e.X)
NPar(e) == Cardinality({j \in 1..Len(e.w) : RLt("2.3e-16", RAbs(e.w[j]))}) + (IF e.fi THEN 1 ELSE 0)

ICClauses(e) ==
  LET n == NObs(e)
      k == NPar(e)
      mu == MuAt(e)
      phi == Pearson(e.fam, e.y, mu, e.s) // (RSum(e.s) -- 1)
      L == LogLik(e.fam, e.y, mu, e.s, phi)
      aic == (2 ** R(k)) -- (2 ** L)
      want == CASE e.what = "aic" -> aic
                [] e.what = "bic" -> (R(k) ** RLn(R(n))) -- (2 ** L)
                [] e.what = "aicc" -> aic ++ (R(2 * k * (k + 1)) // (n - k - 1))
      size == RSum(Force([i \in 1..n |-> e.s[i] ** (1 ++ RAbs(UnitLogLik(e.fam, e.y[i], mu[i], phi)))]))
  IN IF ~HasLogLik(e.fam) THEN (IF e.raised THEN {} ELSE {<<"criterion-without-likelihood", RStr(e.got)>>})
     ELSE IF e.what = "aicc" /\ n <= k + 1 THEN (IF e.raised THEN {} ELSE {<<"aicc-without-value", RStr(e.got)>>})
     ELSE IF e.raised THEN {<<"criterion-rejected", e.what>>}
     ELSE IF RLe(RAbs(e.got -- want), R(e.rtol) ** ((1 ++ (1 // phi)) ** (size ++ RAbs(want)))) THEN {}
     ELSE {<<e.what, RStr(e.got), "expected", RStr(want)>>}

QueryClauses(raw) ==
  LET e == Canon(raw) IN
  CASE e.kind = "score" -> ScoreClauses(e)
    [] e.kind = "ic" -> ICClauses(e)
=============================================================================
