------------------------------- MODULE WaldTrace ------------------------------
(***************************************************************************)
(* Wald tests of linear hypotheses R b = r about all parameters (intercept *)
(* first).  A hypothesis is stated as a matrix, as names of features, as   *)
(* names of terms, or as a list of linear equations between names; its     *)
(* meaning (R, r) is defined here.  An omitted right-hand side is zero.    *)
(* line: names (one per parameter), terms (term of each parameter), beta,  *)
(*  V (covariance the library reports for the same arguments), hk in       *)
(*  {"R","features","terms","formula"}, R, sel (names), eqs (sequence of   *)
(*  [lc: <<[c, n], ...>>, lk, rc, rk]: sum c n + lk = sum c n + rk), rk    *)
(*  "none"/"given", r; observed stat, p, df; rtol                          *)
(***************************************************************************)
EXTENDS TraceBase

K(e) == Len(e.beta)
Unit(e, j) == Force([i \in 1..K(e) |-> IF i = j THEN One ELSE Zero])
Pos(names, x) == CHOOSE i \in 1..Len(names) : names[i] = x

\* positions of the parameters of a term, in order
RECURSIVE IdxFrom(_, _, _)
IdxFrom(t, x, i) == IF i > Len(t) THEN <<>> ELSE (IF t[i] = x THEN <<i>> ELSE <<>>) \o IdxFrom(t, x, i + 1)
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)

Coefs(e, lc) == Force([i \in 1..K(e) |-> RSum(Force([q \in 1..Len(lc) |-> IF lc[q].n = e.names[i] THEN R(lc[q].c) ELSE Zero]))])

Hyp(e) ==
  CASE e.hk = "R" -> [R |-> e.R, r |-> IF e.rk = "none" THEN Force([q \in 1..Len(e.R) |-> Zero]) ELSE e.r]
    [] e.hk = "features" ->
         [R |-> Force([q \in 1..Len(e.sel) |-> Unit(e, Pos(e.names, e.sel[q]))]),
          r |-> IF e.rk = "none" THEN Force([q \in 1..Len(e.sel) |-> Zero]) ELSE e.r]
    [] e.hk = "terms" ->
         LET ix == [q \in 1..Len(e.sel) |-> IdxFrom(e.terms, e.sel[q], 1)]
             all == Cat(ix, 1)
             vals == Cat([q \in 1..Len(e.sel) |-> [z \in 1..Len(ix[q]) |-> IF e.rk = "none" THEN Zero ELSE e.r[q]]], 1)
         IN [R |-> Force([q \in 1..Len(all) |-> Unit(e, all[q])]), r |-> vals]
    [] e.hk = "formula" ->
         [R |-> Force([q \in 1..Len(e.eqs) |-> VSub(Coefs(e, e.eqs[q].lc), Coefs(e, e.eqs[q].rc))]),
          r |-> Force([q \in 1..Len(e.eqs) |-> R(e.eqs[q].rk) -- e.eqs[q].lk])]

WaldClauses(e) ==
  LET h == Hyp(e)
      Q == Len(h.R)
      d == Force([q \in 1..Q |-> RDot(h.R[q], e.beta) -- h.r[q]])
      A == MatMul(h.R, MatMul(e.V, Transp(h.R)))
      z == RSolve(A, Force([q \in 1..Q |-> <<d[q]>>]))
      Ai == RSolve(A, Force([a \in 1..Q |-> Force([b \in 1..Q |-> IF a = b THEN One ELSE Zero])]))
      norm(B) == NormInf(Force([a \in 1..Len(B) |-> NormInf(B[a])]))
  IN IF Q = 0 \/ z = <<>> THEN {<<"MACHINERY-hypothesis">>}
     ELSE LET stat == RSum(Force([q \in 1..Q |-> d[q] ** z[q][1]]))
              \* the size of the terms that cancel
              big == NormInf(Force([q \in 1..Q |-> RSum(Force([i \in 1..K(e) |-> RAbs(h.R[q][i] ** e.beta[i])])) ++ RAbs(h.r[q])]))
              rt == R(e.rtol) ** (norm(A) ** norm(Ai))
              tol == (rt ** stat) ++ ((rt ** big) ** (norm(Ai) ** (big ++ NormInf(d))))
              pv == 1 -- RGammaP(R(Q) // 2, stat // 2)
          IN IF RLt("1e-4" ** (1 ++ stat), tol) THEN {}
             ELSE (IF RLe(RAbs(e.stat -- stat), tol) THEN {} ELSE {<<"statistic", RStr(e.stat), "expected", RStr(stat)>>})
                  \cup (IF RLe(RAbs(e.p -- pv), tol ++ R("1e-12")) THEN {} ELSE {<<"p-value", RStr(e.p), "expected", RStr(pv)>>})
                  \cup (IF e.df = Q THEN {} ELSE {<<"degrees-of-freedom", e.df, Q>>})
=============================================================================
