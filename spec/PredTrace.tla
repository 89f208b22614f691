------------------------------- MODULE PredTrace ------------------------------
(***************************************************************************)
(* What a fitted model must answer when it is asked about rows.            *)
(* line kind "pred": [X, b, w, link, ok, off, sk, s, clip, rtol, lin, mu,  *)
(*   wmu]: lin and mu are the answers of linear_predictor and predict with *)
(*   the offset, wmu that of predict with the offset and sample weights    *)
(*   ([] if not asked).                                                    *)
(* kind "rows": [ix, all, sub, rtol]: answers for all rows, and for the    *)
(*   rows ix (1-based) alone or in another container.                      *)
(* kind "same": [a, b, rtol]: two answers that must agree                  *)
(***************************************************************************)
EXTENDS TraceBase, Links

Sp(k, v, n, d) == CASE k = "none" -> Force([i \in 1..n |-> d]) [] k = "scalar" -> Force([i \in 1..n |-> R(v)]) [] k = "vec" -> v

\* values on the open range of means of a link
InRange(k, m) == CASE LkNorm(k) \in {"logit", "cloglog"} -> RLt(0, m) /\ RLt(m, 1)
                   [] LkNorm(k) = "log" -> RLe(0, m)
                   [] OTHER -> TRUE

Differ(name, got, want, at, rt) ==
  IF Len(got) # Len(want) THEN {<<name, "length", Len(got), Len(want)>>}
  ELSE UNION {IF CloseTol(got[i], want[i], at, rt) THEN {} ELSE {<<name, i, RStr(got[i]), "expected", RStr(want[i])>>} : i \in 1..Len(got)}

PredClauses(e) ==
  IF e.kind = "pred" THEN
    LET n == Len(e.X)
        off == Sp(e.ok, e.off, n, Zero)
        s == Sp(e.sk, e.s, n, One)
        \* rounding of a dot product is relative to the size of its terms
        size == Force([i \in 1..n |-> RSum(Force([j \in 1..Len(e.w) |-> RAbs(e.X[i][j] ** e.w[j])])) ++ RAbs(e.b) ++ RAbs(off[i])])
        eta == Force([i \in 1..n |-> (RDot(e.X[i], e.w) ++ e.b) ++ off[i]])
        tol == Force([i \in 1..n |-> R(e.rtol) ** (1 ++ size[i])])
        mu == Force([i \in 1..n |-> InvClip(e.link, eta[i], e.clip)])
        \* |h(eta + t) - h(eta)| for |t| <= tol
        slk == Force([i \in 1..n |-> (R(e.rtol) ** (1 ++ RAbs(mu[i]))) ++ (2 ** (tol[i] ** RAbs(InvD(e.link, eta[i]))))])
    IN IF Len(e.lin) # n \/ Len(e.mu) # n THEN {<<"number-of-predictions">>}
       ELSE UNION {IF RLe(RAbs(e.lin[i] -- eta[i]), tol[i]) THEN {} ELSE {<<"linear-predictor", i, RStr(e.lin[i]), "expected", RStr(eta[i])>>} : i \in 1..n}
            \cup UNION {IF RLe(RAbs(e.mu[i] -- mu[i]), slk[i]) THEN {} ELSE {<<"prediction", i, RStr(e.mu[i]), "expected", RStr(mu[i])>>} : i \in 1..n}
            \cup UNION {IF InRange(e.link, e.mu[i]) THEN {} ELSE {<<"prediction-out-of-range", i, RStr(e.mu[i])>>} : i \in 1..n}
            \cup (IF e.sk = "none" THEN {}
                  ELSE IF Len(e.wmu) # n THEN {<<"number-of-weighted-predictions">>}
                  ELSE UNION {IF RLe(RAbs(e.wmu[i] -- (s[i] ** mu[i])), (1 ++ s[i]) ** slk[i]) THEN {} ELSE {<<"weighted-prediction", i, RStr(e.wmu[i]), RStr(s[i] ** mu[i])>>} : i \in 1..n})
  ELSE IF e.kind = "rows" THEN
    IF \E k \in 1..Len(e.ix) : e.ix[k] \notin 1..Len(e.all) THEN {<<"MACHINERY">>}
    ELSE Differ("row-by-row", e.sub, Force([k \in 1..Len(e.ix) |-> e.all[e.ix[k]]]), e.rtol, e.rtol)
  ELSE IF e.kind = "same" THEN Differ("answers", e.a, e.b, e.rtol, e.rtol)
  ELSE {<<"MACHINERY", e.kind>>}
=============================================================================
