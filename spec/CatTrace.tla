------------------------------- MODULE CatTrace -------------------------------
(***************************************************************************)
(* A fit of a data frame with categorical columns, and questions asked of  *)
(* the fitted model.  The design, its names and the penalties of its       *)
(* columns are built here from the values of the columns.                  *)
(* line: the fields of FitTrace but X (P1, P2 vec: one number per column   *)
(*   of the frame if pcol, else per column of the design), and             *)
(*  [mode, method, drop, missname, fmt, univ, cols, pcol, names, terms,    *)
(*   asks]; cols: [kind "num", name, v] or [kind "cat", name, enc, decl,   *)
(*   vals]; asks: [cols, outcome, lin, rtol]; cols as above                *)
(***************************************************************************)
EXTENDS FitTrace, Categorical

Cat(c) == c.kind = "cat"
Cols(e) == 1..Len(e.cols)
Flatten(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o q[i] IN Force(F[Len(q)])

\* a formula without intercept keeps all levels of its first categorical term
Dropping(e, j) == e.drop /\ (e.mode = "frame" \/ e.fi \/ \E i \in 1..(j - 1) : Cat(e.cols[i]))
Indicate(e, k, j) == Indicated(k, [drop |-> Dropping(e, j)])
K(e) == Force([j \in Cols(e) |-> IF Cat(e.cols[j]) THEN Learn(e.cols[j], e, e.univ) ELSE [levels |-> <<>>, miss |-> FALSE]])
Width(e, j) == IF Cat(e.cols[j]) THEN Len(Indicate(e, K(e)[j], j)) ELSE 1
Names(e) == LET k == K(e) IN
  Flatten([j \in Cols(e) |-> IF Cat(e.cols[j]) THEN LET q == Indicate(e, k[j], j) IN [i \in 1..Len(q) |-> ColName(e.cols[j].name, q[i], e)]
                             ELSE <<e.cols[j].name>>])
Terms(e) == Flatten([j \in Cols(e) |-> [i \in 1..Width(e, j) |-> e.cols[j].name]])
\* the rows of new columns against what was learnt
Rows(e, cols, n) == LET k == K(e) IN
  Force([i \in 1..n |-> Flatten([j \in Cols(e) |->
    IF Cat(e.cols[j]) THEN LET q == Indicate(e, k[j], j) IN [c \in 1..Len(q) |-> IF cols[j].vals[i] = q[c] THEN One ELSE Zero]
    ELSE <<R(cols[j].v[i])>>])])
ByColumn(e, p) == Flatten([j \in Cols(e) |-> [i \in 1..Width(e, j) |-> p[j]]])

AskClauses(e, a, k) ==
  LET ok == \A j \in Cols(e) : Cat(e.cols[j]) => Accepts(a.cols[j].vals, K(e)[j], e)
  IN IF ~ok THEN (IF a.outcome = "ok" THEN {<<"answered-unknown-value", k>>} ELSE {})
     ELSE IF a.outcome # "ok" THEN {<<"refused-to-answer", k, a.outcome>>}
     ELSE LET n == Len(a.lin)
              X == Rows(e, a.cols, n)
              want == Force([i \in 1..n |-> RDot(X[i], e.w) ++ e.b])
          IN UNION {IF CloseTol(a.lin[i], want[i], R(a.rtol), a.rtol) THEN {} ELSE {<<"answer", k, i, RStr(a.lin[i]), "expected", RStr(want[i])>>} : i \in 1..n}

FitSays(e, v) == \E j \in Cols(e) : Cat(e.cols[j]) /\ FitVerdict(e.cols[j], [e EXCEPT !.drop = Dropping(e, j)], e.univ) = v
CatClauses(e) ==
  IF FitSays(e, "open") /\ e.outcome # "ok" THEN {}
  ELSE IF FitSays(e, "reject")
  THEN (IF e.outcome = "ok" THEN {<<"fit-accepted-missing-values">>} ELSE {})
  ELSE IF e.outcome # "ok" THEN {<<"fit-refused", e.outcome>>}
  ELSE IF e.names # Names(e) THEN {<<"feature-names", e.names, "expected", Names(e)>>}
  ELSE IF e.terms # Terms(e) THEN {<<"term-names", e.terms, "expected", Terms(e)>>}
  ELSE FitClauses([X |-> Rows(e, e.cols, Len(e.y)),
                   P1 |-> IF e.pcol /\ e.p1kind = "vec" THEN ByColumn(e, e.P1) ELSE e.P1,
                   P2 |-> IF e.pcol /\ e.p2kind = "vec" THEN ByColumn(e, e.P2) ELSE e.P2] @@ e)
       \cup (IF Len(e.w) # Len(Names(e)) THEN {} ELSE UNION {AskClauses(e, e.asks[k], k) : k \in 1..Len(e.asks)})
===============================================================================
