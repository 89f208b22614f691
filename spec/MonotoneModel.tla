----------------------------- MODULE MonotoneModel -----------------------------
(***************************************************************************)
(* Enumerates formulas (sets of terms over a numeric variable, two         *)
(* categoricals and a spline) with a request, checks that the constraint   *)
(* rows say exactly that the coefficients are monotone, and prints each    *)
(* instance as a scenario to be replayed into the library.                 *)
(***************************************************************************)
EXTENDS Monotone, TLC, Json
CONSTANTS MaxTerms, MaxCols

Size(f) == CASE f = "x" -> 1 [] f = "g" -> 3 [] f = "h" -> 2 [] f = "s" -> 4 [] f = "m" -> 1
Terms == {<<"x">>, <<"g">>, <<"h">>, <<"s">>, <<"g", "x">>, <<"x", "g">>, <<"g", "h">>, <<"h", "g">>,
          <<"s", "h">>, <<"h", "s">>, <<"x", "h">>, <<"x", "s">>, <<"g", "h", "x">>,
          <<"m">>, <<"m", "g">>, <<"h", "m">>}
Facs(F) == UNION {{F[t][k] : k \in 1..Len(F[t])} : t \in 1..Len(F)}

\* full encoding of a term: all combinations of positions
Prod(t) ==
  IF Len(t) = 1 THEN [i \in 1..Size(t[1]) |-> <<[f |-> t[1], i |-> i]>>]
  ELSE LET RECURSIVE P(_)
           P(k) == IF k = 0 THEN << <<>> >>
                   ELSE LET q == P(k - 1) m == Size(t[k]) IN
                        [n \in 1..(Len(q) * m) |->
                           Append(q[((n - 1) \div m) + 1], [f |-> t[k], i |-> ((n - 1) % m) + 1])]
       IN P(Len(t))
RECURSIVE ColsOf(_)
ColsOf(F) == IF Len(F) = 0 THEN <<>> ELSE Prod(Head(F)) \o ColsOf(Tail(F))

VARIABLES F, mono
NoRepeat(G) == \A a, b \in 1..Len(G) : a < b => {G[a][k] : k \in 1..Len(G[a])} # {G[b][k] : k \in 1..Len(G[b])}
Formulas == {G \in UNION {[1..n -> Terms] : n \in 1..MaxTerms} : NoRepeat(G)}
Monos(G) ==
  LET one == {<<[v |-> v, dir |-> d]>> : v \in UNION {Vars(f) : f \in Facs(G)}, d \in {"increasing", "decreasing"}}
      two == {a \o b : a \in one, b \in one}
      \* a variable that no factor uses
      none == {<<[v |-> v, dir |-> "increasing"]>> : v \in {"x", "z", "g", "h"}} \ one
  IN one \cup {m \in two : m[1].v # m[2].v} \cup none

Init == F \in Formulas /\ mono \in Monos(F)
Next == UNCHANGED <<F, mono>>
Spec == Init /\ [][Next]_<<F, mono>>

SignifiesMonotone ==
  LET cols == ColsOf(F) n == Len(cols) IN
  IF n > MaxCols THEN TRUE
  ELSE \A w \in [1..n -> {-1, 0, 1}] :
         (\A r \in Rows(cols, mono) : SatRow(r, w))
           <=> (\A m \in 1..Len(mono) : \A f \in {f \in Facs(F) : mono[m].v \in Vars(f)} :
                  MonotoneIn(cols, w, f, Sgn(mono[m].dir)))
\* the rows of a request never mention a column without the factor, and every column with it occurs
Scope ==
  LET cols == ColsOf(F) IN
  \A a \in Asked(Facs(F), mono) : \A j \in 1..Len(cols) :
     HasF(cols[j], a[1]) <=> \E r \in RowsOf(cols, a[1], a[2]) : r[j] # 0
\* contradictory requests leave only functions that are constant, and are the only ones that are refused
Contradiction ==
  (\A m \in 1..Len(mono) : \E f \in Facs(F) : mono[m].v \in Vars(f)) =>
  LET cols == ColsOf(F) IN
  (~Meaningful(Facs(F), mono)) <=> \E f \in Facs(F) : \A r \in RowsOf(cols, f, "increasing") :
     r \in Rows(cols, mono) /\ [k \in 1..Len(r) |-> -r[k]] \in Rows(cols, mono)
Emit == PrintT("@@B " \o ToJson([terms |-> F, mono |-> mono]))
=============================================================================
