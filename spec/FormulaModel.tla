----------------------------- MODULE FormulaModel -----------------------------
(***************************************************************************)
(* All formulas of up to MaxItems signed items from a pool of expressions. *)
(* A state is a formula read so far.  Checked: the laws of the algebra,    *)
(* and, by elimination modulo a prime on a full factorial, that dropping   *)
(* keeps the space and makes the columns independent.                      *)
(***************************************************************************)
EXTENDS Formula, TLC, Json
CONSTANTS MaxItems, Printing, Ranks
VARIABLES items, fi
V(f) == [op |-> "v", f |-> f]
Op(o, a, b) == [op |-> o, l |-> a, r |-> b]
Pool == {[op |-> "1"], [op |-> "0"], V("x"), V("z"), V("g"), V("h"),
         Op(":", V("x"), V("g")), Op(":", V("g"), V("h")), Op(":", V("h"), V("g")), Op("*", V("g"), V("h")), Op("*", V("x"), V("g")),
         Op(":", Op(":", V("x"), V("g")), V("h")), Op("/", V("g"), V("x")), Op("/", V("g"), V("h")),
         Op(":", Op("+", V("x"), V("g")), V("h")), Op("*", V("x"), Op("+", V("z"), V("h"))),
         [op |-> "^2", l |-> Op("+", Op("+", V("x"), V("g")), V("h"))],
         [op |-> "^2", l |-> Op("+", V("x"), V("z"))],
         Op("*", Op("*", V("g"), V("h")), V("x")), Op(":", V("x"), V("z"))}
Init == items = <<>> /\ fi \in BOOLEAN
Next == /\ Len(items) < MaxItems /\ UNCHANGED fi
        /\ \E s \in {"+", "-"}, e \in Pool : items' = Append(items, [sign |-> s, e |-> e])
Spec == Init /\ [][Next]_<<items, fi>>

IsCat(f) == f \in {"g", "h"}
q == Terms(items, fi)
\* ------------------------------------------------------------------ algebra
NoDuplicates == \A i, j \in 1..Len(q) : i # j => ~Same(q[i], q[j])
Ordered == \A i \in 1..(Len(q) - 1) : Len(q[i]) <= Len(q[i + 1])
As(p) == {Elems(p[i]) : i \in 1..Len(p)}
Idempotent == As(Terms(items \o items, fi)) = As(q) \/ \E i \in 1..Len(items) : items[i].sign = "-" \/ items[i].e.op = "0"
Last1 == items[Len(items)]
PlusAdds == items # <<>> /\ Last1.e.op # "0" => (IF Last1.sign = "+" THEN As(Expand(Last1.e)) \subseteq As(q) ELSE As(Expand(Last1.e)) \cap As(q) = {})
StarIsCross == \A a, b \in {V("x"), V("g"), V("h"), Op("+", V("x"), V("g"))} :
                 As(Expand(Op("*", a, b))) = As(Expand(Op("+", Op("+", a, b), Op(":", a, b))))
PiecesAreDisjoint == \A i, j \in 1..Len(q) : i # j => Added(q, i, IsCat) \cap Added(q, j, IsCat) = {}
\* ------------------------------------------------------------------ rank
P == 10007
NRow == 24
G(i) == i % 2
H(i) == (i \div 2) % 3
Num(f, i) == IF f = "x" THEN (17 * i * i + 3 * i + 5) % P ELSE (29 * i * i * i + 7 * i + 11) % P
Nlev(f) == IF f = "g" THEN 2 ELSE 3
Lev(f, i) == IF f = "g" THEN G(i) ELSE H(i)
RECURSIVE NumProd(_, _), Rank(_)
NumProd(F, i) == IF F = {} THEN 1 ELSE LET f == CHOOSE f \in F : TRUE IN (Num(f, i) * NumProd(F \ {f}, i)) % P
Assign(C, from) == {a \in [C -> 0..2] : \A f \in C : a[f] < Nlev(f) /\ a[f] >= from}
Col(N, C, a) == [i \in 1..NRow |-> IF \A f \in C : Lev(f, i) = a[f] THEN NumProd(N, i) ELSE 0]
FullCols(t) == {Col(Nums(t, IsCat), Cats(t, IsCat), a) : a \in Assign(Cats(t, IsCat), 0)}
PieceCols(S) == LET C == {f \in S : IsCat(f)} IN {Col(S \ C, C, a) : a \in Assign(C, 1)}
Full == UNION {FullCols(q[i]) : i \in 1..Len(q)}
Dropped == UNION {UNION {PieceCols(S) : S \in Added(q, i, IsCat)} : i \in 1..Len(q)}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<c>> \o SeqOf(S \ {c})
Rank(M) == IF M = <<>> \/ M[1] = <<>> THEN 0
           ELSE IF \A i \in 1..Len(M) : M[i][1] = 0 THEN Rank([i \in 1..Len(M) |-> Tail(M[i])])
           ELSE LET k == CHOOSE k \in 1..Len(M) : M[k][1] # 0
                    p == M[k]
                    rest == SubSeq(M, 1, k - 1) \o SubSeq(M, k + 1, Len(M))
                IN 1 + Rank([i \in 1..Len(rest) |-> [c \in 1..(Len(p) - 1) |-> (rest[i][c + 1] * p[1] - p[c + 1] * rest[i][1]) % P]])
NumberDropped == LET W(S) == Cardinality(PieceCols(S)) IN
  Len(SeqOf(UNION {UNION {{<<S, c>> : c \in 1..W(S)} : S \in Added(q, i, IsCat)} : i \in 1..Len(q)}))
RankLaw == Ranks /\ q # <<>> =>
  LET r == Rank(SeqOf(Dropped)) IN r = NumberDropped /\ r = Rank(SeqOf(Full)) /\ r = Rank(SeqOf(Full \cup Dropped))
Emit == Printing /\ items # <<>> => PrintT("@@B " \o ToJson([items |-> items, fi |-> fi]))
===============================================================================
