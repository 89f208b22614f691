------------------------------- MODULE Monotone -------------------------------
(***************************************************************************)
(* Monotonicity constraints of formula variables.  A column of the design  *)
(* is a product of parts, a part being [f |-> factor, i |-> position of    *)
(* the level / basis function within the factor, 1 if it has none].  A     *)
(* request for factor f constrains, separately for every combination of    *)
(* the other parts, the columns containing f: one column gets the sign of  *)
(* the direction, several must be ordered by position.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

HasF(c, f) == \E k \in 1..Len(c) : c[k].f = f
Others(c, f) == {c[k] : k \in {k \in 1..Len(c) : c[k].f # f}}
Pos(c, f) == LET k == CHOOSE k \in 1..Len(c) : c[k].f = f IN c[k].i
Group(cols, f, j) == {k \in 1..Len(cols) : HasF(cols[k], f) /\ Others(cols[k], f) = Others(cols[j], f)}
Groups(cols, f) == {Group(cols, f, j) : j \in {j \in 1..Len(cols) : HasF(cols[j], f)}}

Sgn(dir) == IF dir = "increasing" THEN 1 ELSE -1
RowOf(n, plus, minus, s) == [k \in 1..n |-> IF k = plus THEN s ELSE IF k = minus THEN -s ELSE 0]

\* the inequality rows A w <= 0
RowsOfGroup(cols, f, s, G) ==
  LET n == Len(cols) IN
  IF Cardinality(G) = 1 THEN {RowOf(n, 0, CHOOSE k \in G : TRUE, s)}
  ELSE {RowOf(n, ab[1], ab[2], s) : ab \in {ab \in G \X G :
          /\ Pos(cols[ab[1]], f) < Pos(cols[ab[2]], f)
          /\ ~\E c \in G : Pos(cols[ab[1]], f) < Pos(cols[c], f) /\ Pos(cols[c], f) < Pos(cols[ab[2]], f)}}
RowsOf(cols, f, dir) == UNION {RowsOfGroup(cols, f, Sgn(dir), G) : G \in Groups(cols, f)}

\* a request names variables: it concerns every factor computed from the variable
Vars(f) == CASE f = "s" -> {"z"} [] f = "m" -> {"x", "z"} [] OTHER -> {f}
Asked(facs, mono) == {<<f, mono[m].dir>> : f \in facs, m \in 1..Len(mono)} \cap
                     UNION {{<<f, mono[m].dir>> : m \in {m \in 1..Len(mono) : mono[m].v \in Vars(f)}} : f \in facs}
Meaningful(facs, mono) ==
  /\ \A m \in 1..Len(mono) : \E f \in facs : mono[m].v \in Vars(f)
  /\ \A a, b \in Asked(facs, mono) : a[1] = b[1] => a[2] = b[2]
FacsOf(cols) == UNION {{cols[j][k].f : k \in 1..Len(cols[j])} : j \in 1..Len(cols)}
Rows(cols, mono) == UNION {RowsOf(cols, a[1], a[2]) : a \in Asked(FacsOf(cols), mono)}

\* what the constraints mean: the coefficients of a group as a function of position are monotone
MonotoneIn(cols, w, f, s) ==
  \A G \in Groups(cols, f) :
    /\ Cardinality(G) = 1 => \A k \in G : s * w[k] >= 0
    /\ \A a, b \in G : Pos(cols[a], f) < Pos(cols[b], f) => s * w[a] <= s * w[b]
SatRow(row, w) ==
  LET RECURSIVE S(_)
      S(k) == IF k = 0 THEN 0 ELSE row[k] * w[k] + S(k - 1)
  IN S(Len(w)) <= 0
=============================================================================
