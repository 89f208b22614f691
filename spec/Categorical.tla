----------------------------- MODULE Categorical ------------------------------
(***************************************************************************)
(* Categorical columns of data frames.  A column is a sequence of values   *)
(* (or Miss) together with the way it is stored:                           *)
(*   enc "cat"   levels are declared, in an order of their own, and may    *)
(*               not all occur (pandas Categorical, polars Enum)           *)
(*   enc "bare"  no levels of its own (polars Categorical, strings)        *)
(* mode "frame": fitting a frame; "formula": the column is a term.         *)
(* Univ lists all level names in their sorted order.                       *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets

Miss == "~missing~"
Set(q) == {q[i] : i \in 1..Len(q)}
Present(col) == Set(col.vals) \ {Miss}
HasMiss(col) == Miss \in Set(col.vals)

\* the levels learnt by fitting: declared levels in the declared order (a
\* formula keeps only those that occur), or the values in sorted order
Levels(col, mode, Univ) ==
  IF col.enc = "bare" THEN SelectSeq(Univ, LAMBDA v : v \in Present(col))
  ELSE IF mode = "formula" THEN SelectSeq(col.decl, LAMBDA v : v \in Present(col))
  ELSE col.decl

\* o: [mode, method, drop, missname]; the verdict on the column of a fit.
\* Whether missing values may be named like a level without a column is left open.
FitVerdict(col, o, Univ) ==
  LET L == Levels(col, o.mode, Univ)
  IN CASE ~HasMiss(col) \/ o.method = "zero" -> "accept"
       [] o.method = "fail" -> "reject"
       [] o.missname \notin Set(L) -> "accept"
       [] o.drop /\ L[1] = o.missname -> "open"
       [] OTHER -> "reject"
Learn(col, o, Univ) == [levels |-> Levels(col, o.mode, Univ), miss |-> o.method = "convert" /\ HasMiss(col)]

\* the columns of the design: what each one indicates (Miss: the missing values)
Indicated(k, o) ==
  LET q == k.levels \o (IF k.miss THEN <<Miss>> ELSE <<>>)
  IN IF o.drop /\ q # <<>> THEN Tail(q) ELSE q
Label(v, o) == IF v = Miss THEN o.missname ELSE v
ColName(name, v, o) == o.fmt[1] \o name \o o.fmt[2] \o Label(v, o) \o o.fmt[3]

\* an answer exists for a value
Known(v, k, o) == IF v = Miss THEN o.method = "zero" \/ k.miss ELSE v \in Set(k.levels)
Accepts(vals, k, o) == \A i \in 1..Len(vals) : Known(vals[i], k, o)
===============================================================================
