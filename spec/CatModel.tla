------------------------------- MODULE CatModel -------------------------------
(***************************************************************************)
(* The mechanism: a categorical column is stored as a list of categories   *)
(* and codes into it.  Fitting records levels; predicting re-codes the new *)
(* column onto the recorded levels and adds the category for missing       *)
(* values.  Checked against the meaning of the values for every column of  *)
(* every storage: what a value contributes depends on the value alone.     *)
(***************************************************************************)
EXTENDS Categorical, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS MaxNew, Printing
Univ == <<"a", "b", "c">>
New == Set(Univ) \cup {"z", Miss}
VARIABLES fit, o, learnt, new, phase
vars == <<fit, o, learnt, new, phase>>

Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}
Decls == UNION {Orders(S) : S \in (SUBSET Set(Univ)) \ {{}}}
\* values in some order of appearance (repetitions do not matter)
Cols == {[enc |-> "cat", decl |-> d, vals |-> SetToSeq(S) \o m] : d \in Decls, S \in (SUBSET Set(Univ)) \ {{}}, m \in {<<>>, <<Miss>>}}
        \cup {[enc |-> "bare", decl |-> <<>>, vals |-> d \o m] : d \in Decls, m \in {<<>>, <<Miss>>}}
WellFormed(c) == c.enc = "cat" => Present(c) \subseteq Set(c.decl)
Options == {[mode |-> md, method |-> mt, drop |-> d, missname |-> mn] :
              md \in {"frame", "formula"}, mt \in {"fail", "zero", "convert"}, d \in BOOLEAN, mn \in {"(MISSING)", "a"}}

Init == /\ fit \in {c \in Cols : WellFormed(c)} /\ o \in Options
        /\ learnt = [levels |-> <<>>, miss |-> FALSE] /\ new = [cats |-> <<>>, codes |-> <<>>] /\ phase = "start"
Fit == /\ phase = "start"
       /\ \/ FitVerdict(fit, o, Univ) # "reject" /\ phase' = "fitted" /\ learnt' = Learn(fit, o, Univ)
          \/ FitVerdict(fit, o, Univ) # "accept" /\ phase' = "refused" /\ UNCHANGED learnt
       /\ UNCHANGED <<fit, o, new>>

\* a new column: categories in any order with any of them unused, code 0 for missing
Stored == {[cats |-> q, codes |-> c] : q \in UNION {Orders(S) : S \in SUBSET {"a", "b", "z"}} \cup Orders({"a", "b", "c"}),
                                       c \in UNION {[1..n -> 0..3] : n \in 1..MaxNew}}
Meaning(st) == [i \in 1..Len(st.codes) |-> IF st.codes[i] = 0 THEN Miss ELSE st.cats[st.codes[i]]]

Index(q, v) == IF v \in Set(q) THEN CHOOSE i \in 1..Len(q) : q[i] = v ELSE 0
\* re-code onto the recorded levels
Align(st) == LET recode == [k \in 1..Len(st.cats) |-> Index(learnt.levels, st.cats[k])]
             IN [cats |-> learnt.levels, codes |-> [i \in 1..Len(st.codes) |-> IF st.codes[i] = 0 THEN 0 ELSE recode[st.codes[i]]]]
Unseen(st) == \E i \in 1..Len(st.codes) : st.codes[i] # 0 /\ st.cats[st.codes[i]] \notin Set(learnt.levels)
AddMissing(st) == IF ~learnt.miss THEN st
                  ELSE [cats |-> Append(st.cats, Miss), codes |-> [i \in 1..Len(st.codes) |-> IF st.codes[i] = 0 THEN Len(st.cats) + 1 ELSE st.codes[i]]]
Refused(st) == Unseen(st) \/ (~learnt.miss /\ o.method # "zero" /\ 0 \in Set(st.codes))
\* the position of the single one in the row, 0 if none
Hot(st, i) == LET a == AddMissing(Align(st)) IN IF o.drop /\ a.codes[i] > 0 THEN a.codes[i] - 1 ELSE a.codes[i]

Ask == /\ phase = "fitted" /\ phase' = "asked"
       /\ new' \in {st \in Stored : \A i \in 1..Len(st.codes) : st.codes[i] <= Len(st.cats)}
       /\ UNCHANGED <<fit, o, learnt>>
Next == Fit \/ Ask
Spec == Init /\ [][Next]_vars

MeaningIsKept == phase = "asked" =>
  /\ Refused(new) <=> ~Accepts(Meaning(new), learnt, o)
  /\ ~Refused(new) => \A i \in 1..Len(new.codes) :
        LET q == Indicated(learnt, o) v == Meaning(new)[i] IN Hot(new, i) = Index(q, v)
\* no two columns of the design share a name
Distinct == phase = "fitted" => LET q == Indicated(learnt, o) IN \A i, j \in 1..Len(q) : i # j => Label(q[i], o) # Label(q[j], o)
\* the rows that were fitted can be asked about
FittedIsKnown == phase = "fitted" => Accepts(fit.vals, learnt, o)
\* with a level dropped, no combination of the others is constant: the baseline occurs
NotSingular == phase = "fitted" /\ o.drop /\ o.mode = "formula" => Len(Indicated(learnt, o)) = Cardinality(Present(fit)) + (IF learnt.miss THEN 1 ELSE 0) - 1
Emit == Printing /\ phase \in {"fitted", "refused"} =>
          PrintT("@@B " \o ToJson([enc |-> fit.enc, decl |-> fit.decl, vals |-> fit.vals, mode |-> o.mode, method |-> o.method, drop |-> o.drop, missname |-> o.missname, ok |-> phase = "fitted"]))
===============================================================================
