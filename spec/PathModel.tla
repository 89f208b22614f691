------------------------------ MODULE PathModel -------------------------------
(***************************************************************************)
(* Selecting solutions of a regularization path.  A fitted model has K     *)
(* alphas in the order of its path (here abstract ranks, larger rank =     *)
(* larger alpha; any order) or no path at all.  A request names solutions  *)
(* by index (Python convention, so -1 is the last), by alpha, by both, or  *)
(* not at all; each as a single value or as a sequence.  Resolve gives the *)
(* positions (1-based) it denotes, one column per entry in the order       *)
(* asked, or rejection.  Histories refit the model with another path in    *)
(* between: only the current path counts.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS K, Fits, Len2   \* longest path, number of fits in a history, longest sequence asked
VARIABLES path, search, hist, done

Ranks == 1..(K + 1)
\* distinct alphas in any order; rank K+1 and 0 may be absent
Paths == {s \in UNION {[1..k -> Ranks] : k \in 1..K} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

SeqsOf(S, n) == UNION {[1..k -> S] : k \in 1..n}
IndexItems == (-K - 1)..K
\* 10 * rank + d: d = 0 on the rank, 1 equal up to rounding, 2 close to it but another number
AlphaItems == {10 * r + d : r \in Ranks, d \in 0..2}

Request == [by : {"none"}, seq : {FALSE}, items : {<<>>}]
     \cup [by : {"index"}, seq : {FALSE}, items : SeqsOf(IndexItems, 1)]
     \cup [by : {"index"}, seq : {TRUE}, items : SeqsOf(IndexItems, Len2)]
     \cup [by : {"alpha"}, seq : {FALSE}, items : SeqsOf(AlphaItems, 1)]
     \cup [by : {"alpha"}, seq : {TRUE}, items : SeqsOf(AlphaItems, Len2)]
     \cup [by : {"both"}, seq : BOOLEAN, items : {<<0>>}]

PosOfIndex(p, i) == IF i >= 0 THEN (IF i < Len(p) THEN i + 1 ELSE 0)
                    ELSE IF -i <= Len(p) THEN Len(p) + i + 1 ELSE 0
PosOfAlpha(p, a) == IF a % 10 = 2 THEN 0
                    ELSE IF \E k \in DOMAIN p : p[k] = a \div 10 THEN CHOOSE k \in DOMAIN p : p[k] = a \div 10 ELSE 0

\* <<0>> stands for rejection
Resolve(s, p, q) ==
  IF q.by = "none" THEN <<Len(p)>>
  ELSE IF ~s \/ q.by = "both" THEN <<0>>
  ELSE LET pos == [i \in DOMAIN q.items |-> IF q.by = "index" THEN PosOfIndex(p, q.items[i]) ELSE PosOfAlpha(p, q.items[i])]
       IN IF \E i \in DOMAIN pos : pos[i] = 0 THEN <<0>> ELSE pos

Init == path = <<>> /\ search = FALSE /\ hist = <<>> /\ done = FALSE

Fit(s, p) ==
  /\ ~done /\ Len(hist) < Fits
  /\ s \/ Len(p) = 1
  /\ path' = p /\ search' = s
  /\ hist' = Append(hist, [search |-> s, path |-> p])
  /\ done' = FALSE
Ask(q) ==
  /\ ~done /\ hist # <<>>
  /\ done' = TRUE
  /\ hist' = Append(hist, [ask |-> q, want |-> Resolve(search, path, q)])
  /\ UNCHANGED <<path, search>>
Next == (\E s \in BOOLEAN, p \in Paths : Fit(s, p)) \/ (\E q \in Request : Ask(q))
Spec == Init /\ [][Next]_<<path, search, hist, done>>

\* laws of the design
Last == hist[Len(hist)]
InRangeLaw == done => \A i \in DOMAIN Last.want : Last.want[i] \in 0..Len(path)
OneColumnEach == done /\ Last.want # <<0>> /\ Last.ask.by # "none" => Len(Last.want) = Len(Last.ask.items)
\* selecting by alpha is selecting by the index of that alpha
SameSelection ==
  done /\ search /\ Last.ask.by = "index" /\ Last.want # <<0>> =>
    Resolve(search, path, [by |-> "alpha", seq |-> TRUE, items |-> [i \in DOMAIN Last.want |-> 10 * path[Last.want[i]]]]) = Last.want
Emit == done => PrintT("@@B " \o ToJson(hist))
=============================================================================
