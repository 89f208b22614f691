------------------------------ MODULE FrameModel ------------------------------
(***************************************************************************)
(* Histories of events over a heap of versioned objects.  Every event may  *)
(* bump the versions of what May allows; the invariants are the promises   *)
(* to the caller.  Histories of length Depth are printed and replayed.     *)
(***************************************************************************)
EXTENDS Frame, TLC, Json
CONSTANT Depth
VARIABLES hist, in, X, outs, model, copyX
vars == <<hist, in, X, outs, model, copyX>>

Init == hist = <<>> /\ in = 0 /\ X = 0 /\ outs = {} /\ model = 0 /\ copyX \in {"yes", "no"}
Bump(v, ok) == IF ok THEN v + 1 ELSE v
Do(ev) ==
  /\ Len(hist) < Depth
  /\ hist = <<>> => ev = "fit"
  /\ ev = "scribble-out" => outs # {}
  /\ ev = "warm" => \E k \in 1..Len(hist) : hist[k] \in Fits
  /\ hist' = Append(hist, ev)
  /\ in' = Bump(in, "in" \in May(ev, copyX))
  /\ X' = Bump(X, "X" \in May(ev, copyX))
  /\ model' = Bump(model, "model" \in May(ev, copyX))
  \* each event but a scribble hands something out; kept objects carry the version they had
  /\ outs' = (IF "out" \in May(ev, copyX) THEN {} ELSE outs)
             \cup (IF ev \in Scribbles THEN {} ELSE {[at |-> Len(hist) + 1, v |-> 0]})
  /\ UNCHANGED copyX
Next == \E ev \in Events : Do(ev)
Spec == Init /\ [][Next]_vars

Count(S) == Cardinality({k \in 1..Len(hist) : hist[k] \in S})
\* the caller's objects change only by the caller's own hand (and X if it was given away)
InputsAreTheCallers == in = Count({"scribble-in"}) /\ X = Count({"scribble-in"}) + (IF copyX = "no" THEN Count(Fits) ELSE 0)
ModelChangesOnlyByFitting == model = Count(Fits) + Count({"scribble-out"})
HandedOutIsKept == \A o \in outs : o.v = 0
Emit == IF Len(hist) = Depth THEN PrintT("@@B " \o ToJson([hist |-> hist, copyX |-> copyX])) ELSE TRUE
===============================================================================
