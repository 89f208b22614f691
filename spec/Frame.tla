--------------------------------- MODULE Frame ---------------------------------
(***************************************************************************)
(* Who may write to what.  Three groups of objects exist: the caller's     *)
(* ("in": X, y, weights, offset, clusters, hyper-parameters, new data,     *)
(* hypotheses, ...), those the library handed out earlier ("out": returned *)
(* arrays and attributes the caller kept), and the fitted results of the   *)
(* estimator ("model").  An event is a public call or an action of the     *)
(* caller; May(ev) is what it may change.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fits == {"fit", "warm"}
Queries == {"predict", "linear", "score", "infer", "criteria", "report", "params", "give"}
Scribbles == {"scribble-in", "scribble-out"}
Events == Fits \cup Queries \cup {"store"} \cup Scribbles

\* groups that may change; "X" is the caller's X, which copy_X=False puts at the library's disposal
May(ev, copyX) ==
  CASE ev \in Fits -> {"model"} \cup (IF copyX = "no" THEN {"X"} ELSE {})
    [] ev \in Queries -> {}
    [] ev = "store" -> {"covariance"}
    [] ev = "scribble-in" -> {"in", "X"}          \* the caller changes its own objects: the model stays
    [] ev = "scribble-out" -> {"out", "model", "covariance"}    \* ... changes what it was given: the inputs stay
===============================================================================
