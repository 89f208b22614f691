------------------------------ MODULE FrameTrace ------------------------------
(***************************************************************************)
(* One event on the real objects: [ev, copyX, inputs, x, outs, model, cov] *)
(* lists the objects of each group whose contents differ, bit for bit,     *)
(* from before the event.  A call that raises is bound by the same frame.  *)
(***************************************************************************)
EXTENDS TraceBase, Frame

FrameClauses(e) ==
  LET may == May(e.ev, e.copyX)
      Bad(group, seen, what) == IF Len(seen) = 0 \/ group \in may THEN {} ELSE {<<what, seen>>}
  IN Bad("in", e.inputs, "caller's-object-modified")
     \cup Bad("X", e.x, "caller's-X-modified")
     \cup Bad("out", e.outs, "handed-out-object-modified")
     \cup Bad("model", e.model, "model-modified")
     \cup Bad("covariance", IF "model" \in may THEN <<>> ELSE e.cov, "covariance-modified")
===============================================================================
