------------------------------- MODULE HyperTrace -------------------------------
(***************************************************************************)
(* What calls did with hyper-parameter values (kind "hyper") and with      *)
(* responses (kind "y": one response value yv in otherwise valid data).    *)
(* outcome: "ok" or the exception type; msg: with a message; fitted: the   *)
(* estimator has results.                                                  *)
(***************************************************************************)
EXTENDS TraceBase, Families, Hyper

Reject == {"ValueError", "TypeError", "NotImplementedError", "InvalidParameterError", "AttributeError"}
Judge(v, e) ==
  IF v = "open" THEN {}
  ELSE IF v = "valid" THEN (IF e.outcome = "ok" THEN {} ELSE {<<"valid-value-rejected", e.outcome>>})
  ELSE IF e.outcome = "ok" THEN {<<"invalid-value-accepted">>}
  ELSE (IF e.outcome \in Reject /\ e.msg THEN {} ELSE {<<"not-a-descriptive-error", e.outcome>>})
       \cup (IF e.fitted THEN {<<"results-set-although-rejected">>} ELSE {})
HyperClauses(e) ==
  CASE e.kind = "hyper" -> Judge(HyperVerdict(e.par, e.val, e.ctx), e)
    [] e.kind = "y" -> Judge(IF RIsFinite(e.yv) /\ InRange(e.fam, e.yv) THEN "valid" ELSE "invalid", e)
===============================================================================
