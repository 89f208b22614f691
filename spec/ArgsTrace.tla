------------------------------- MODULE ArgsTrace ------------------------------
(***************************************************************************)
(* Which arguments are valid.  A line describes one argument of one call   *)
(* abstractly and what the call did with it: outcome "ok" or the type of   *)
(* the exception.  An invalid argument must be rejected with a descriptive *)
(* error (ValueError, TypeError, ... with a message), a valid one accepted *)
(* The argument is described by                                            *)
(*   arg  : its role,   nd : number of dimensions (0 scalar),              *)
(*   len, want : its length and the length needed,                         *)
(*   neg, allzero, nonfinite : facts about its entries.                    *)
(***************************************************************************)
EXTENDS TraceBase

Valid(a) ==
  CASE a.arg = "sample_weight" ->
         /\ ~a.neg /\ ~a.allzero /\ ~a.nonfinite
         /\ a.nd = 0 \/ (a.nd = 1 /\ a.len = a.want)
    [] a.arg = "offset" ->
         /\ ~a.nonfinite
         /\ a.nd = 0 \/ (a.nd = 1 /\ a.len = a.want)
    [] a.arg = "start_params" ->
         ~a.nonfinite /\ a.nd = 1 /\ a.len = a.want
    [] a.arg = "P1" -> ~a.neg /\ ~a.nonfinite /\ a.nd = 1 /\ a.len = a.want
    [] a.arg = "P2" -> ~a.neg /\ ~a.nonfinite /\ a.nd \in {1, 2} /\ a.len = a.want
    [] a.arg = "X" -> a.nd = 2 /\ a.len = a.want /\ ~a.nonfinite
    [] a.arg = "y" -> a.nd = 1 /\ a.len = a.want /\ ~a.nonfinite
    [] a.arg = "bounds" -> a.nd = 0 \/ (a.nd = 1 /\ a.len = a.want)
    [] a.arg = "forbidden" -> FALSE   \* a call the documentation excludes
    [] a.arg = "allowed" -> TRUE      \* a call the documentation allows

\* errors that say what is wrong, as opposed to accidents
Descriptive == {"ValueError", "TypeError", "NotFittedError", "KeyError", "IndexError", "AttributeError", "NotImplementedError",
                "FormulaSyntaxError", "FactorEvaluationError", "InvalidParameterError", "FormulaicError", "FormulaMaterializationError", "LinAlgError"}

ArgClauses(e) ==
  IF Valid(e) THEN (IF e.outcome = "ok" THEN {} ELSE {<<"valid-argument-rejected", e.arg, e.what, e.outcome>>})
  ELSE IF e.outcome = "ok" THEN {<<"invalid-argument-accepted", e.arg, e.what>>}
  ELSE IF e.outcome \in Descriptive THEN {} ELSE {<<"not-a-descriptive-error", e.arg, e.what, e.outcome>>}
=============================================================================
