------------------------------ MODULE ConfigTrace ------------------------------
(***************************************************************************)
(* What the library did with a configuration.  Line: [c, outcome, msg,     *)
(* fitted, diff, same]: outcome "ok" or the exception type, msg whether it *)
(* came with a message, fitted whether results were set, same whether the  *)
(* estimates equal those of the solver the table says "auto" stands for.   *)
(* That a solved configuration is solved exactly is judged by FitTrace and *)
(* IneqTrace on a further line.                                            *)
(***************************************************************************)
EXTENDS TraceBase, Config

Descriptive == {"ValueError", "TypeError", "NotImplementedError"}
ConfigClauses(e) ==
  LET v == Decision(e.c) IN
  IF e.outcome = "ok" THEN
    (IF v = "reject" THEN {<<"not-rejected", Chosen(e.c)>>} ELSE {})
    \cup (IF e.c.solver = "auto" /\ v = "solve" /\ ~e.same THEN {<<"auto-is-not", Auto(e.c)>>} ELSE {})
  ELSE (IF v = "solve" THEN {<<"rejected", e.outcome>>}
        ELSE IF e.outcome \in Descriptive /\ e.msg THEN {} ELSE {<<"not-a-descriptive-error", e.outcome>>})
       \cup (IF e.fitted THEN {<<"results-set-although-rejected">>} ELSE {})
===============================================================================
