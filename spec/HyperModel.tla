------------------------------- MODULE HyperModel -------------------------------
(* All (parameter, value class, context) triples with a verdict. *)
EXTENDS Hyper, TLC, Json
VARIABLES par, val, ctx
Init == par \in Params /\ val \in Classes /\ ctx \in Ctxs
Next == UNCHANGED <<par, val, ctx>>
Spec == Init /\ [][Next]_<<par, val, ctx>>
\* no parameter admits a value that is not a number where a number is meant
NaNNever == val \in {"nan", "nanlist", "cplx", "strlist"} => HyperVerdict(par, val, ctx) \in {"invalid", "open"}
\* a list is valid only where several values are meant
ListsOnlyWhereMeant ==
  (val \in Lists /\ HyperVerdict(par, val, ctx) = "valid") => par \in {"alpha", "alphas", "l1_ratio"} /\ val = "list"
\* None is never invalid where it is documented as the default
Total == HyperVerdict(par, val, ctx) \in {"valid", "invalid", "open"}
Emit == IF HyperVerdict(par, val, ctx) = "open" THEN TRUE
        ELSE PrintT("@@B " \o ToJson([par |-> par, val |-> val, ctx |-> ctx]))
===============================================================================
