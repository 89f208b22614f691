------------------------------- MODULE LifeTrace ------------------------------
(***************************************************************************)
(* Validates a recorded life of a real estimator.  A line holds            *)
(*   ops : the operations, each with what was observed: tag (outcome,      *)
(*         names, warnings, as text) and v (numbers, flattened)            *)
(*   ref : for parameters p, data d and kept covariance c the entry        *)
(*         ref["p|d|c"][q] is the same observation q made on a fresh       *)
(*         estimator with those parameters fitted once on that data.       *)
(* The operations are replayed on Lifecycle's state.                       *)
(***************************************************************************)
EXTENDS TraceBase
LC == INSTANCE Lifecycle WITH Pars <- {}, Datas <- {}, Bads <- {}, Depth <- 0, s <- l, hist <- l

Key(t) == t.fpar \o "|" \o t.fdata \o "|" \o t.cov

SameNumbers(a, b, rtol) ==
  Len(a) = Len(b) /\ \A i \in 1..Len(a) :
     IF ~RIsFinite(a[i]) \/ ~RIsFinite(b[i]) THEN RStr(a[i]) = RStr(b[i])
     ELSE RLe(RAbs(a[i] -- b[i]), R(rtol) ** (1 ++ RAbs(b[i])))
Differs(what, k, o, w, rtol) ==
  IF o.tag # w.tag THEN {<<"other-answer-than-a-fresh-estimator", what, k, o.tag, w.tag>>}
  ELSE IF SameNumbers(o.v, w.v, rtol) THEN {} ELSE {<<"other-numbers-than-a-fresh-estimator", what, k>>}

OpClauses(e, k, t) ==
  LET o == e.ops[k] IN
  CASE o.op = "fit" -> Differs("fit", k, o.obs, e.ref[t.par \o "|" \o o.a \o "|none"]["fit"], e.rtol)
    [] o.op = "query" ->
         IF ~LC!Judged0(t) THEN {} ELSE Differs(o.q, k, o.obs, e.ref[Key(t)][o.q], e.rtol)
    [] o.op = "state" ->  \* the public attributes, after an operation that must not change them
         IF ~LC!Judged0(t) THEN {}
         ELSE LET w == e.ref[t.fpar \o "|" \o t.fdata \o "|none"]["fit"]
              IN Differs("attributes", k, [o.obs EXCEPT !.tag = o.obs.plain], [tag |-> w.state, v |-> w.v], e.rtol)
    [] o.op = "bad" ->
         IF o.obs.tag = "ok" THEN {<<"invalid-fit-accepted", o.a>>}
         ELSE IF SameNumbers(o.before, o.obs.v, "0") THEN {} ELSE {<<"failed-fit-changed-the-estimates", o.a>>}
    [] o.op = "clone" -> IF o.obs.tag = "unfitted, same parameters" THEN {} ELSE {<<"clone", o.obs.tag>>}
    [] OTHER -> {}

\* a fit that a fresh estimator rejects too is a failed fit
ApplyReal(t, o) ==
  IF o.op \in {"fit", "warmfit"} /\ ~o.fitted THEN LC!Apply(t, [op |-> "bad", a |-> "", b |-> ""])
  ELSE LC!Apply(t, o)

RECURSIVE Walk(_, _, _, _)
Walk(e, k, t, acc) ==
  IF k > Len(e.ops) THEN acc
  ELSE Walk(e, k + 1, ApplyReal(t, e.ops[k]), acc \cup OpClauses(e, k, t))
LifeClauses(e) == Walk(e, 1, LC!S0, {})
=============================================================================
