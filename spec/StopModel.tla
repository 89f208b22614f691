------------------------------ MODULE StopModel ------------------------------
(***************************************************************************)
(* The iteration loop of the solvers that report diagnostics.  The state   *)
(* is what one iteration leaves behind: the size of the gradient at the    *)
(* current point ("lo": below the tolerance, "hi", "nan") and the length   *)
(* of the last step.  Every quantity the environment decides (gradients,   *)
(* steps) is chosen nondeterministically.                                  *)
(*                                                                         *)
(*   rows   : the diagnostics, one row per point visited, the start first  *)
(*   phase  : "loop", "done"                                               *)
(*   conv   : convergence is reported (no warning)                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS MaxIter, StepTols
VARIABLES lim, steptol, rows, phase, conv
vars == <<lim, steptol, rows, phase, conv>>

Norms == {"lo", "hi", "nan"}
Steps == {"big", "small"}
Row(n, s) == [norm |-> n, step |-> s]
K == Len(rows) - 1
Cur == rows[Len(rows)]

\* the first row has no step: it never counts as a small one
Small(k, r) == steptol /\ k >= 1 /\ r.step = "small"
Met(k, r) == r.norm = "lo" \/ Small(k, r)
Stops(k, r) == Met(k, r) \/ r.norm = "nan" \/ k = lim

Init ==
  /\ lim \in 1..MaxIter /\ steptol \in StepTols
  /\ rows \in {<<Row(n, "big")>> : n \in Norms}
  /\ phase = "loop" /\ conv = FALSE
Iterate ==
  /\ phase = "loop" /\ ~Stops(K, Cur)
  /\ \E n \in Norms, s \in Steps : rows' = Append(rows, Row(n, s))
  /\ UNCHANGED <<lim, steptol, phase, conv>>
Finish ==
  /\ phase = "loop" /\ Stops(K, Cur)
  /\ phase' = "done" /\ conv' = Met(K, Cur)
  /\ UNCHANGED <<lim, steptol, rows>>
Next == Iterate \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

WithinLimit == K <= lim
\* silence means that a tolerance is met, and a tolerance that is met is not reported as failure
Honest == phase = "done" => (conv <=> Met(K, Cur))
\* no point that met a tolerance is left behind
StopsAtOnce == \A k \in 1..(Len(rows) - 1) : ~Stops(k - 1, rows[k])
Terminates == <>(phase = "done")

\* why it stopped
Why == IF Cur.norm = "lo" THEN "gradient" ELSE IF Small(K, Cur) THEN "step"
       ELSE IF Cur.norm = "nan" THEN "nan" ELSE "limit"
Emit == phase = "done" =>
  PrintT("@@B " \o ToJson([lim |-> lim, steptol |-> steptol, k |-> K, why |-> Why, conv |-> conv]))
=============================================================================
