------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Replays a recorded trace against a specification.  Each line of the     *)
(* trace is one observation of the real library (a public call with its    *)
(* arguments and its result, or a group of calls that a clause relates);   *)
(* Verdict(e) is the set of clauses of the specification it violates,      *)
(* total by construction.  The trace is cut into NBlk blocks so TLC's      *)
(* workers can check them in parallel; one state per line.                 *)
(***************************************************************************)
EXTENDS RealArith, TLC, FiniteSets
CONSTANTS File, NBlk, Verdict(_)
VARIABLES blk, l

Trace == TraceLoad(File)
N == Len(Trace)
First(k) == ((k - 1) * N) \div NBlk + 1
Last(k) == (k * N) \div NBlk

TraceInit == blk = 0 /\ l = 0
Open == blk = 0 /\ \E k \in 1..NBlk : blk' = k /\ l' = First(k) - 1
Step == blk > 0 /\ l < Last(blk) /\ l' = l + 1 /\ blk' = blk
TraceNext == Open \/ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<blk, l>>

\* evaluated on every state; prints the failing clauses, never stops the run
Judged ==
  \/ blk = 0 \/ l < First(blk)
  \/ LET v == Verdict(Trace[l]) IN
       IF v = {} THEN TRUE ELSE PrintT(<<"@@FAIL", l, v>>)
=============================================================================
