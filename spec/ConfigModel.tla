------------------------------ MODULE ConfigModel ------------------------------
(***************************************************************************)
(* All configurations; checks the decision table and prints the            *)
(* configurations to be replayed into the library.                         *)
(***************************************************************************)
EXTENDS Config, TLC, Json
VARIABLE c
Init == c \in Configs
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

With(s) == [c EXCEPT !.solver = s]
\* what is to be solved is within the capabilities of the solver that solves it
Honoured == Decision(c) # "reject" => Covers(Chosen(c), c)
\* the automatic choice is never less capable than an explicit one
AutoComplete == (\E s \in Solvers : Decision(With(s)) = "solve") => Decision(With("auto")) # "reject"
\* the automatic choice refuses only what no solver can do
AutoRefuses == Decision(With("auto")) = "reject" => \A s \in Solvers : Decision(With(s)) = "reject"
\* an option that is not asked for is never a reason to refuse
Plain == (c.cons = "none" /\ c.bounds = "none" /\ ~L1Said(c) /\ ~c.scale /\ c.fam = "normal"
          /\ c.solver # "irls-ls-monotonic") => Decision(c) = "solve"
\* with everything else equal, removing a constraint or the L1 share never turns "solve" into "reject"
\* (except for the solver made for constraints)
Monotone ==
  (Decision(c) = "solve" /\ ~NeedsCons(Chosen(c))) =>
     /\ Decision([c EXCEPT !.bounds = "none"]) # "reject"
     /\ Decision([c EXCEPT !.cons = "none"]) # "reject"
     /\ Decision([c EXCEPT !.l1 = "zero"]) # "reject"
\* something is wrong with what is rejected, and with nothing else
WrongIsRejected == (Wrong(c) # {}) = (Decision(c) = "reject")
Emit == PrintT("@@B " \o ToJson(c @@ [verdict |-> Decision(c), chosen |-> Chosen(c), wrong |-> Wrong(c)]))
===============================================================================
