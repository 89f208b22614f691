-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* Which combinations of options denote a problem the library solves.      *)
(* A configuration c has                                                   *)
(*   est    : "glm", "cv"          path : "single", "search" (glm only)    *)
(*   solver : "auto" or one of Solvers                                     *)
(*   fam    : "normal" (identity), "normallog" (normal, log), "poisson"    *)
(*   l1     : "zero", "half", "mix" (cv only: both)                        *)
(*   alpha  : "zero", "pos"        p1 : "ones", "zeros", "some" (of them)   *)
(*   bounds : "none", "both", "lower", "upper", "scalar" (a number)        *)
(*   cons   : "none", "ineq0" (A w <= 0), "ineqb" (A w <= b), "halfA",     *)
(*            "halfb" (only one of the two given), "mono" (a monotone      *)
(*            variable of a formula), "monoX" (no formula), "monoineq"     *)
(*   fi, scale : BOOLEAN                                                   *)
(* Decision(c) is "solve" (must be solved exactly), "reject" (must be       *)
(* rejected with a descriptive error) or "either" (an option without any   *)
(* effect, such as an L1 share of a zero penalty, which a solver without   *)
(* L1 support may refuse or ignore).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Solvers == {"closed-form", "irls-cd", "irls-ls", "lbfgs", "trust-constr", "irls-ls-monotonic"}

\* what a solver can do
CanL1(s) == s = "irls-cd"
CanBounds(s) == s = "irls-cd"
CanIneq(s, rhs) == s = "trust-constr" \/ (s = "irls-ls-monotonic" /\ rhs = "zero")
CanFam(s, f) == s # "closed-form" \/ f = "normal"
NeedsCons(s) == s = "irls-ls-monotonic"

\* what a configuration asks for
Ineq(c) == c.cons \in {"ineq0", "ineqb"}
Mono(c) == c.cons = "mono"
Rhs(c) == IF c.cons = "ineqb" THEN "nonzero" ELSE "zero"
L1Said(c) == c.l1 # "zero"
L1Meant(c) == c.l1 # "zero" /\ c.alpha = "pos" /\ c.p1 # "zeros"

\* requests that contradict themselves whatever the solver
Contradictory(c) ==
  \/ c.scale /\ ~c.fi
  \/ c.cons \in {"halfA", "halfb", "monoX", "monoineq"}
  \/ c.cons # "none" /\ c.bounds # "none"       \* documented: one kind of constraint only

Auto(c) ==
  CASE Mono(c) -> "irls-ls-monotonic"
    [] Ineq(c) -> "trust-constr"
    [] c.bounds # "none" -> "irls-cd"
    [] OTHER ->
       LET free == c.l1 = "zero" \/ (c.est = "glm" /\ c.path = "single" /\ c.alpha = "zero") IN
       IF ~free THEN "irls-cd" ELSE IF c.fam = "normal" THEN "closed-form" ELSE "irls-ls"
Chosen(c) == IF c.solver = "auto" THEN Auto(c) ELSE c.solver

Covers(s, c) ==
  /\ L1Meant(c) => CanL1(s)
  /\ c.bounds # "none" => CanBounds(s)
  /\ (Ineq(c) \/ Mono(c)) => CanIneq(s, Rhs(c))
  /\ CanFam(s, c.fam)
  /\ NeedsCons(s) => (Ineq(c) \/ Mono(c))

\* how many things are wrong
Wrong(c) ==
  LET s == Chosen(c) IN
  {r \in {"scale", "form", "kinds", "l1", "bounds", "constraints", "family", "needs"} :
     CASE r = "scale" -> c.scale /\ ~c.fi
       [] r = "form" -> c.cons \in {"halfA", "halfb", "monoX", "monoineq"}
       [] r = "kinds" -> c.cons # "none" /\ c.bounds # "none"
       [] r = "l1" -> L1Meant(c) /\ ~CanL1(s)
       [] r = "bounds" -> c.bounds # "none" /\ ~CanBounds(s)
       [] r = "constraints" -> (Ineq(c) \/ Mono(c)) /\ ~CanIneq(s, Rhs(c))
       [] r = "family" -> ~CanFam(s, c.fam)
       [] r = "needs" -> NeedsCons(s) /\ ~(Ineq(c) \/ Mono(c))}

Decision(c) ==
  IF Contradictory(c) \/ ~Covers(Chosen(c), c) THEN "reject"
  ELSE IF L1Said(c) /\ ~CanL1(Chosen(c)) /\ (c.solver # "auto" \/ c.cons # "none" \/ c.alpha = "pos") THEN "either"
  ELSE "solve"

Configs ==
  LET common(est, l1s, alphas, paths) ==
        [est : {est}, path : paths, solver : Solvers \cup {"auto"}, fam : {"normal", "normallog", "poisson"},
         l1 : l1s, alpha : alphas, p1 : {"ones", "zeros", "some"}, bounds : {"none", "both", "lower", "upper", "scalar"},
         cons : {"none", "ineq0", "ineqb", "halfA", "halfb", "mono", "monoX", "monoineq"},
         fi : BOOLEAN, scale : BOOLEAN]
  IN common("glm", {"zero", "half"}, {"zero", "pos"}, {"single", "search"})
     \cup common("cv", {"zero", "half", "mix"}, {"pos"}, {"single"})
===============================================================================
