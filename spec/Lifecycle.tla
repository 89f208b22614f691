------------------------------- MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life of an estimator object.  Its observable state is what it was   *)
(* last fitted with - the parameters at that time and the data - and which *)
(* covariance matrix it keeps; nothing else of its history may matter.     *)
(*                                                                         *)
(*   par   : the parameter setting it has now                              *)
(*   fit   : "none" never fitted, "ok" fitted, "old" a later fit failed or *)
(*           was warm-started                                              *)
(*   fpar, fdata : parameters and data of the last successful fit          *)
(*   cov   : "none", "own" (as its parameters say) or "plain", what it keeps*)
(*                                                                         *)
(* Operations o = [op, a, b]:                                              *)
(*   set a            set_params to setting a                              *)
(*   fit a b          fit on data a, b = "store" keeps the covariance      *)
(*   bad a            a fit that must fail, for reason a                   *)
(*   warmfit a        a fit on data a with warm_start; what it gives is    *)
(*                    not judged, what comes after it is                   *)
(*   query            predictions, scores, criteria, inference, tables     *)
(*   storecov a       covariance_matrix(store_covariance_matrix=True)      *)
(*   pickle, deepcopy go on with the copy                                  *)
(*   clone            go on with sklearn.base.clone of it                  *)
(*   sibling a        another estimator with the very same parameter       *)
(*                    objects is fitted on data a                          *)
(*   scribble         overwrite arrays the estimator returned              *)
(*   probe            query with invalid arguments                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Pars, Datas, Bads, Depth
VARIABLES s, hist

S0 == [par |-> "p1", fit |-> "none", fpar |-> "", fdata |-> "", cov |-> "none"]

Apply(t, o) ==
  CASE o.op = "set" -> [t EXCEPT !.par = o.a]
    [] o.op = "fit" -> [t EXCEPT !.fit = "ok", !.fpar = t.par, !.fdata = o.a,
                                 !.cov = IF o.b = "store" THEN "own" ELSE "none"]
    [] o.op = "warmfit" -> [t EXCEPT !.fit = "old"]
    [] o.op = "bad" -> [t EXCEPT !.fit = IF t.fit = "none" THEN "none" ELSE "old"]
    [] o.op = "storecov" -> IF t.fit = "ok" THEN [t EXCEPT !.cov = o.a] ELSE t
    [] o.op = "clone" -> [S0 EXCEPT !.par = t.par]
    [] OTHER -> t

\* what is computed from the fit may be compared with a fresh estimator
Judged0(t) == t.fit = "ok" /\ t.par = t.fpar

O(op, a, b) == [op |-> op, a |-> a, b |-> b]
Quietly == {"query", "probe", "scribble", "pickle", "deepcopy"}
OpsIn(t) ==
  {O("set", p, "") : p \in Pars \ {t.par}}
  \cup {O("fit", d, k) : d \in Datas, k \in {"", "store"}}
  \cup {O("bad", k, "") : k \in Bads}
  \cup (IF t.fit = "none" THEN {} ELSE {O(k, "", "") : k \in Quietly})
  \cup (IF Judged0(t) THEN {O("storecov", k, "") : k \in {"own", "plain"}} ELSE {})
  \cup (IF t.fit = "none" THEN {} ELSE {O("clone", "", "")})
  \cup {O("sibling", d, "") : d \in Datas}
  \cup (IF t.fit = "none" THEN {} ELSE {O("warmfit", d, "") : d \in Datas})

Init == s = S0 /\ hist = <<>>
Do(o) == /\ hist # <<>> => hist[Len(hist)].op # o.op \/ o.op \in {"fit", "bad"}
         /\ s' = Apply(s, o) /\ hist' = Append(hist, o)
Next == /\ Len(hist) < Depth
        /\ \E o \in OpsIn(s) : Do(o) /\ (Len(hist) = Depth - 1 => o.op = "fit")
Spec == Init /\ [][Next]_<<s, hist>>

\* laws of the design: the state after a history is that of a fresh estimator with the
\* present parameters that was fitted once, and observers leave it alone
FreshEquivalent ==
  hist # <<>> /\ hist[Len(hist)].op = "fit" =>
    LET o == hist[Len(hist)] IN s = Apply([S0 EXCEPT !.par = s.par], o)
ObserversPure == [][hist' # hist /\ hist'[Len(hist')].op \in Quietly \cup {"sibling"} => s' = s]_<<s, hist>>
Emit == Len(hist) = Depth => PrintT("@@B " \o ToJson(hist))
=============================================================================
