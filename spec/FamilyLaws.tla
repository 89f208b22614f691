------------------------------ MODULE FamilyLaws -----------------------------
(***************************************************************************)
(* The defining identities of exponential dispersion models and links,     *)
(* checked by TLC on the specification itself over a grid, with exact       *)
(* derivatives approximated by symmetric differences of step 1e-12 in       *)
(* 40-digit arithmetic:                                                    *)
(*   d(y,mu) >= 0, d(y,y) = 0, dd/dmu = -2(y-mu)/v(mu), v' is the derivative*)
(*   of v, dl/dmu = s (y-mu)/(phi v), h(g(mu)) = mu, g'(h(x)) h'(x) = 1,    *)
(*   h'' is the derivative of h'.                                          *)
(***************************************************************************)
EXTENDS Families, Links, TLC
VARIABLE c

Fams == {[name |-> nm, p |-> "0", theta |-> "1"] : nm \in {"normal", "poisson", "gamma", "invgauss", "binomial", "negbin", "ghs"}}
        \cup {[name |-> "tweedie", p |-> q, theta |-> "1"] : q \in {"-2", "-0.5", "0", "1", "1.1", "1.5", "1.9", "2", "2.5", "3", "4"}}
        \cup {[name |-> "negbin", p |-> "0", theta |-> q] : q \in {"0.1", "0.5", "3"}}
Lks == {[name |-> nm, p |-> "0"] : nm \in {"identity", "log", "logit", "cloglog"}}
       \cup {[name |-> "tweedie", p |-> q] : q \in {"0", "1", "1.5", "2", "3", "-1"}}
Ys == {"-1.5", "0", "0.2", "0.5", "1", "2", "7.25"}
Ms == {"0.01", "0.2", "0.5", "0.99", "1", "2", "30"}
Etas == {"-3", "-0.5", "0", "0.3", "1", "2.5"}
H == R("1e-12")
Diff(F(_), x) == (F(R(x) ++ H) -- F(R(x) -- H)) // (2 ** H)
Near(a, b) == RLe(RAbs(a -- b), R("1e-15") ** (1 ++ RAbs(a) ++ RAbs(b)))
\* log-likelihoods go through a 35-digit log-gamma
NearLL(a, b) == RLe(RAbs(a -- b), R("1e-12") ** (1 ++ RAbs(a) ++ RAbs(b)))
MeanOK(f, m) == f.name = "binomial" => RLt(m, 1)
RealMean(k, m) == LkNorm(k) \in {"logit", "cloglog"} => RLt(m, 1)
EtaOK(k, x) == LkNorm(k) = "tweedie" => RLt(0, x)

Init == c \in [t : {"start"}, part : {0}]
\* split over the workers
Next == \/ /\ c.t = "start"
           /\ \/ \E f \in Fams : c' = [t |-> "f", f |-> f]
              \/ \E k \in Lks : c' = [t |-> "k", k |-> k]
        \/ c.t = "f" /\ \E y \in Ys : c' = [t |-> "f0", f |-> c.f, y |-> y]
        \/ c.t = "k" /\ \E x \in Etas : c' = [t |-> "k0", k |-> c.k, x |-> x]
Spec == Init /\ [][Next]_c

FamilyOK(f, y, m) ==
  (InRange(f, y) /\ MeanOK(f, m)) =>
   /\ (f.name # "binomial" /\ ~(f.name \in TweedieLike /\ RLt(Power(f), 0) /\ RLt(y, 0))) => RLe(R("-1e-30"), UnitDeviance(f, y, m))
   /\ f.name \in {"normal", "ghs"} \/ RLt(0, y) => (InRange(f, m) /\ REq(y, m) /\ f.name # "binomial" => Near(UnitDeviance(f, y, m), Zero))
   /\ Near(Diff(LAMBDA z: UnitDeviance(f, y, z), m), UnitDevianceD(f, y, m))
   /\ Near(Diff(LAMBDA z: UnitVariance(f, z), m), UnitVarianceD(f, m))
   /\ RLt(0, UnitVariance(f, m))
   /\ (HasLogLik(f) /\ f.name \notin {"poisson", "binomial", "negbin"} /\ ~REq(Power(f), 1)) =>
         NearLL(Diff(LAMBDA z: UnitLogLik(f, y, z, R("0.7")), m), (R(y) -- m) // (R("0.7") ** UnitVariance(f, m)))
   /\ (f.name \in {"poisson", "binomial", "negbin"}) =>
         NearLL(Diff(LAMBDA z: UnitLogLik(f, y, z, One), m), (R(y) -- m) // UnitVariance(f, m))
LinkOK(k, x, m) ==
   /\ RealMean(k, m) => /\ Near(Inv(k, LinkFn(k, m)), R(m))
                        /\ Near(LinkD(k, m) ** InvD(k, LinkFn(k, m)), One)
                        /\ Near(Diff(LAMBDA z: LinkFn(k, z), m), LinkD(k, m))
   /\ EtaOK(k, x) => /\ Near(Diff(LAMBDA z: Inv(k, z), x), InvD(k, x))
                     /\ Near(Diff(LAMBDA z: InvD(k, z), x), InvD2(k, x))
                     /\ Near(LinkFn(k, Inv(k, x)), R(x))
Laws == CASE c.t = "f0" -> \A m \in Ms : FamilyOK(c.f, c.y, m)
          [] c.t = "k0" -> \A m \in Ms : LinkOK(c.k, c.x, m)
          [] OTHER -> TRUE
=============================================================================
