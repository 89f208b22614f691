------------------------------ MODULE DistTrace ------------------------------
(***************************************************************************)
(* Observations of the distribution and link objects against their         *)
(* definitions (Families, Links).  One line is one object asked about one  *)
(* vector of responses, means and weights.                                 *)
(***************************************************************************)
EXTENDS TraceBase, Objective

Idx(e) == 1..Len(e.y)
At(e, i) == IF e.hass THEN e.s[i] ELSE One

\* error allowed in an elementwise value: rounding relative to the terms that make it up
UDScale(f, y, mu) ==
  IF f.name \in TweedieLike THEN
    LET p == Power(f) IN
    IF REq(p, 0) THEN Sq(y) ++ Sq(mu)
    ELSE IF REq(p, 1) THEN RAbs(y) ++ mu
    ELSE IF REq(p, 2) THEN One ++ RAbs(y // mu)
    ELSE IF REq(p, 3) THEN (1 ++ Sq(y // mu)) // y
    ELSE ((RPow(RMax(y, 0), 2 -- p) // RAbs((1 -- p) ** (2 -- p))) ++ ((RAbs(y) ** RPow(mu, 1 -- p)) // RAbs(1 -- p)))
           ++ (RPow(mu, 2 -- p) // RAbs(2 -- p))
  ELSE IF f.name = "negbin" THEN (RAbs(y) ++ mu) ++ (1 // f.theta)
  ELSE (RAbs(y) ++ RAbs(mu)) ++ 1
Close(x, v, eps, scale) ==
  \/ RIsFinite(x) /\ RLe(RAbs(x -- v), R(eps) ** (RAbs(v) ++ scale))
  \/ ~RIsFinite(v) /\ REq(x, v)

Z0(i) == Zero
PerElem(e, name, obs, val(_), scale(_)) ==
  IF Len(obs) # Len(e.y) THEN {<<name, "length">>}
  ELSE UNION { IF Close(obs[i], val(i), e.eps, scale(i)) THEN {} ELSE {<<name, i, RStr(obs[i]), RStr(val(i))>>} : i \in Idx(e)}

DistClauses(e) ==
  LET f == e.fam
      Z(i) == Zero
      UV(i) == UnitVariance(f, e.mu[i])
      UVD(i) == UnitVarianceD(f, e.mu[i])
      UD(i) == UnitDeviance(f, e.y[i], e.mu[i])
      UDD(i) == UnitDevianceD(f, e.y[i], e.mu[i])
      US(i) == UDScale(f, e.y[i], e.mu[i])
      wts == Force([i \in Idx(e) |-> At(e, i)])
      tot == RSum(wts)
      dev == Deviance(f, e.y, e.mu, wts)
      scl == RSum(Force([i \in Idx(e) |-> wts[i] ** US(i)]))
      pea == Pearson(f, e.y, e.mu, wts)
  IN
     PerElem(e, "unit_variance", e.uv, UV, Z)
     \cup PerElem(e, "unit_variance_derivative", e.uvd, UVD, UV)
     \cup PerElem(e, "unit_deviance", e.ud, UD, US)
     \cup PerElem(e, "unit_deviance_derivative", e.udd, UDD, LAMBDA i: (RAbs(e.y[i]) ++ RAbs(e.mu[i])) // UV(i))
     \cup PerElem(e, "variance", e.var, LAMBDA i: (UV(i) ** e.phi) // e.s[i], Z)
     \cup PerElem(e, "variance_derivative", e.vard, LAMBDA i: (UVD(i) ** e.phi) // e.s[i], LAMBDA i: (UV(i) ** e.phi) // e.s[i])
     \cup PerElem(e, "deviance_derivative", e.dd, LAMBDA i: e.s[i] ** UDD(i), LAMBDA i: (e.s[i] ** (RAbs(e.y[i]) ++ RAbs(e.mu[i]))) // UV(i))
     \cup (IF Close(e.dev, dev, e.eps, scl) THEN {} ELSE {<<"deviance", RStr(e.dev), RStr(dev)>>})
     \* the sum of the reported unit deviances is the reported deviance
     \cup (IF Close(e.dev, RDot(wts, e.ud), e.eps, scl) THEN {} ELSE {<<"deviance-is-not-the-sum", RStr(e.dev)>>})
     \cup (IF \A i \in Idx(e) : RLe(RNeg(R(e.eps) ** US(i)), e.ud[i]) \/ f.name = "binomial" THEN {} ELSE {<<"negative-unit-deviance">>})
     \cup (IF Close(e.phiP, pea // (tot -- e.ddof), e.eps10, 0) THEN {} ELSE {<<"pearson-dispersion", RStr(e.phiP), RStr(pea // (tot -- e.ddof))>>})
     \cup (IF Close(e.phiD, dev // (tot -- e.ddof), e.eps10, scl // (tot -- e.ddof)) THEN {} ELSE {<<"deviance-dispersion", RStr(e.phiD)>>})
     \cup (IF ~HasLogLik(f) THEN (IF e.ll = "rejected" THEN {} ELSE {<<"log-likelihood-without-definition", ToString(e.ll)>>})
           ELSE LET l1 == LogLik(f, e.y, e.mu, wts, e.phi)
                    \* the dispersion the library documents as used when none is given
                    l0 == LogLik(f, e.y, e.mu, wts, pea // (tot -- 1))
                    \* a small dispersion amplifies the terms of the density
                    ls(phi) == (1 ++ (1 // phi)) ** (RSum(Force([i \in Idx(e) |-> wts[i] ** ((1 ++ US(i)) ++ (RAbs(e.y[i]) ** (1 ++ RAbs(RLn(RAbs(e.mu[i])))) ))])))
                IN (IF Close(e.ll, l1, e.epsll, ls(e.phi)) THEN {} ELSE {<<"log-likelihood", RStr(e.ll), RStr(l1)>>})
                   \cup (IF e.llok /\ ~Close(e.ll0, l0, e.epsll, ls(pea // (tot -- 1))) THEN {<<"log-likelihood-estimated-dispersion", RStr(e.ll0), RStr(l0)>>} ELSE {}))

\* range membership
RangeClauses(e) ==
  UNION { IF e.inr[i] = InRange(e.fam, e.y[i]) THEN {} ELSE {<<"in_y_range", RStr(e.y[i])>>} : i \in Idx(e)}

(***************************************************************************)
(* Kernels: the working quantities of the optimizer at eta = c + k d.      *)
(* The deviance may omit terms that do not depend on the coefficients, so  *)
(* differences between two step lengths are compared.                      *)
(***************************************************************************)
KEta(e, k) == Force([i \in Idx(e) |-> e.c[i] ++ (k ** e.d[i])])
ObservedInfo(e, eta, i) ==
  LET mu == Inv(e.link, eta)
      v == UnitVariance(e.fam, mu)
      h1 == InvD(e.link, eta)
  IN e.s[i] ** (((RNeg(InvD2(e.link, eta)) ** (e.y[i] -- mu))
       ++ (Sq(h1) ** (1 ++ (((e.y[i] -- mu) ** UnitVarianceD(e.fam, mu)) // v)))) // v)
ExpectedInfo(e, eta, i) ==
  LET mu == Inv(e.link, eta) IN e.s[i] ** (InvD(e.link, eta) ** ScoreRatio(e, eta, mu))

\* binomial deviance with the logit link as a function of eta: 2 (ln(1 + e^eta) - y eta)
Softplus(x) == RMax(x, 0) ++ RLn(1 ++ RExp(RNeg(RAbs(x))))
LogitDeviance(e, eta) == RSum(Force([i \in Idx(e) |-> 2 ** (e.s[i] ** (Softplus(eta[i]) -- (e.y[i] ** eta[i])))]))

KernelClauses(e) ==
  LET et1 == KEta(e, e.k1)
      et2 == KEta(e, e.k2)
      mu1 == Force([i \in Idx(e) |-> Inv(e.link, et1[i])])
      mu2 == Force([i \in Idx(e) |-> Inv(e.link, et2[i])])
      lgt == e.fam.name = "binomial" /\ LkNorm(e.link) = "logit"
      d1 == IF lgt THEN LogitDeviance(e, et1) ELSE Deviance(e.fam, e.y, mu1, e.s)
      d2 == IF lgt THEN LogitDeviance(e, et2) ELSE Deviance(e.fam, e.y, mu2, e.s)
      scl == RSum(Force([i \in Idx(e) |-> e.s[i] ** ((UDScale(e.fam, e.y[i], mu1[i]) ++ UDScale(e.fam, e.y[i], mu2[i])) ++ (1 ++ RAbs(et1[i])))]))
  IN PerElem(e, "eta", e.eta1, LAMBDA i: et1[i], LAMBDA i: One)
     \cup PerElem(e, "mu", e.mu1, LAMBDA i: mu1[i], Z0)
     \cup (IF RIsFinite(e.dev1) /\ RLe(RAbs((e.dev1 -- e.dev2) -- (d1 -- d2)), R(e.eps) ** scl) THEN {}
           ELSE {<<"kernel-deviance", RStr(e.dev1 -- e.dev2), RStr(d1 -- d2)>>})
     \cup PerElem(e, "row-gradient", e.grad, LAMBDA i: (e.s[i] ** (e.y[i] -- mu1[i])) ** ScoreRatio(e, et1[i], mu1[i]),
                  LAMBDA i: (e.s[i] ** (RAbs(e.y[i]) ++ RAbs(mu1[i]))) ** RAbs(ScoreRatio(e, et1[i], mu1[i])))
     \cup UNION {LET o == ObservedInfo(e, et1[i], i)
                      x == ExpectedInfo(e, et1[i], i)
                      sc == IF e.fam.name = "binomial" THEN R(e.s[i]) ** RMax(1, Sq(ScoreRatio(e, et1[i], mu1[i])))
                            ELSE (e.s[i] ** (1 ++ (IF e.fam.name = "ghs" THEN RAbs(e.y[i]) ELSE RAbs(e.y[i] // mu1[i])))) ** (Sq(ScoreRatio(e, et1[i], mu1[i])) ** UnitVariance(e.fam, mu1[i]))
                  IN IF Close(e.hess[i], o, e.eps, sc) \/ Close(e.hess[i], x, e.eps, sc) THEN {}
                     ELSE {<<"row-hessian", i, RStr(e.hess[i]), RStr(o), RStr(x)>>} : i \in Idx(e)}

(***************************************************************************)
(* Links.  line: link, x (linear predictors), m (means), observed values   *)
(***************************************************************************)
LinkClauses(e) ==
  LET k == e.link
      n == Len(e.x)
      Each(name, obs, val(_), abs(_)) ==
        IF Len(obs) # n THEN {<<name, "length">>}
        ELSE UNION {IF Close(obs[i], val(i), e.eps, abs(i)) THEN {} ELSE {<<name, RStr(e.x[i]), RStr(e.m[i]), RStr(obs[i]), RStr(val(i))>>} : i \in 1..n}
  IN Each("inverse", e.inv, LAMBDA i: InvClip(k, e.x[i], e.clip), LAMBDA i: Zero)
     \cup Each("inverse_derivative", e.invd, LAMBDA i: InvD(k, e.x[i]), LAMBDA i: e.tiny)
     \cup Each("inverse_derivative2", e.invd2, LAMBDA i: InvD2(k, e.x[i]), LAMBDA i: RMax(RAbs(InvD(k, e.x[i])), e.tiny))
     \cup Each("link", e.lk, LAMBDA i: LinkFn(k, e.m[i]), LAMBDA i: IF LkNorm(k) \in {"log", "logit", "cloglog"} THEN One ELSE Zero)
     \cup Each("derivative", e.lkd, LAMBDA i: LinkD(k, e.m[i]), LAMBDA i: Zero)
     \* round trips: link(inverse(x)) = x and inverse(link(m)) = m, conditioned
     \cup Each("inverse-of-link", e.rtm, LAMBDA i: IF LkNorm(k) \in {"logit", "cloglog"} THEN RMin(RMax(e.m[i], e.clip), 1 -- e.clip) ELSE R(e.m[i]), LAMBDA i: RAbs(InvD(k, LinkFn(k, e.m[i])) ** (1 ++ RAbs(LinkFn(k, e.m[i])))))
     \cup Each("link-of-inverse", e.rtx, LAMBDA i: IF e.rtxok[i] THEN R(e.x[i]) ELSE R(e.rtx[i]), LAMBDA i: IF e.rtxok[i] THEN (1 ++ RAbs(Inv(k, e.x[i]) // InvD(k, e.x[i]))) ELSE One)
     \cup (IF LkNorm(k) \notin {"logit", "cloglog"} \/ \A i \in 1..n : RLt(0, e.inv[i]) /\ RLt(e.inv[i], 1) THEN {} ELSE {<<"mean-on-the-boundary">>})
     \* in single precision means near the ends are still inside
     \cup (IF \A i \in 1..n : e.shapeok THEN {} ELSE {<<"shape-not-kept">>})

DefaultClauses(e) ==
  LET d == DefaultLink(e.fam) IN
  IF d.name = e.got THEN {} ELSE {<<"default-link", e.got, d.name>>}

Clauses(e) ==
  IF e.kind = "raised" THEN {<<"raised", e.what>>}
  ELSE CASE e.kind = "dist" -> DistClauses(e)
    [] e.kind = "range" -> RangeClauses(e)
    [] e.kind = "kernel" -> KernelClauses(e)
    [] e.kind = "link" -> LinkClauses(e)
    [] e.kind = "default" -> DefaultClauses(e)
    [] e.kind = "reject" -> IF e.rejected THEN {} ELSE {<<"accepted", e.what>>}
=============================================================================
