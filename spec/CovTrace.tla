------------------------------- MODULE CovTrace -------------------------------
(***************************************************************************)
(* The covariance of the parameter estimates (intercept first), as the     *)
(* library documents it:                                                   *)
(*   classical : c F^-1                     c = N/(N-p)                    *)
(*   robust    : c H^-1 G'G H^-1            c = N/(N-p)                    *)
(*   clustered : c H^-1 (SG)'(SG) H^-1      c = M/(M-1) (N-1)/(N-p)        *)
(* F is the expected information, H the observed one (or the expected one  *)
(* on request), G the rows of the score, S sums rows within clusters, N    *)
(* the sum of weights, p the number of parameters, phi the Pearson         *)
(* estimate of the dispersion unless given.                                *)
(* The quantities are evaluated at the fitted parameters on the original   *)
(* predictors.                                                             *)
(*                                                                         *)
(* line: the arguments as in FitTrace, b, w the fitted parameters, and     *)
(*  mode "classical"/"robust"/"clustered", exp, dk "none"/"given", disp,   *)
(*  mk "none"/"given", muarg, grp (sequence of cluster numbers or <<>>),   *)
(*  V the observed matrix, se the observed standard errors (or <<>>),      *)
(*  tab "no" or "yes" with level, coef, tse, tt, tp, tlo, thi, rtol        *)
(***************************************************************************)
EXTENDS FitTrace

DesignRow(e, i) == IF e.fi THEN <<One>> \o e.X[i] ELSE e.X[i]

CovParts(e) ==
  LET n == Len(e.X)
      k == Dim(e) + (IF e.fi THEN 1 ELSE 0)
      Z == Force([i \in 1..n |-> DesignRow(e, i)])
      eta0 == Force([i \in 1..n |-> (RDot(e.X[i], e.w) ++ e.b) ++ e.off[i]])
      mu == IF e.mk = "given" THEN e.muarg ELSE Force([i \in 1..n |-> InvClip(e.link, eta0[i], "1.1102230246251565e-14")])
      eta == Force([i \in 1..n |-> LinkFn(e.link, mu[i])])
      v == Force([i \in 1..n |-> UnitVariance(e.fam, mu[i])])
      h1 == Force([i \in 1..n |-> InvD(e.link, eta[i])])
      sw == RSum(e.s)
      phi == IF e.dk = "given" THEN R(e.disp) ELSE Pearson(e.fam, e.y, mu, e.s) // (sw -- k)
      expw == Force([i \in 1..n |-> (e.s[i] ** (Sq(h1[i]) // v[i])) // phi])
      obsw == Force([i \in 1..n |->
                ((e.s[i] // v[i]) ** ((RNeg(InvD2(e.link, eta[i])) ** (e.y[i] -- mu[i]))
                   ++ (Sq(h1[i]) ** (1 ++ (((e.y[i] -- mu[i]) ** UnitVarianceD(e.fam, mu[i])) // v[i]))))) // phi])
      scw == Force([i \in 1..n |-> ((e.s[i] ** (h1[i] ** (e.y[i] -- mu[i]))) // v[i]) // phi])
  IN [Z |-> Z, k |-> k, n |-> n, sw |-> sw, expw |-> expw, obsw |-> obsw, scw |-> scw, phi |-> phi]

Sandwich(Z, wt, k) ==
  LET ZT == Transp(Z) IN
  Force([a \in 1..k |-> LET za == VMulE(ZT[a], wt) IN Force([b \in 1..k |-> RDot(za, ZT[b])])])

Eye(k) == Force([a \in 1..k |-> Force([b \in 1..k |-> IF a = b THEN One ELSE Zero])])
MaxAbs(A) == NormInf(Force([a \in 1..Len(A) |-> NormInf(A[a])]))

\* sums of score rows within clusters; clusters are numbered 1..M
GroupRows(P, grp) ==
  LET M == Cardinality({grp[i] : i \in 1..P.n}) IN
  Force([g \in 1..M |-> Force([a \in 1..P.k |->
       RSum(Force([i \in 1..P.n |-> IF grp[i] = g THEN P.scw[i] ** P.Z[i][a] ELSE Zero]))])])

CovSpec(e) ==
  LET P == CovParts(e)
      fw == IF e.mode = "classical" \/ e.exp THEN P.expw ELSE P.obsw
      H == Sandwich(P.Z, fw, P.k)
      Hi == RSolve(H, Eye(P.k))
      base == P.sw // (P.sw -- P.k)
  IN IF Hi = <<>> THEN [singular |-> TRUE, V |-> <<>>, cond |-> Zero, phi |-> P.phi]
     ELSE LET cond == MaxAbs(H) ** MaxAbs(Hi)
              S == Force([i \in 1..P.n |-> Sq(P.scw[i])])
              inner == IF e.mode = "robust" THEN Sandwich(P.Z, S, P.k)
                       ELSE LET Gr == GroupRows(P, e.grp) IN MatMul(Transp(Gr), Gr)
              M == Cardinality({e.grp[i] : i \in 1..Len(e.grp)})
              corr == IF e.mode = "clustered" THEN (R(M) // (M - 1)) ** ((P.sw -- 1) // (P.sw -- P.k)) ELSE base
              V == IF e.mode = "classical" THEN Hi ELSE MatMul(Hi, MatMul(inner, Hi))
          IN [singular |-> FALSE, cond |-> cond, phi |-> P.phi,
              V |-> Force([a \in 1..P.k |-> VScale(corr, V[a])])]

CovClauses(raw) ==
  LET e == Canon(raw)
      C == CovSpec(e)
      k == Len(C.V)
      \* rounding errors are amplified by the condition of the information matrix
      rt == R(e.rtol) ** C.cond
      sd == Force([a \in 1..k |-> RSqrt(RMax(C.V[a][a], 0))])
      beta == IF e.fi THEN <<e.b>> \o e.w ELSE e.w
  IN IF C.singular THEN {<<"MACHINERY-singular">>}
     ELSE IF RLt("1e-3", rt) THEN {}   \* too ill-conditioned to say anything
     ELSE (IF Len(e.V) # k \/ \E a \in 1..k : Len(e.V[a]) # k THEN {<<"covariance-shape">>}
           ELSE UNION {UNION {IF RLe(RAbs(e.V[a][b] -- C.V[a][b]), rt ** (sd[a] ** sd[b])) THEN {}
                              ELSE {<<"covariance", e.mode, a, b, RStr(e.V[a][b]), "expected", RStr(C.V[a][b])>>} : b \in 1..k} : a \in 1..k})
          \cup (IF e.se = <<>> THEN {}
                ELSE IF Len(e.se) # k THEN {<<"standard-errors-shape">>}
                ELSE UNION {IF RLe(RAbs(e.se[a] -- sd[a]), rt ** sd[a]) THEN {} ELSE {<<"standard-error", a, RStr(e.se[a]), "expected", RStr(sd[a])>>} : a \in 1..k})
          \cup (IF e.tab = "no" THEN {}
                ELSE IF Len(e.coef) # k THEN {<<"table-shape">>}
                ELSE UNION {LET t == beta[a] // sd[a]
                                tl == rt ** (1 ++ RAbs(t))
                                \* the quantile of the confidence level, through its distribution function
                                q(x) == RNormCdf((x -- e.coef[a]) // e.tse[a])
                            IN (IF REq(e.coef[a], beta[a]) THEN {} ELSE {<<"table-coef", a>>})
                               \cup (IF RLe(RAbs(e.tse[a] -- sd[a]), rt ** sd[a]) THEN {} ELSE {<<"table-se", a>>})
                               \cup (IF RLe(RAbs(e.tt[a] -- t), tl) THEN {} ELSE {<<"table-t", a, RStr(e.tt[a]), RStr(t)>>})
                               \cup (IF RLe(RAbs(e.tp[a] -- (2 ** (1 -- RNormCdf(RAbs(t))))), tl ++ R("1e-13")) THEN {} ELSE {<<"table-p", a, RStr(e.tp[a])>>})
                               \cup (IF RLe(RAbs(q(e.tlo[a]) -- ((1 -- e.level) // 2)), "1e-9") THEN {} ELSE {<<"table-ci-lower", a>>})
                               \cup (IF RLe(RAbs(q(e.thi[a]) -- ((1 ++ e.level) // 2)), "1e-9") THEN {} ELSE {<<"table-ci-upper", a>>})
                            : a \in 1..k})
=============================================================================
