------------------------------ MODULE Families -------------------------------
(***************************************************************************)
(* Exponential dispersion models: unit variance, unit deviance, range,     *)
(* log-likelihood, dispersion estimators.  A family is a record            *)
(*   [name, p, theta]                                                      *)
(* name in {"normal","poisson","gamma","invgauss","tweedie","binomial",    *)
(* "negbin","ghs"}; p is the Tweedie power (tweedie only), theta the       *)
(* negative binomial parameter (negbin only).                              *)
(***************************************************************************)
EXTENDS RealArith

TweedieLike == {"normal", "poisson", "gamma", "invgauss", "tweedie"}
Power(f) == CASE f.name = "normal" -> R(0) [] f.name = "poisson" -> R(1)
              [] f.name = "gamma" -> R(2) [] f.name = "invgauss" -> R(3)
              [] f.name = "tweedie" -> f.p

\* y * ln(x) with 0 * ln(0) = 0
XLogY(y, x) == IF REq(y, 0) THEN Zero ELSE y ** RLn(x)

InRange(f, y) ==
  CASE f.name \in TweedieLike ->
         LET p == Power(f) IN
         IF RLe(p, 0) THEN RIsFinite(y)
         ELSE IF RLt(p, 2) THEN RLe(0, y) /\ RIsFinite(y)
         ELSE RLt(0, y) /\ RIsFinite(y)
    [] f.name = "binomial" -> RLe(0, y) /\ RLe(y, 1)
    [] f.name = "negbin" -> RLe(0, y) /\ RIsFinite(y)
    [] f.name = "ghs" -> RIsFinite(y)

UnitVariance(f, mu) ==
  CASE f.name = "normal" -> One
    [] f.name = "poisson" -> mu
    [] f.name \in TweedieLike \ {"normal", "poisson"} -> RPow(mu, Power(f))
    [] f.name = "binomial" -> mu ** (One -- mu)
    [] f.name = "negbin" -> mu ++ (f.theta ** Sq(mu))
    [] f.name = "ghs" -> One ++ Sq(mu)

UnitVarianceD(f, mu) ==
  CASE f.name = "normal" -> Zero
    [] f.name \in TweedieLike \ {"normal"} ->
         LET p == Power(f) IN IF REq(p, 0) THEN Zero ELSE p ** RPow(mu, p -- 1)
    [] f.name = "binomial" -> One -- (2 ** mu)
    [] f.name = "negbin" -> One ++ (2 ** (f.theta ** mu))
    [] f.name = "ghs" -> 2 ** mu

UnitDeviance(f, y, mu) ==
  CASE f.name \in TweedieLike ->
         LET p == Power(f) IN
         (IF REq(p, 0) THEN Sq(y -- mu)
          ELSE IF REq(p, 1) THEN 2 ** (XLogY(y, y // mu) -- (y -- mu))
          ELSE IF REq(p, 2) THEN 2 ** (RLn(mu // y) ++ ((y // mu) -- 1))
          ELSE 2 ** (((RPow(RMax(y, 0), 2 -- p) // ((1 -- p) ** (2 -- p)))
                      -- ((y ** RPow(mu, 1 -- p)) // (1 -- p)))
                     ++ (RPow(mu, 2 -- p) // (2 -- p))))
    [] f.name = "binomial" -> RNeg(2 ** (XLogY(y, mu) ++ XLogY(1 -- y, 1 -- mu)))
    [] f.name = "negbin" ->
         LET r == 1 // f.theta IN
         2 ** (XLogY(y, y // mu) -- ((y ++ r) ** RLn((y ++ r) // (mu ++ r))))
    [] f.name = "ghs" ->
         (2 ** (y ** (RAtan(y) -- RAtan(mu)))) ++ RLn((1 ++ Sq(mu)) // (1 ++ Sq(y)))

\* For the binomial family the deviance is minus twice the Bernoulli (quasi-)
\* log-likelihood; for a fractional y the saturated term, constant in mu, is left out
\* (the convention of Papke & Wooldridge 1996 the library documents).

UnitDevianceD(f, y, mu) == RNeg(2 ** ((y -- mu) // UnitVariance(f, mu)))

PI2 == R("6.283185307179586476925286766559005768394338798750")

\* the largest integer in lo..hi-1 that is at most x, otherwise lo
RECURSIVE FloorIn(_, _, _)
FloorIn(x, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF RLe(m, x) THEN FloorIn(x, m, hi) ELSE FloorIn(x, lo, m)

\* Tweedie series (Dunn & Smyth 2005): ln W(y) where f = W/y * exp(...)
\* ln W_j = j ln z - lgamma(1+j) - lgamma(-a j), z = y^-a (p-1)^a / (phi^(1-a) (2-p)), a=(2-p)/(1-p)
TweedieLogW(y, p, phi) ==
  LET a == (2 -- p) // (1 -- p)
      na == RNeg(a)
      lnz == ((na ** RLn(y)) ++ (a ** RLn(p -- 1))) -- (((1 -- a) ** RLn(phi)) ++ RLn(2 -- p))
      term(j) == (R(j) ** lnz) -- (RLGamma(R(j + 1)) ++ RLGamma(na ** R(j)))
      \* the terms are log-concave with their maximum near top and a spread of at most sqrt(top)
      top == RPow(y, 2 -- p) // ((2 -- p) ** phi)
      lo == FloorIn((top -- (9 ** RSqrt(top))) -- 30, 0, 20000)
      n == FloorIn((top ++ (9 ** RSqrt(top))) ++ 42, 0, 20000) - lo
      terms == Force([j \in 1..n |-> term(lo + j)])
      m == RMaxOf(terms)
  IN m ++ RLn(RSum(Force([j \in 1..n |-> RExp(terms[j] -- m)])))

UnitLogLik(f, y, mu, phi) ==
  CASE f.name \in TweedieLike ->
         LET p == Power(f) IN
         (IF REq(p, 0) THEN RNeg(Half ** ((Sq(y -- mu) // phi) ++ RLn(PI2 ** phi)))
          ELSE IF REq(p, 1) THEN XLogY(y, mu) -- (mu ++ RLGamma(y ++ 1))
          ELSE IF REq(p, 2) THEN
              LET k == 1 // phi IN
              (((k ** RLn(k // mu)) -- RLGamma(k)) ++ ((k -- 1) ** RLn(y))) -- (k ** (y // mu))
          ELSE IF REq(p, 3) THEN
              RNeg(Half ** (RLn(PI2 ** (phi ** RPow(y, 3))) ++ (Sq(y -- mu) // (phi ** (Sq(mu) ** y)))))
          ELSE \* 1 < p < 2
              LET kap == RPow(mu, 2 -- p) // (2 -- p)
                  th == RPow(mu, 1 -- p) // (1 -- p)
              IN IF REq(y, 0) THEN RNeg(kap // phi)
                 ELSE ((((y ** th) -- kap) // phi) -- RLn(y)) ++ TweedieLogW(y, p, phi))
    [] f.name = "binomial" -> XLogY(y, mu) ++ XLogY(1 -- y, 1 -- mu)
    [] f.name = "negbin" ->
         LET r == 1 // f.theta IN
         (((XLogY(y, f.theta ** mu) -- ((y ++ r) ** RLn(1 ++ (f.theta ** mu))))
           ++ RLGamma(y ++ r)) -- RLGamma(r)) -- RLGamma(y ++ 1)

HasLogLik(f) ==
  \/ f.name \in {"normal", "poisson", "gamma", "invgauss", "binomial", "negbin"}
  \/ f.name = "tweedie" /\ (REq(f.p, 0) \/ (RLe(1, f.p) /\ RLe(f.p, 2)) \/ REq(f.p, 3))

Deviance(f, y, mu, s) == RSum(Force([i \in 1..Len(y) |-> s[i] ** UnitDeviance(f, y[i], mu[i])]))
LogLik(f, y, mu, s, phi) == RSum(Force([i \in 1..Len(y) |-> s[i] ** UnitLogLik(f, y[i], mu[i], phi)]))
Pearson(f, y, mu, s) == RSum(Force([i \in 1..Len(y) |-> s[i] ** (Sq(y[i] -- mu[i]) // UnitVariance(f, mu[i]))]))
=============================================================================
