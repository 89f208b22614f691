-------------------------------- MODULE Links --------------------------------
(* Link functions g, their inverses h and derivatives.  A link is a record  *)
(* [name, p]; name in {"identity","log","logit","cloglog","tweedie"}.       *)
EXTENDS RealArith

LkNorm(k) == IF k.name # "tweedie" THEN k.name
             ELSE IF REq(k.p, 0) THEN "identity" ELSE IF REq(k.p, 1) THEN "log" ELSE "tweedie"

LinkFn(k, mu) ==
  CASE LkNorm(k) = "identity" -> mu
    [] LkNorm(k) = "log" -> RLn(mu)
    [] LkNorm(k) = "logit" -> RLn(mu // (1 -- mu))
    [] LkNorm(k) = "cloglog" -> RLn(RNeg(RLn(1 -- mu)))
    [] LkNorm(k) = "tweedie" -> RPow(mu, 1 -- k.p)

LinkD(k, mu) ==
  CASE LkNorm(k) = "identity" -> One
    [] LkNorm(k) = "log" -> 1 // mu
    [] LkNorm(k) = "logit" -> 1 // (mu ** (1 -- mu))
    [] LkNorm(k) = "cloglog" -> 1 // ((mu -- 1) ** RLn(1 -- mu))
    [] LkNorm(k) = "tweedie" -> (1 -- k.p) ** RPow(mu, RNeg(k.p))

Inv(k, eta) ==
  CASE LkNorm(k) = "identity" -> R(eta)
    [] LkNorm(k) = "log" -> RExp(eta)
    [] LkNorm(k) = "logit" -> 1 // (1 ++ RExp(RNeg(eta)))
    [] LkNorm(k) = "cloglog" -> 1 -- RExp(RNeg(RExp(eta)))
    [] LkNorm(k) = "tweedie" -> RPow(eta, 1 // (1 -- k.p))

InvD(k, eta) ==
  CASE LkNorm(k) = "identity" -> One
    [] LkNorm(k) = "log" -> RExp(eta)
    [] LkNorm(k) = "logit" -> LET m == 1 // (1 ++ RExp(RNeg(eta))) IN m ** (1 -- m)
    [] LkNorm(k) = "cloglog" -> RExp(eta -- RExp(eta))
    [] LkNorm(k) = "tweedie" -> RPow(eta, k.p // (1 -- k.p)) // (1 -- k.p)

InvD2(k, eta) ==
  CASE LkNorm(k) = "identity" -> Zero
    [] LkNorm(k) = "log" -> RExp(eta)
    [] LkNorm(k) = "logit" -> LET m == 1 // (1 ++ RExp(RNeg(eta))) IN (m ** (1 -- m)) ** (1 -- (2 ** m))
    [] LkNorm(k) = "cloglog" -> RExp(eta -- RExp(eta)) ** (1 -- RExp(eta))
    [] LkNorm(k) = "tweedie" ->
         RPow(eta, ((2 ** k.p) -- 1) // (1 -- k.p)) ** (k.p // Sq(1 -- k.p))

\* probabilities are clipped to [50 eps, 1 - 50 eps]; clip is that bound (0 for no clipping)
InvClip(k, eta, clip) ==
  IF LkNorm(k) \in {"logit", "cloglog"}
    THEN RMin(RMax(Inv(k, eta), clip), 1 -- clip) ELSE Inv(k, eta)

DefaultLink(f) ==
  CASE f.name = "normal" -> [name |-> "identity", p |-> Zero]
    [] f.name = "ghs" -> [name |-> "identity", p |-> Zero]
    [] f.name = "binomial" -> [name |-> "logit", p |-> Zero]
    [] f.name = "tweedie" -> [name |-> IF RLe(f.p, 0) THEN "identity" ELSE "log", p |-> Zero]
    [] OTHER -> [name |-> "log", p |-> Zero]
=============================================================================
