------------------------------ MODULE PathTrace -------------------------------
(***************************************************************************)
(* Regularization paths.                                                   *)
(* line: arguments as in FitTrace; kind                                    *)
(*  "path": alphas, bs, ws: the path, b, w: the final parameters, conv, outcome       *)
(*  "grid": alphas: the automatic path; nal: requested length, mk in       *)
(*     {"default","ratio","min"} with mv the requested value, exact: the   *)
(*     null model has a closed form and every coefficient is penalised, gtol *)
(*  "ask" : X (rows asked), off, link, bs, ws (the path), want: positions, *)
(*     seq: BOOLEAN, lin, mu: the answers (rows of columns, or one column) *)
(***************************************************************************)
EXTENDS FitTrace

PointClauses(e, k) ==
  LET a == e.alphas[k]
      b == e.bs[k]
      w == e.ws[k]
  IN {<<"alpha", k>> \o c : c \in
      (IF ~ShapeOK(e, w) THEN {<<"wrong-number-of-coefficients">>}
       ELSE IF ~FiniteOK(b, w) THEN (IF e.conv THEN {<<"non-finite-estimate">>} ELSE {})
       ELSE (IF ~e.fi /\ ~REq(b, 0) THEN {<<"intercept-not-zero">>} ELSE {})
            \cup FeasibleClauses(e, w)
            \cup (IF e.conv /\ ~Saturated(e, b, w) THEN OptClauses(e, a, b, w) ELSE {}))}

PathClauses(e) ==
  IF e.outcome # "ok" THEN {<<"fit-failed", e.outcome>>}
  ELSE LET K == Len(e.alphas) IN
    IF Len(e.bs) # K \/ Len(e.ws) # K THEN {<<"length-of-path", Len(e.ws), "expected", K>>}
    ELSE UNION {PointClauses(e, k) : k \in 1..K}
         \cup (IF REq(e.b, e.bs[K]) /\ \A j \in 1..Len(e.w) : REq(e.w[j], e.ws[K][j]) THEN {} ELSE {<<"final-is-not-the-last">>})

\* the null model: an offset and (with an intercept) its closed form
NullEta(e) ==
  LET n == Len(e.X)
      yb == RDot(e.s, e.y) // RSum(e.s)
      lk == LkNorm(e.link)
      \* Tweedie with log link: sum s m^(1-p) (y - m e^b) = 0 with m = exp(off)
      p == CASE e.fam.name = "normal" -> Zero [] e.fam.name = "gamma" -> R(2) [] e.fam.name = "invgauss" -> R(3)
             [] e.fam.name = "tweedie" -> e.fam.p [] OTHER -> One
      pw(o, q) == RExp(q ** o)
  IN IF ~e.fi THEN e.off
     ELSE LET b == CASE lk = "identity" -> yb -- (RDot(e.s, e.off) // RSum(e.s))
                     [] lk = "log" -> RLn(RSum(Force([i \in 1..n |-> e.s[i] ** (e.y[i] ** pw(e.off[i], 1 -- p))])))
                                        -- RLn(RSum(Force([i \in 1..n |-> e.s[i] ** pw(e.off[i], 2 -- p)])))
                     [] OTHER -> LinkFn(e.link, yb)
          IN Force([i \in 1..n |-> b ++ e.off[i]])

AlphaMax(e) ==
  LET P == Problem(e, One)
      g == Grad(P, RowScore(P, NullEta(e)), Force([j \in 1..Dim(e) |-> Zero]))
      q == Force([j \in 1..Dim(e) |-> RAbs(g[j]) // P.l1pen[j]])
  IN RMaxOf(q)

GridClauses(e) ==
  LET K == Len(e.alphas)
      a == e.alphas
      ratio == CASE e.mk = "ratio" -> R(e.mv)
                 [] e.mk = "min" -> e.mv // a[1]
                 [] e.mk = "default" -> IF Len(e.X) >= Dim(e) THEN R("1e-6") ELSE R("1e-2")
      want(k) == a[1] ** RPow(ratio, R(k - 1) // (K - 1))
  IN (IF K # e.nal THEN {<<"length-of-grid", K, "expected", e.nal>>} ELSE {})
     \cup UNION {IF RLt(0, a[k]) /\ (k = 1 \/ RLt(a[k], a[k - 1])) THEN {} ELSE {<<"not-decreasing", k>>} : k \in 1..K}
     \cup (IF K < 2 THEN {} ELSE UNION {IF RLe(RAbs(a[k] -- want(k)), R(e.gtol) ** want(k)) THEN {} ELSE {<<"grid", k, RStr(a[k]), "expected", RStr(want(k))>>} : k \in 2..K})
     \cup (IF e.exact /\ ~RLe(RAbs(a[1] -- AlphaMax(e)), R("1e-7") ** AlphaMax(e)) THEN {<<"first-alpha", RStr(a[1]), "expected", RStr(AlphaMax(e))>>} ELSE {})

AskClauses(e) ==
  LET n == Len(e.X)
      C == Len(e.want)
      off == Spread(e.ok, e.off, n, Zero)
      eta(i, c) == (RDot(e.X[i], e.ws[e.want[c]]) ++ e.bs[e.want[c]]) ++ off[i]
      lin(i, c) == IF e.seq THEN e.lin[i][c] ELSE e.lin[i]
      mu(i, c) == IF e.seq THEN e.mu[i][c] ELSE e.mu[i]
      tol(i, c) == R("1e-11") ** (1 ++ (RSum(Force([j \in 1..Len(e.X[i]) |-> RAbs(e.X[i][j] ** e.ws[e.want[c]][j])])) ++ (RAbs(e.bs[e.want[c]]) ++ RAbs(off[i]))))
  IN IF Len(e.lin) # n \/ Len(e.mu) # n \/ (e.seq /\ \E i \in 1..n : Len(e.lin[i]) # C \/ Len(e.mu[i]) # C) THEN {<<"shape-of-answer">>}
     ELSE UNION {LET x == eta(i, c)  t == tol(i, c)  m == InvClip(e.link, x, "1.1102230246251565e-14") IN
            (IF RLe(RAbs(lin(i, c) -- x), t) THEN {} ELSE {<<"linear-predictor", i, c, RStr(lin(i, c)), "expected", RStr(x)>>})
            \cup (IF RLe(RAbs(mu(i, c) -- m), (R("1e-11") ** (1 ++ RAbs(m))) ++ (2 ** (t ** RAbs(InvD(e.link, x))))) THEN {}
                  ELSE {<<"prediction", i, c, RStr(mu(i, c)), "expected", RStr(m)>>}) : i \in 1..n, c \in 1..C}

SearchClauses(raw) ==
  CASE raw.kind = "path" -> PathClauses(Canon(raw))
    [] raw.kind = "grid" -> GridClauses(Canon(raw))
    [] raw.kind = "ask" -> AskClauses(raw)
=============================================================================
