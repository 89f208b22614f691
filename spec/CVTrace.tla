------------------------------- MODULE CVTrace --------------------------------
(***************************************************************************)
(* Cross-validation.  One call of fit gives these lines:                   *)
(*  "path" (PathTrace): the path found on the training part of a fold for  *)
(*     one l1_ratio, as a problem of its own on that part; and the path    *)
(*     that predictions by alpha use, as a problem on all data             *)
(*  "dev" : the stored deviances of a fold: X, y, s, off are the held-out  *)
(*     (or training) part, bs, ws the path, dev its deviances              *)
(*  "select": tab[fold][l1][alpha], alphas[l1][alpha], l1s, gl, ga         *)
(*  "final": FitTrace with alpha and l1 the selected pair                  *)
(*  "grid", "ask": as in PathTrace                                         *)
(*  "same": a, b, rtol: two runs that must agree                           *)
(***************************************************************************)
EXTENDS PathTrace

MeanDeviance(e, b, w) ==
  LET n == Len(e.X)
      mu == Force([i \in 1..n |-> InvClip(e.link, (RDot(e.X[i], w) ++ b) ++ e.off[i], "1.1102230246251565e-14")])
      S == RSum(e.s)
  IN [d |-> Deviance(e.fam, e.y, mu, e.s) // S,
      big |-> RSum(Force([i \in 1..n |-> (e.s[i] // S) ** (1 ++ (RAbs(UnitDeviance(e.fam, e.y[i], mu[i])) ++
                (RAbs(e.y[i] -- mu[i]) ** (RAbs(InvD(e.link, LinkFn(e.link, mu[i]))) // UnitVariance(e.fam, mu[i])))))])),
      ok |-> \A i \in 1..n : RIsFinite(mu[i])]

DevClauses(e) ==
  IF Len(e.dev) # Len(e.ws) THEN {<<"number-of-deviances", Len(e.dev)>>}
  ELSE UNION {LET z == MeanDeviance(e, e.bs[k], e.ws[k]) IN
    IF ~z.ok \/ RLt("1e200", z.d) \/ RLe(RAbs(e.dev[k] -- z.d), R("1e-10") ** (z.big ++ z.d)) THEN {} ELSE {<<"deviance", k, RStr(e.dev[k]), "expected", RStr(z.d)>>} : k \in 1..Len(e.ws)}

SelectClauses(e) ==
  LET F == Len(e.tab)
      avg(i, k) == RSum(Force([f \in 1..F |-> e.tab[f][i][k]])) // F
      pairs == {<<i, k>> : i \in 1..Len(e.l1s), k \in 1..Len(e.alphas[1])}
      sel == {q \in pairs : REq(e.l1s[q[1]], e.gl) /\ REq(e.alphas[q[1]][q[2]], e.ga)}
  IN IF sel = {} THEN {<<"selected-pair-not-on-grid", RStr(e.gl), RStr(e.ga)>>}
     ELSE IF \E q \in sel : \A r \in pairs : RLe(avg(q[1], q[2]), avg(r[1], r[2]) ++ (R("1e-12") ** RAbs(avg(r[1], r[2])))) THEN {}
     ELSE {<<"not-the-minimiser", RStr(e.gl), RStr(e.ga)>>}

SameClauses(e) ==
  IF Len(e.a) # Len(e.b) THEN {<<"length", e.what>>}
  ELSE LET m == RMaxOf(Force([i \in 1..Len(e.a) |-> RMax(RAbs(e.a[i]), RAbs(e.b[i]))])) IN
  UNION {IF RLe(RAbs(e.a[i] -- e.b[i]), R(e.rtol) ** m) THEN {} ELSE {<<"differs", e.what, i, RStr(e.a[i]), RStr(e.b[i])>>} : i \in 1..Len(e.a)}

CVClauses(raw) ==
  CASE raw.kind \in {"path", "grid", "ask"} -> SearchClauses(raw)
    [] raw.kind = "dev" -> DevClauses(Canon(raw))
    [] raw.kind = "select" -> SelectClauses(raw)
    [] raw.kind = "final" -> FitClauses(raw)
    [] raw.kind = "same" -> SameClauses(raw)
=============================================================================
