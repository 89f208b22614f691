------------------------------ MODULE MovesTrace -----------------------------
(***************************************************************************)
(* Validates one move of a chain of problem transformations carried out on *)
(* the real library.  line: [op, args, a (call before), z (call after)],   *)
(* both calls as in FitTrace.  The clauses: the second problem is the      *)
(* transformed first problem, and the second solution is the moved first   *)
(* solution.                                                               *)
(***************************************************************************)
EXTENDS FitTrace

\* the semantic content of a call: what a solver has to solve
Sem(raw) ==
  LET e == Canon(raw) IN
  [X |-> e.X, y |-> e.y, s |-> e.s, off |-> e.off, fi |-> e.fi, scale |-> e.scale,
   l1 |-> VScale(e.alpha ** e.l1, P1Vec(e)),
   l2 |-> Force([i \in 1..Dim(e) |-> VScale(e.alpha ** (1 -- e.l1), P2Mat(e)[i])]),
   lb |-> e.lb, ub |-> e.ub, fam |-> e.fam, link |-> e.link]

Same(x, y) == CloseTol(x, y, "1e-13", "1e-10")
SameV(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Same(x[i], y[i])
SameM(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameV(x[i], y[i])
SameSem(p, q) ==
  (IF SameM(p.X, q.X) THEN {} ELSE {"X"}) \cup (IF SameV(p.y, q.y) THEN {} ELSE {"y"})
  \cup (IF SameV(p.s, q.s) THEN {} ELSE {"weights"}) \cup (IF SameV(p.off, q.off) THEN {} ELSE {"offset"})
  \cup (IF SameV(p.l1, q.l1) THEN {} ELSE {"l1"}) \cup (IF SameM(p.l2, q.l2) THEN {} ELSE {"l2"})
  \cup (IF SameV(p.lb, q.lb) /\ SameV(p.ub, q.ub) THEN {} ELSE {"bounds"})
  \cup (IF p.fi = q.fi /\ p.scale = q.scale THEN {} ELSE {"flags"})

\* ------------------------------------------------------------ operations on data
SetCol(X, j, F(_)) == Force([i \in 1..Len(X) |-> Force([k \in 1..Len(X[i]) |-> IF k = j THEN F(X[i][k]) ELSE X[i][k]])])
SetEl(v, j, x) == Force([k \in 1..Len(v) |-> IF k = j THEN x ELSE v[k]])
MulRC(M, j, c) == Force([a \in 1..Len(M) |-> Force([b \in 1..Len(M) |->
                     (M[a][b] ** (IF a = j THEN c ELSE One)) ** (IF b = j THEN c ELSE One)])])
Pick(v, ix) == Force([k \in 1..Len(ix) |-> v[ix[k]]])
Rows(p, ix) == [p EXCEPT !.X = Pick(p.X, ix), !.y = Pick(p.y, ix), !.s = Pick(p.s, ix), !.off = Pick(p.off, ix)]
ColsOf(X, ix) == Force([i \in 1..Len(X) |-> Pick(X[i], ix)])
Neg(b) == RNeg(b)
SdOf(p) == Force([j \in 1..Len(p.X[1]) |-> LET d == ColStd(p.X, p.s, j) IN IF RLt(d, "1.49e-7") THEN One ELSE d])

\* the transformed problem; the moves not listed leave the problem as it is
Moved(op, g, p) ==
  CASE op = "ScaleCol" ->
         LET q == [p EXCEPT !.X = SetCol(p.X, g.j, LAMBDA x: x ** g.c),
                            !.lb = SetEl(p.lb, g.j, p.lb[g.j] // g.c),
                            !.ub = SetEl(p.ub, g.j, p.ub[g.j] // g.c)]
         IN IF p.scale THEN q
            ELSE [q EXCEPT !.l1 = SetEl(p.l1, g.j, p.l1[g.j] ** g.c), !.l2 = MulRC(p.l2, g.j, g.c)]
    [] op = "ReflectCol" ->
         [p EXCEPT !.X = SetCol(p.X, g.j, LAMBDA x: RNeg(x)), !.lb = SetEl(p.lb, g.j, RNeg(p.ub[g.j])),
                   !.ub = SetEl(p.ub, g.j, RNeg(p.lb[g.j])), !.l2 = MulRC(p.l2, g.j, R(-1))]
    [] op = "ShiftCol" -> [p EXCEPT !.X = SetCol(p.X, g.j, LAMBDA x: x ++ g.c)]
    [] op = "PermuteCols" ->
         [p EXCEPT !.X = ColsOf(p.X, g.ix), !.l1 = Pick(p.l1, g.ix), !.lb = Pick(p.lb, g.ix), !.ub = Pick(p.ub, g.ix),
                   !.l2 = Force([a \in 1..Len(g.ix) |-> Pick(p.l2[g.ix[a]], g.ix)])]
    [] op = "AddConstCol" ->
         LET d == Len(p.l1) IN
         [p EXCEPT !.X = Force([i \in 1..Len(p.X) |-> Append(p.X[i], g.c)]),
                   !.l1 = Append(p.l1, g.l1), !.lb = Append(p.lb, NInf), !.ub = Append(p.ub, PInf),
                   !.l2 = Force([a \in 1..(d + 1) |-> Force([b \in 1..(d + 1) |->
                            IF a <= d /\ b <= d THEN p.l2[a][b] ELSE IF a = d + 1 /\ b = d + 1 THEN R(g.l2) ELSE Zero])])]
    [] op = "ExplicitScale" ->
         LET sd == SdOf(p) IN
         [p EXCEPT !.scale = FALSE,
                   !.X = Force([i \in 1..Len(p.X) |-> Force([j \in 1..Len(sd) |-> p.X[i][j] // sd[j]])]),
                   !.lb = VMulE(p.lb, sd), !.ub = VMulE(p.ub, sd)]
    [] op = "NoWeights" -> [p EXCEPT !.s = Force([i \in 1..Len(p.s) |-> One])]
    [] op = "ScaleWeights" -> [p EXCEPT !.s = VScale(g.c, p.s)]
    [] op \in {"SplitRows", "DropZeroRows", "PermuteRows"} -> Rows(p, g.ix)
    [] op = "SplitOneRow" ->
         LET q == Rows(p, g.ix) IN  \* the last row is a copy of row g.i; their weights add up
         [q EXCEPT !.s = SetEl(SetEl(q.s, g.i, g.part), Len(q.s), p.s[g.i] -- g.part)]
    [] op = "AddZeroRows" ->
         [p EXCEPT !.X = p.X \o g.X, !.y = p.y \o g.y, !.off = p.off \o g.off,
                   !.s = p.s \o Force([i \in 1..Len(g.y) |-> Zero])]
    [] op = "ConstOffset" -> [p EXCEPT !.off = Force([i \in 1..Len(p.off) |-> p.off[i] ++ g.c])]
    [] op = "OffsetXv" ->
         [p EXCEPT !.off = Force([i \in 1..Len(p.off) |-> p.off[i] ++ RDot(p.X[i], g.v)]),
                   !.lb = VSub(p.lb, g.v), !.ub = VSub(p.ub, g.v)]
    \* deviance and penalty change by the same factor
    [] op = "ScaleResponse" /\ p.link.name = "identity" ->
         [p EXCEPT !.y = VScale(g.c, p.y), !.off = VScale(g.c, p.off), !.l1 = VScale(g.c, p.l1),
                   !.lb = VScale(g.c, p.lb), !.ub = VScale(g.c, p.ub)]
    [] op = "ScaleResponse" ->
         LET k == RPow(g.c, 2 -- Power(p.fam)) IN
         [p EXCEPT !.y = VScale(g.c, p.y), !.l1 = VScale(k, p.l1), !.l2 = Force([a \in 1..Len(p.l2) |-> VScale(k, p.l2[a])])]
    [] op = "ReflectResponse" ->
         [p EXCEPT !.y = IF p.link.name = "identity" THEN VScale(R(-1), p.y) ELSE Force([i \in 1..Len(p.y) |-> 1 -- p.y[i]]),
                   !.off = VScale(R(-1), p.off), !.lb = VScale(R(-1), p.ub), !.ub = VScale(R(-1), p.lb)]
    [] OTHER -> p

\* how often i occurs in ix
Cardinal(ix, i) == LET RECURSIVE c(_)
                       c(k) == IF k = 0 THEN 0 ELSE (IF ix[k] = i THEN 1 ELSE 0) + c(k - 1)
                   IN c(Len(ix))

\* rows of weight zero may hold anything valid, and after SplitRows the weights are one
DataClauses(op, g, p, q) ==
  LET m == Moved(op, g, p) IN
  CASE op = "GarbageZeroRows" ->
         (SameSem(m, q) \ {"X", "y", "offset"})
         \cup UNION {IF REq(p.s[i], 0) \/ (SameV(p.X[i], q.X[i]) /\ Same(p.y[i], q.y[i]) /\ Same(p.off[i], q.off[i]))
                     THEN {} ELSE {<<"row", i>>} : i \in 1..Len(p.y)}
    [] op = "SplitRows" ->
         (SameSem(m, q) \ {"weights"})
         \cup (IF /\ \A i \in 1..Len(q.s) : REq(q.s[i], 1)
                  /\ \A i \in 1..Len(p.s) : REq(p.s[i], Cardinal(g.ix, i)) THEN {} ELSE {"copies"})
    [] op = "DropZeroRows" ->
         SameSem(m, q) \cup (IF \A i \in 1..Len(p.s) : (Cardinal(g.ix, i) = 1 /\ ~REq(p.s[i], 0))
                                                        \/ (Cardinal(g.ix, i) = 0 /\ REq(p.s[i], 0)) THEN {} ELSE {"rows"})
    [] op \in {"PermuteRows", "PermuteCols"} ->
         SameSem(m, q) \cup (IF \A i \in 1..Len(g.ix) : Cardinal(g.ix, i) = 1 THEN {} ELSE {"permutation"})
    [] op = "Single" -> {}
    [] OTHER -> SameSem(m, q)

\* the solution of the transformed problem
MovedSol(op, g, p, b, w) ==
  CASE op = "ScaleCol" -> [b |-> b, w |-> SetEl(w, g.j, w[g.j] // g.c)]
    [] op = "ReflectCol" -> [b |-> b, w |-> SetEl(w, g.j, RNeg(w[g.j]))]
    [] op = "ShiftCol" -> [b |-> b -- (w[g.j] ** g.c), w |-> w]
    [] op = "PermuteCols" -> [b |-> b, w |-> Pick(w, g.ix)]
    [] op = "AddConstCol" -> [b |-> b, w |-> Append(w, Zero)]
    [] op = "ExplicitScale" -> [b |-> b, w |-> VMulE(w, SdOf(p))]
    [] op = "ConstOffset" -> [b |-> b -- g.c, w |-> w]
    [] op = "OffsetXv" -> [b |-> b, w |-> VSub(w, g.v)]
    [] op = "ScaleResponse" /\ p.link.name = "log" -> [b |-> b ++ RLn(g.c), w |-> w]
    [] op = "ReflectResponse" -> [b |-> RNeg(b), w |-> VScale(R(-1), w)]
    [] OTHER -> [b |-> b, w |-> w]

\* coefficients are compared in units of the linear predictor
SolClauses(q, want, e, rtol) ==
  LET d == Len(want.w)
      sz == Force([j \in 1..d |-> RMaxOf(Force([i \in 1..Len(q.X) |-> RAbs(q.X[i][j])]))])
      sd == Force([j \in 1..d |-> LET x == ColStd(q.X, q.s, j) IN IF RLt(x, "1e-9") THEN One ELSE x])
      top == RMaxOf(Force([j \in 1..d |-> RAbs(want.w[j]) ** sd[j]]))
      tol == R(rtol) ** (1 ++ top)
      itol == R(rtol) ** ((1 ++ RAbs(want.b)) ++ (RSum(Force([j \in 1..d |-> RMax(sz[j] // sd[j], 1)])) ** (1 ++ top)))
  IN IF Len(e.w) # d THEN {<<"number-of-coefficients">>}
     ELSE UNION {IF RLe(RAbs(e.w[j] -- want.w[j]) ** sd[j], tol) THEN {}
                 ELSE {<<"coefficient", j, RStr(e.w[j]), "expected", RStr(want.w[j])>>} : j \in 1..d}
          \cup (IF RLe(RAbs(e.b -- want.b), itol) THEN {} ELSE {<<"intercept", RStr(e.b), "expected", RStr(want.b)>>})

\* quantities that do not move: score, total deviance per unit weight
StatClauses(op, t) ==
  IF "score" \notin DOMAIN t.a \/ "score" \notin DOMAIN t.z \/ op \in {"Single"} THEN {}
  ELSE IF CloseTol(t.a.score, t.z.score, R("1e-6") ** R(t.stol), 0) THEN {} ELSE {<<"score", RStr(t.a.score), RStr(t.z.score)>>}
\* standard errors (expected information) of the coefficients
SeOps == {"ScaleCol", "ReflectCol", "PermuteCols", "SplitRows", "PermuteRows", "OnesWeights", "DropZeroRows",
          "AddZeroRows", "GarbageZeroRows", "ZeroOffset", "NoOffset", "SpreadOffset", "ConstOffset", "OffsetXv", "ShiftCol", "SplitOneRow",
          "Container", "StartAt", "Solver", "WarmStart", "HessApprox", "RandomSelection", "StartAtSolution", "ScaleResponse", "ReflectResponse"}
SeClauses(op, g, t) ==
  IF "se" \notin DOMAIN t.a \/ "se" \notin DOMAIN t.z \/ op \notin SeOps THEN {}
  ELSE LET want == CASE op = "ScaleCol" -> SetEl(t.a.se, g.j, t.a.se[g.j] // RAbs(g.c))
                     [] op = "PermuteCols" -> Pick(t.a.se, g.ix)
                     [] op = "ScaleResponse" /\ t.a.link.name = "identity" -> VScale(g.c, t.a.se)
                     [] OTHER -> t.a.se
       IN IF \A j \in 1..Len(want) : CloseTol(want[j], t.z.se[j], R("1e-12") ** RAbs(want[j]), "1e-4") THEN {} ELSE {<<"standard-errors">>}

\* the reported weighted means and standard deviations of the columns
ColumnClauses(t, q, rtol) ==
  IF "cm" \notin DOMAIN t.z \/ ~q.fi THEN {}
  ELSE LET d == Len(q.X[1]) IN
       IF Len(t.z.cm) # d \/ Len(t.z.cs) # d THEN {<<"column-statistics-shape">>}
       ELSE UNION {LET m == ColMean(q.X, q.s, j)
                       sd == ColStd(q.X, q.s, j)
                       at == R(rtol) ** (RAbs(m) ++ sd) IN
                   (IF RLe(RAbs(t.z.cm[j] -- m), at) THEN {} ELSE {<<"reported-mean", j>>})
                   \cup (IF RLe(RAbs(Sq(t.z.cs[j]) -- Sq(sd)), R(rtol) ** (Sq(m) ++ Sq(sd))) /\ RLe(0, t.z.cs[j]) THEN {} ELSE {<<"reported-std", j>>}) : j \in 1..d}

MoveClauses(t) ==
  IF t.a.outcome # "ok" \/ t.z.outcome # "ok" THEN {<<"fit-failed", t.a.outcome, t.z.outcome>>}
  ELSE LET p == Sem(t.a)
           q == Sem(t.z)
           bad == DataClauses(t.op, t.args, p, q)
       IN IF bad # {} THEN {<<"MACHINERY", t.op, bad>>}
          ELSE IF ~(t.a.conv /\ t.z.conv) THEN {}
          ELSE (IF t.op = "ScaleResponse" /\ p.link.name = "identity"  \* compared in units of the response
                THEN SolClauses(q, [b |-> t.a.b, w |-> t.a.w], [b |-> t.z.b // t.args.c, w |-> VScale(1 // t.args.c, t.z.w)], t.rtol)
                ELSE SolClauses(q, MovedSol(t.op, t.args, p, t.a.b, t.a.w), t.z, t.rtol))
               \cup ColumnClauses(t, q, t.ctol) \cup StatClauses(t.op, t) \cup SeClauses(t.op, t.args, t)
=============================================================================
