----------------------------- MODULE FormulaTrace -----------------------------
(***************************************************************************)
(* A fit of a formula, and questions asked of it.                          *)
(* line: the fields of FitTrace but X, and [items, fi, drop, sep, fmt,     *)
(*   univ, data, ctx, lhs, lhstext, giveny, names, terms, asks, same].     *)
(* data, asks[k].data: a record from variables to [v] (numbers) or         *)
(*   [enc, decl, vals] (see Categorical).  ctx: the number bound to kk in  *)
(*   the context (of the fit, of the question), or <<>> if there is none;  *)
(*   depth: the scope asked for instead (-1: none), scopes[d + 1] being    *)
(*   what kk is bound to in the scope at depth d of the caller.            *)
(* same: pairs [what, a, b, rtol] of answers of the formula model and of   *)
(*   the model of the explicit design.                                     *)
(***************************************************************************)
EXTENDS FitTrace, Formula, Categorical

ContextOf(a) == IF a.depth < 0 THEN a.ctx ELSE IF a.depth < Len(a.scopes) THEN a.scopes[a.depth + 1] ELSE <<>>

\* ------------------------------------------------------------------ factors
CatFactors == {"g", "h", "s", "b", "C(k)", "C(g)"}
IsCat(f) == f \in CatFactors
Vars(f) == CASE f \in {"C(k)"} -> {"k"} [] f \in {"C(g)"} -> {"g"}
             [] f \in {"I(x ** 2)", "x * 2", "center(x)", "scale(x)", "kk * x", "myf(x)", "exp(x)"} -> {"x"}
             [] f \in {"np.log(w)", "scale(w)", "log(w)"} -> {"w"}
             [] f = "x + z" -> {"x", "z"}
             [] OTHER -> {f}
NeedsContext(f) == f \in {"kk * x", "myf(x)"}
Var1(f) == CHOOSE v \in Vars(f) : TRUE
Mean(v) == RSum(v) // Len(v)
Sd(v) == LET m == Mean(v) IN RSqrt(RSum(Force([i \in 1..Len(v) |-> Sq(v[i] -- m)])) // (Len(v) - 1))
\* the value of a numeric factor in row i of data; state is learnt from the data of the fit
NumVal(f, d, fit, ctx, i) ==
  CASE f = "I(x ** 2)" -> Sq(d.x.v[i])
    [] f = "x * 2" -> 2 ** d.x.v[i]
    [] f = "x + z" -> d.x.v[i] ++ d.z.v[i]
    [] f = "center(x)" -> d.x.v[i] -- Mean(fit.x.v)
    [] f = "scale(x)" -> (d.x.v[i] -- Mean(fit.x.v)) // Sd(fit.x.v)
    [] f = "scale(w)" -> (d.w.v[i] -- Mean(fit.w.v)) // Sd(fit.w.v)
    [] f \in {"np.log(w)", "log(w)"} -> RLn(d.w.v[i])
    [] f = "exp(x)" -> RExp(d.x.v[i])
    [] f = "kk * x" -> ctx[1] ** d.x.v[i]
    [] f = "myf(x)" -> ctx[1] ++ Sq(d.x.v[i])
    [] OTHER -> R(d[f].v[i])
CatVals(f, d) == d[Var1(f)].vals
FLevels(f, e) == Levels(e.data[Var1(f)], "formula", e.univ)

\* ------------------------------------------------------------------ columns
\* a column of term t: the factors used (in the order of t) and the levels of the categorical ones
RECURSIVE Cands(_, _)
Cands(t, e) ==   \* set of sequences of <<factor, level or "">>
  IF t = <<>> THEN {<<>>}
  ELSE LET rest == Cands(Tail(t), e) f == Head(t)
       IN IF IsCat(f) THEN rest \cup {<<<<f, v>>>> \o r : v \in Elems(FLevels(f, e)), r \in rest}
          ELSE {<<<<f, "">>>> \o r : r \in rest}
NameOf(c, e) == Join([i \in 1..Len(c) |-> IF IsCat(c[i][1]) THEN ColName(c[i][1], c[i][2], e) ELSE c[i][1]], e.sep)
FactorsOf(c) == {c[i][1] : i \in 1..Len(c)}
Value(c, d, e, ctx, i) ==
  LET P[k \in 0..Len(c)] == IF k = 0 THEN One
        ELSE P[k - 1] ** (IF IsCat(c[k][1]) THEN (IF CatVals(c[k][1], d)[i] = c[k][2] THEN One ELSE Zero) ELSE NumVal(c[k][1], d, e.data, ctx, i))
  IN P[Len(c)]

\* ------------------------------------------------------------------ structure
LevelAt(c, f) == LET k == CHOOSE k \in 1..Len(c) : c[k][1] = f IN c[k][2]
\* cs: the columns of one term; those with the factors F form a block
Block(cs, F) == {c \in cs : FactorsOf(c) = F}
Used(B, f) == {LevelAt(c, f) : c \in B}
FullIn(B, F, e) == {f \in F : IsCat(f) /\ Used(B, f) = Elems(FLevels(f, e))}
RedIn(B, F, e) == {f \in F : IsCat(f) /\ Used(B, f) = Elems(Tail(FLevels(f, e)))}
RECURSIVE SizeOf(_, _)
SizeOf(B, C) == IF C = {} THEN 1 ELSE LET f == CHOOSE f \in C : TRUE IN Cardinality(Used(B, f)) * SizeOf(B, C \ {f})
BlockOK(B, F, e) == /\ FullIn(B, F, e) \cup RedIn(B, F, e) = {f \in F : IsCat(f)}
                    /\ Cardinality(B) = SizeOf(B, {f \in F : IsCat(f)})
Covers(B, F, e) == Covered({f \in F : ~IsCat(f)}, RedIn(B, F, e), FullIn(B, F, e))

TermClauses(e, q, i, cs) ==
  LET Fs == {FactorsOf(c) : c \in cs}
      cov == [F \in Fs |-> Covers(Block(cs, F), F, e)]
  IN IF \E F \in Fs : ~BlockOK(Block(cs, F), F, e) THEN {<<"columns-of-term", Join(q[i], ":"), cs>>}
     ELSE IF ~e.drop THEN (IF Fs = {Elems(q[i])} /\ RedIn(cs, Elems(q[i]), e) = {} THEN {} ELSE {<<"columns-of-term", Join(q[i], ":"), cs>>})
     ELSE IF UNION {cov[F] : F \in Fs} = Added(q, i, IsCat) /\ \A F, G \in Fs : F # G => cov[F] \cap cov[G] = {} THEN {}
     ELSE {<<"space-of-term", Join(q[i], ":"), cs>>}

\* ------------------------------------------------------------------ questions
\* a factor that is only centred, multiplied, ... needs its variables; a level must be known
AnswersOf(e, q, a) ==
  LET fs == UNION {Elems(q[i]) : i \in 1..Len(q)}
  IN /\ \A f \in fs : Vars(f) \subseteq DOMAIN a.data
     /\ \A f \in fs : NeedsContext(f) => ContextOf(a) # <<>>
     /\ \A f \in fs : IsCat(f) => Elems(CatVals(f, a.data)) \subseteq Elems(FLevels(f, e))
AskClauses(e, q, cols, a, k) ==
  IF ~AnswersOf(e, q, a) THEN (IF a.outcome = "ok" THEN {<<"answered-without-knowing", k>>} ELSE {})
  ELSE IF a.outcome # "ok" THEN {<<"refused-to-answer", k, a.outcome>>}
  ELSE LET n == Len(a.lin)
           want == Force([i \in 1..n |-> RSum(Force([j \in 1..Len(cols) |-> e.w[j] ** Value(cols[j], a.data, e, ContextOf(a), i)])) ++ e.b])
       IN IF n # a.n THEN {<<"number-of-answers", k>>}
          ELSE UNION {IF CloseTol(a.lin[i], want[i], R(a.rtol), a.rtol) THEN {} ELSE {<<"answer", k, i, RStr(a.lin[i]), "expected", RStr(want[i])>>} : i \in 1..n}
SameClauses(p) ==
  IF Len(p.a) # Len(p.b) THEN {<<"differs-from-explicit-design", p.what, "length", Len(p.a), Len(p.b)>>}
  ELSE UNION {IF CloseTol(p.a[i], p.b[i], R(p.atol), p.rtol) THEN {} ELSE {<<"differs-from-explicit-design", p.what, i, RStr(p.a[i]), RStr(p.b[i])>>} : i \in 1..Len(p.a)}

\* ------------------------------------------------------------------ response
ResponseOK(e) == CASE e.lhs = "none" -> e.giveny [] e.lhs = "one" -> ~e.giveny [] OTHER -> FALSE
Response(e) == CASE e.lhstext = "np.log(w)" -> Force([i \in 1..Len(e.y) |-> RLn(e.data.w.v[i])])
                 [] e.lhstext = "x + z" -> Force([i \in 1..Len(e.y) |-> e.data.x.v[i] ++ e.data.z.v[i]])
                 [] e.lhstext = "kk * x" -> Force([i \in 1..Len(e.y) |-> ContextOf(e)[1] ** e.data.x.v[i]])
                 [] OTHER -> e.y

FitContext(e, q) == (\E f \in UNION {Elems(q[i]) : i \in 1..Len(q)} : NeedsContext(f)) \/ e.lhstext = "kk * x" => ContextOf(e) # <<>>
FormulaClauses(e) ==
  LET q == Proper(Terms(e.items, e.fi))
      \* the intercept takes part in what has been spanned
      full == (IF e.fi THEN Icpt ELSE <<>>) \o q
      shift == IF e.fi THEN 1 ELSE 0
  IN IF ~FormulaAccepts(e.items, e.fi) \/ ~ResponseOK(e) \/ ~FitContext(e, q)
     THEN (IF e.outcome = "ok" THEN {<<"fit-accepted", e.names>>} ELSE {})
     ELSE IF e.outcome # "ok" THEN {<<"fit-refused", e.outcome>>}
     ELSE IF Len(e.names) # Len(e.w) \/ Len(e.terms) # Len(e.w) THEN {<<"number-of-names", Len(e.names), Len(e.terms), Len(e.w)>>}
     ELSE
       LET cand == [i \in 1..Len(q) |-> Cands(q[i], e)]
           ti == [j \in 1..Len(e.terms) |-> IF \E i \in 1..Len(q) : Join(q[i], ":") = e.terms[j] THEN CHOOSE i \in 1..Len(q) : Join(q[i], ":") = e.terms[j] ELSE 0]
           found == [j \in 1..Len(e.names) |-> IF ti[j] = 0 THEN {} ELSE {c \in cand[ti[j]] : NameOf(c, e) = e.names[j]}]
       IN IF \E j \in 1..Len(e.names) : Cardinality(found[j]) # 1 THEN {<<"names", e.names, e.terms>>}
          ELSE LET cols == Force([j \in 1..Len(e.names) |-> CHOOSE c \in found[j] : TRUE])
                   of(i) == {cols[j] : j \in {j \in 1..Len(cols) : ti[j] = i}}
                   n == Len(e.y)
                   struct == UNION {TermClauses(e, full, i + shift, of(i)) : i \in 1..Len(q)}
               IN IF struct # {} THEN struct
                  ELSE IF \E j \in 2..Len(ti) : ti[j] < ti[j - 1] THEN {<<"order-of-terms", e.terms>>}
                  ELSE IF Cardinality(Elems(cols)) # Len(cols) THEN {<<"column-twice", e.names>>}
                  ELSE FitClauses([X |-> Force([i \in 1..n |-> Force([j \in 1..Len(cols) |-> Value(cols[j], e.data, e, ContextOf(e), i)])]),
                                   y |-> Response(e)] @@ e)
                       \cup UNION {AskClauses(e, q, cols, e.asks[k], k) : k \in 1..Len(e.asks)}
                       \cup UNION {SameClauses(e.same[k]) : k \in 1..Len(e.same)}
===============================================================================
