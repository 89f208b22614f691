------------------------------- MODULE Formula --------------------------------
(***************************************************************************)
(* The algebra of formulas.  A term is a sequence of distinct factors (as  *)
(* a set it identifies the term, the order of writing gives its name), the *)
(* empty term is the intercept.  A formula is a list of signed items       *)
(* [sign, e], read from the left; e is                                     *)
(*   [op "v", f]  a factor        [op "1"], [op "0"]  intercept on, off    *)
(*   [op, l, r]   op in "+", ":", "*", "/"     [op "^2", l]  (l)**2        *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets

Elems(q) == {q[i] : i \in 1..Len(q)}
Same(a, b) == Elems(a) = Elems(b)
Has(q, t) == \E i \in 1..Len(q) : Same(q[i], t)
RECURSIVE Union2(_, _), ProdRow(_, _), Prod(_, _), Join(_, _), AllFactors(_), Expand(_), Read(_, _)
Union2(p, q) == IF q = <<>> THEN p ELSE Union2(IF Has(p, Head(q)) THEN p ELSE Append(p, Head(q)), Tail(q))
Minus(p, q) == SelectSeq(p, LAMBDA t : ~Has(q, t))
Times(a, b) == a \o SelectSeq(b, LAMBDA f : f \notin Elems(a))
ProdRow(t, q) == IF q = <<>> THEN <<>> ELSE <<Times(t, Head(q))>> \o ProdRow(t, Tail(q))
Prod(p, q) == IF p = <<>> THEN <<>> ELSE Union2(Union2(<<>>, ProdRow(Head(p), q)), Prod(Tail(p), q))
AllFactors(p) == IF p = <<>> THEN <<>> ELSE Times(Head(p), AllFactors(Tail(p)))

Expand(e) ==
  CASE e.op = "v" -> <<<<e.f>>>>
    [] e.op = "1" -> <<<<>>>>
    [] e.op = "+" -> Union2(Expand(e.l), Expand(e.r))
    [] e.op = ":" -> Prod(Expand(e.l), Expand(e.r))
    [] e.op = "*" -> LET l == Expand(e.l) r == Expand(e.r) IN Union2(Union2(l, r), Prod(l, r))
    [] e.op = "/" -> LET l == Expand(e.l) IN Union2(l, Prod(<<AllFactors(l)>>, Expand(e.r)))
    [] e.op = "^2" -> LET l == Expand(e.l) IN Prod(l, l)

Icpt == <<<<>>>>
Read(q, items) ==
  IF items = <<>> THEN q
  ELSE LET it == Head(items)
           off == it.e.op = "0"
           t == IF off THEN Icpt ELSE Expand(it.e)
           plus == (it.sign = "+") # off     \* + 0 takes the intercept away, - 0 restores it
       IN Read(IF plus THEN Union2(q, t) ELSE Minus(q, t), Tail(items))

Degree(q, d) == SelectSeq(q, LAMBDA t : Len(t) = d)
\* the terms of a formula in the order of the design
Terms(items, fi) == LET q == Read(IF fi THEN Icpt ELSE <<>>, items)
                    IN Degree(q, 0) \o Degree(q, 1) \o Degree(q, 2) \o Degree(q, 3) \o Degree(q, 4)
HasIntercept(q) == Has(q, <<>>)
Proper(q) == SelectSeq(q, LAMBDA t : t # <<>>)
FormulaAccepts(items, fi) == HasIntercept(Terms(items, fi)) = fi /\ Proper(Terms(items, fi)) # <<>>

(***************************************************************************)
(* Without dropping, a term has a column for every combination of levels   *)
(* of its categorical factors.  With dropping, the design has full rank    *)
(* and spans the same space.  The space of a term is the direct sum over   *)
(* the subsets S of its categorical factors of the products of its numeric *)
(* factors with the contrasts of S; a term adds the pieces that no earlier *)
(* term has.                                                               *)
(***************************************************************************)
Nums(t, IsCat(_)) == {f \in Elems(t) : ~IsCat(f)}
Cats(t, IsCat(_)) == {f \in Elems(t) : IsCat(f)}
Pieces(t, IsCat(_)) == {Nums(t, IsCat) \cup S : S \in SUBSET Cats(t, IsCat)}
Added(q, i, IsCat(_)) == Pieces(q[i], IsCat) \ UNION {Pieces(q[j], IsCat) : j \in 1..(i - 1)}
\* columns in which the factors Red use all levels but the first and the factors Full use all
Covered(Fixed, Red, Full) == {(Fixed \cup Red) \cup S : S \in SUBSET Full}

Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
===============================================================================
