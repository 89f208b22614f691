------------------------------ MODULE RealArith ------------------------------
(***************************************************************************)
(* Real numbers for TLC.  A real is an opaque value, a decimal of 40       *)
(* significant digits (or +-infinity / NaN); the operators below whose     *)
(* body is `CHOOSE' are evaluated by verif/java/glm/RealOverrides.java.    *)
(* Every operator accepts a real, an integer, or a string numeral.  The    *)
(* operators are exact up to 1e-38 relative error, which is 20 orders of   *)
(* magnitude below the tolerances of the specifications that use them, so  *)
(* a double recorded from the implementation (shortest round-trip decimal) *)
(* is represented exactly for all purposes.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

AnyR == CHOOSE x : TRUE

R(a)          == AnyR        \* the real denoted by an integer / numeral
RAdd(a, b)    == AnyR
RSub(a, b)    == AnyR
RMul(a, b)    == AnyR
RDiv(a, b)    == AnyR
RNeg(a)       == AnyR
RAbs(a)       == AnyR
RLe(a, b)     == AnyR        \* FALSE if an operand is NaN
RLt(a, b)     == AnyR
REq(a, b)     == AnyR
RIsNaN(a)     == AnyR
RIsFinite(a)  == AnyR
RMax(a, b)    == AnyR
RMin(a, b)    == AnyR
RExp(a)       == AnyR
RLn(a)        == AnyR
RSqrt(a)      == AnyR
RPow(a, b)    == AnyR        \* a^b
RAtan(a)      == AnyR
RLGamma(a)    == AnyR        \* ln Gamma(a)
RGammaP(a, x) == AnyR        \* regularised lower incomplete gamma
RBetaI(a,b,x) == AnyR        \* regularised incomplete beta I_x(a,b)
RNormCdf(x)   == AnyR
RSum(s)       == AnyR        \* sum of a sequence of reals
RDot(s, t)    == AnyR        \* sum of products of two sequences
RMaxOf(s)     == AnyR        \* largest element of a sequence
RSolve(A, B)  == AnyR        \* X with A X = B (matrices as sequences of rows), <<>> if A is singular
Force(f)      == AnyR        \* f, as an explicit sequence (f has domain 1..n)
RStr(a)       == AnyR        \* short decimal rendering
TraceLoad(f)  == AnyR        \* the sequence of records of an ndjson file

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \preceq b == RLe(a, b)
a \prec b == RLt(a, b)

Sq(a) == RMul(a, a)
RSign(a) == IF RLt(a, 0) THEN R(-1) ELSE IF RLt(0, a) THEN R(1) ELSE R(0)
Zero == R(0)
One == R(1)
Half == R("0.5")

\* |a - b| <= atol + rtol * max(|a|, |b|); infinities are close iff equal, NaN is close to NaN
CloseTol(a, b, atol, rtol) ==
  \/ RLe(RAbs(a -- b), R(atol) ++ (R(rtol) ** RMax(RAbs(a), RAbs(b)))) /\ RIsFinite(a) /\ RIsFinite(b)
  \/ REq(a, b)
  \/ RIsNaN(a) /\ RIsNaN(b)
SeqClose(s, t, atol, rtol) ==
  /\ Len(s) = Len(t)
  /\ \A i \in 1..Len(s) : CloseTol(s[i], t[i], atol, rtol)
\* vectors: error relative to the largest element of the vectors
VecClose(s, t, atol, rtol) ==
  /\ Len(s) = Len(t)
  /\ LET m == RMax(0, RMaxOf(Force([i \in 1..Len(s) |-> RMax(RAbs(s[i]), RAbs(t[i]))])))
     IN \A i \in 1..Len(s) : CloseTol(s[i], t[i], R(atol) ++ (R(rtol) ** m), 0)
MaxAbsDiff(s, t) == RMaxOf(Force([i \in 1..Len(s) |-> RAbs(s[i] -- t[i])]))

VAdd(s, t) == Force([i \in 1..Len(s) |-> s[i] ++ t[i]])
VSub(s, t) == Force([i \in 1..Len(s) |-> s[i] -- t[i]])
VScale(c, s) == Force([i \in 1..Len(s) |-> RMul(c, s[i])])
VMulE(s, t) == Force([i \in 1..Len(s) |-> s[i] ** t[i]])
MatVec(A, x) == Force([i \in 1..Len(A) |-> RDot(A[i], x)])
Col(A, j) == Force([i \in 1..Len(A) |-> A[i][j]])
Transp(A) == IF Len(A) = 0 THEN <<>> ELSE Force([j \in 1..Len(A[1]) |-> Col(A, j)])
MatMul(A, B) == LET BT == Transp(B) IN
                Force([i \in 1..Len(A) |-> Force([j \in 1..Len(BT) |-> RDot(A[i], BT[j])])])
NormInf(s) == IF Len(s) = 0 THEN Zero ELSE RMaxOf(Force([i \in 1..Len(s) |-> RAbs(s[i])]))
=============================================================================
