--------------------------------- MODULE Num ---------------------------------
(* Fixed-point numbers.  Recorded floats arrive as integers: either on a     *)
(* linear scale chosen per record, or as natural logarithms in units of      *)
(* 1/LogScale, where Zero stands for the logarithm of 0, Inf for that of     *)
(* infinity and Nan for a value that is not a number (or negative).          *)
EXTENDS Integers, Sequences, FiniteSets

LogScale == 1000000
Zero == -1900000000
Inf  ==  1900000000
Nan  ==  1999999999
Missing == Nan

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
IsNum(a) == Abs(a) < 1900000000
Near(a, b, tol) == a = b \/ (IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol)
ToSet(s) == {s[i] : i \in 1..Len(s)}

\* products and quotients of logarithmic values
LMul(a, b) == IF a = Zero \/ b = Zero THEN Zero ELSE a + b
LDiv(a, b) == IF a = Zero THEN Zero ELSE a - b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumFn(_, _)
SumFn(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFn(f, S \ {x})
SeqMax(s) == CHOOSE m \in ToSet(s) : \A x \in ToSet(s) : x <= m

Holds(r) == \A n \in DOMAIN r : r[n]
Broken(r) == {n \in DOMAIN r : ~r[n]}
=============================================================================
