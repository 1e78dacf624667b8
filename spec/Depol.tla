--------------------------------- MODULE Depol --------------------------------
(* Linear depolarization of a cell: classes c with backscatter b (units of    *)
(* 1e-7) and ratio l (hundredths); an undefined backscatter contributes       *)
(* nothing.  A reported ratio arrives in 1e-6.                                *)
EXTENDS Num
Val(x) == IF x = Nan THEN 0 ELSE x
Total(b) == SumSeq([i \in 1..Len(b) |-> Val(b[i])])
Weighted(b, l) == SumSeq([i \in 1..Len(b) |-> Val(b[i]) * l[i]])
Present(b) == {i \in 1..Len(b) : Val(b[i]) > 0}
\* ratio * total = weighted sum
RatioOK(b, l, r) == IF Present(b) = {} THEN r = Nan
                    ELSE IsNum(r) /\ Abs(r * Total(b) - Weighted(b, l) * 10000) <= Total(b)
Between(b, l, r) == Present(b) = {} \/
   /\ \E i \in Present(b) : r + 1 >= l[i] * 10000
   /\ \E i \in Present(b) : r - 1 <= l[i] * 10000
Cat(a, b) == [i \in 1..(Len(a) + Len(b)) |-> IF i <= Len(a) THEN a[i] ELSE b[i - Len(a)]]
=============================================================================
