--------------------------------- MODULE Ratio ---------------------------------
(* Phase ratios of one grid cell.  m: the mask of every subcolumn (0 or Nan = *)
(* unclassified), num / den: classes counted above / below the line (<<>> =   *)
(* all), q: mass of liquid and ice per subcolumn.  Ratios arrive in 1e-6.     *)
EXTENDS Num
Classified(v) == v # 0 /\ v # Nan
In(v, S) == Classified(v) /\ (S = {} \/ v \in S)
Count(m, S) == Cardinality({i \in 1..Len(m) : In(m[i], S)})
RatioOK(n, d, r) == IF d = 0 THEN r = Nan ELSE IsNum(r) /\ Abs(r * d - n * 1000000) <= d
Freq(m, num, den, r) == RatioOK(Cardinality({i \in 1..Len(m) : Classified(m[i]) /\ m[i] \in num}), Count(m, den), r)
Share(num, den, m, r) == r = Nan \/ (num \subseteq den \/ den = {} => r >= 0 /\ r <= 1000000)
Seen(m, q) == SumSeq([i \in 1..Len(m) |-> IF Classified(m[i]) THEN q[i] ELSE 0])
\* per subcolumn, and over all of them
MassCell(m, l, c, i, r) == IF Classified(m[i]) THEN RatioOK(l[i], l[i] + c[i], r) ELSE r = Nan
MassSum(m, l, c, r) == RatioOK(Seen(m, l), Seen(m, l) + Seen(m, c), r)
=============================================================================
