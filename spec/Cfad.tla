-------------------------------- MODULE Cfad ---------------------------------
(* Counting samples into bins [e_j, e_j+1), and cloud fractions.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Undef
InBin(x, e, j) == x # Undef /\ x >= e[j] /\ x < e[j + 1]
Bins(e) == 1..(Len(e) - 1)
InRange(x, e) == x # Undef /\ x >= e[1] /\ x < e[Len(e)]
Count(s, e, j) == Cardinality({i \in DOMAIN s : InBin(s[i], e, j)})
InAll(s, e) == Cardinality({i \in DOMAIN s : InRange(s[i], e)})
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Above(s, x) == Cardinality({i \in DOMAIN s : s[i] # Undef /\ s[i] > x})
=============================================================================
