-------------------------------- MODULE RatioMC --------------------------------
(* Counting subcolumn by subcolumn, for every small mask and class list.      *)
EXTENDS Ratio, TLC
CONSTANTS N, V, Bug
VARIABLES m, num, den, k, n, d
vars == <<m, num, den, k, n, d>>
Init == m \in [1..N -> (0..V) \cup {Nan}] /\ num \in SUBSET (1..V) \ {{}} /\ den \in SUBSET (1..V)
        /\ k = 0 /\ n = 0 /\ d = 0
Is(v, S) == IF Bug = "zero" THEN v = 0 \/ In(v, S) ELSE In(v, S)
Next == k < N /\ k' = k + 1 /\ UNCHANGED <<m, num, den>>
        /\ n' = n + (IF Classified(m[k + 1]) /\ m[k + 1] \in num /\ (Bug # "narrow" \/ In(m[k+1], den)) THEN 1 ELSE 0)
        /\ d' = d + (IF Is(m[k + 1], den) THEN 1 ELSE 0)
Spec == Init /\ [][Next]_vars
Done == k = N
Counts == Done => d = Count(m, den) /\ n = Cardinality({i \in 1..N : m[i] \in num})
Bounded == Done /\ (den = {} \/ num \subseteq den) => n <= d
Total == Done /\ den = {} /\ num = 1..V => n = d
=============================================================================
