------------------------------- MODULE DepolMC --------------------------------
(* The ratio accumulated class by class and cloud type by cloud type, over    *)
(* every small scene.  Bug: typical mistakes.                                 *)
EXTENDS Depol, TLC
CONSTANTS NC, B, L, Bug
VARIABLES s, c, tab, conv, k, num, den, numt, dent, cloud
vars == <<s, c, tab, conv, k, num, den, numt, dent, cloud>>
Bs == [1..NC -> 0..B]
Init == s \in Bs /\ c \in Bs /\ tab \in [1..NC -> 1..L] /\ conv \in BOOLEAN
        /\ k = 0 /\ num = [x \in {"s", "c"} |-> 0] /\ den = num /\ numt = 0 /\ dent = 0
        /\ cloud = IF conv \/ Bug = "both" THEN "c" ELSE "s"
Cur == IF cloud = "c" THEN c ELSE s
Step == k < NC /\ k' = k + 1
        /\ num' = [num EXCEPT ![cloud] = @ + Cur[k + 1] * tab[k + 1]]
        /\ den' = [den EXCEPT ![cloud] = IF Bug = "last" THEN Cur[k + 1] ELSE @ + Cur[k + 1]]
        /\ UNCHANGED <<s, c, tab, conv, numt, dent, cloud>>
Switch == k = NC /\ k' = (IF cloud = "c" THEN 0 ELSE NC + 1)
        /\ numt' = numt + num[cloud] /\ dent' = dent + den[cloud]
        /\ cloud' = "s" /\ UNCHANGED <<s, c, tab, conv, num, den>>
Next == Step \/ Switch
Spec == Init /\ [][Next]_vars
Done == k = NC + 1
Mean(b, l, n, d) == d * Weighted(b, l) = n * Total(b) /\ (d = 0) = (Present(b) = {})
Means == Done => /\ Mean(s, tab, num["s"], den["s"])
                 /\ (conv => Mean(c, tab, num["c"], den["c"]))
                 /\ Mean(IF conv THEN Cat(s, c) ELSE s, IF conv THEN Cat(tab, tab) ELSE tab, numt, dent)
\* a mean lies between the smallest and largest ratio present
Bounds == Done /\ dent > 0 => \E i, j \in 1..NC : tab[i] * dent <= numt /\ numt <= tab[j] * dent
                                                /\ (s[i] > 0 \/ c[i] > 0) /\ (s[j] > 0 \/ c[j] > 0)
=============================================================================
