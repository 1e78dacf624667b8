----------------------------- MODULE Distribute ------------------------------
(* Design level: how cloud liquid is spread over the n cloudy subcolumns of  *)
(* a cell when sub-grid variability is on (Morrison and Gettelman 2008, as   *)
(* implemented).  Random values g[1..n] >= 0 are drawn; the longest prefix   *)
(* whose sum stays below n*mean is kept, the remaining subcolumns share what *)
(* is left equally.  Everything is scaled by F = lcm(1..n) so that shares    *)
(* are integers.  Guard = FALSE models the version without the test for a    *)
(* positive mean, which never terminates for a cloudy cell without liquid.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NMax, MMax, GMax, Guard
F == 12
VARIABLES n, m, g, cut, out, pc
vars == <<n, m, g, cut, out, pc>>

RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)

Init == /\ n \in 1..NMax /\ m \in 0..MMax
        /\ g \in UNION {[1..k -> 0..GMax] : k \in {n}}
        /\ cut = 0 /\ out = [i \in 1..n |-> 0] /\ pc = "start"

Start == /\ pc = "start" /\ UNCHANGED <<n, m, g, cut>>
         /\ IF Guard /\ m <= 0 THEN pc' = "done" /\ UNCHANGED out
            ELSE IF n = 1 THEN pc' = "done" /\ out' = [i \in 1..1 |-> F * m]
            ELSE pc' = "scan" /\ UNCHANGED out
\* python's g[:-cut] is empty once cut exceeds n
Kept(c) == IF c >= n THEN 0 ELSE n - c
Scan == /\ pc = "scan" /\ cut' = (IF cut > n THEN cut ELSE cut + 1) /\ UNCHANGED <<n, m, g, out>>
        /\ pc' = IF m * n - Sum(g, Kept(cut')) > 0 THEN "fill" ELSE "scan"
Fill == /\ pc = "fill" /\ pc' = "done" /\ UNCHANGED <<n, m, g, cut>>
        /\ out' = [i \in 1..n |-> IF i <= n - cut THEN F * g[i]
                                  ELSE (F * (m * n - Sum(g, Kept(cut)))) \div cut]
Done == pc = "done" /\ UNCHANGED vars
Next == Start \/ Scan \/ Fill \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Scan \/ Fill)

Conserved == pc = "done" => (Sum(out, n) = F * m * n)
NonNegative == \A i \in 1..n : out[i] >= 0
CutInRange == cut <= n
Terminates == <>(pc = "done")
=============================================================================
