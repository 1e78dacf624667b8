------------------------------- MODULE CfadMC --------------------------------
(* A histogram filled sample by sample: every sample in range is counted once,*)
(* whatever the order; cloud fraction is cloudy over usable samples.          *)
EXTENDS Cfad, TLC
CONSTANTS MaxX, NS, Bug
VARIABLES e, todo, h, cld, ok, all
vars == <<e, todo, h, cld, ok, all>>
X == 0..MaxX \cup {Undef}
Init == /\ e \in {s \in [1..3 -> 0..MaxX] : s[1] < s[2] /\ s[2] < s[3]}
        /\ all \in [1..NS -> X] /\ todo = DOMAIN all /\ h = [j \in Bins(e) |-> 0] /\ cld = 0 /\ ok = 0
Hit(x, j) == IF Bug = "closed" THEN x # Undef /\ x >= e[j] /\ x <= e[j + 1]
             ELSE IF Bug = "open" THEN x # Undef /\ x > e[j] /\ x < e[j + 1]
             ELSE IF Bug = "undef" THEN (IF x = Undef THEN j = 1 ELSE InBin(x, e, j)) ELSE InBin(x, e, j)
Take(i) == /\ h' = [j \in Bins(e) |-> h[j] + (IF Hit(all[i], j) THEN 1 ELSE 0)]
           /\ cld' = cld + (IF all[i] # Undef /\ all[i] > 2 THEN 1 ELSE 0)
           /\ ok' = ok + (IF all[i] # Undef /\ all[i] > (IF Bug = "ok" THEN 2 ELSE 0) THEN 1 ELSE 0)
           /\ todo' = todo \ {i} /\ UNCHANGED <<e, all>>
Next == \E i \in todo : Take(i)
Spec == Init /\ [][Next]_vars
Counted == todo = {} => \A j \in Bins(e) : h[j] = Count(all, e, j)
Once == todo = {} => Sum(h, Len(e) - 1) = InAll(all, e)
Fraction == todo = {} => cld = Above(all, 2) /\ ok = Above(all, 0) /\ cld <= ok
=============================================================================
