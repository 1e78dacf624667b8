----------------------------- MODULE PhaseLidarMC ------------------------------
(* Every set of small curves (monotone classes), every point: the machine that*)
(* goes through the classes in order and overwrites.  Bug: typical mistakes.  *)
EXTENDS PhaseLidar, TLC
CONSTANTS X, Y, NC, Bug
VARIABLES cs, pt, k, got
vars == <<cs, pt, k, got>>
Curves == {[ind |-> i, x |-> <<0, X>>, y |-> <<a, b>>] : i \in 1..NC, a \in 0..Y, b \in 0..Y}
Init == /\ cs \in {s \in [1..NC -> Curves] : \A i, j \in 1..NC : i # j => s[i].ind # s[j].ind}
        /\ pt \in (0..X) \X (0..Y) /\ k = 0 /\ got = 0
Hit(c) == IF Bug = "strict" THEN pt[2] > Curve(c, pt[1]) ELSE Reached(c, pt[1], pt[2])
Next == /\ k < NC /\ k' = k + 1 /\ UNCHANGED <<cs, pt>>
        /\ got' = IF Hit(cs[k + 1]) /\ (Bug # "first" \/ got = 0)
                  THEN (IF Bug = "order" THEN k + 1 ELSE cs[k + 1].ind) ELSE got
Spec == Init /\ [][Next]_vars
Done == k = NC
\* declarative: the last class reached, and nothing where none is
Last == Done => \/ got = 0 /\ \A i \in 1..NC : pt[2] < Curve(cs[i], pt[1])
                \/ \E i \in 1..NC : /\ got = cs[i].ind /\ pt[2] >= Curve(cs[i], pt[1])
                                    /\ \A j \in i+1..NC : pt[2] < Curve(cs[j], pt[1])
Agrees == Done /\ (\A i \in 1..NC : ~Margin(cs[i], pt[1], pt[2])) => Classes(cs, pt[1], pt[2]) = {got}
\* curves are between their end points
InRange == \A i \in 1..NC : LET v == Curve(cs[i], pt[1]) IN
   v >= Min2(cs[i].y[1], cs[i].y[2]) /\ v <= Max2(cs[i].y[1], cs[i].y[2])
\* digit by digit equals the plain quotient
Mul == \A i \in 1..NC : MulDiv(cs[i].y[1], pt[1], X) = (cs[i].y[1] * pt[1]) \div X
=============================================================================
