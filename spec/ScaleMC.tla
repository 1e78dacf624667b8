------------------------------- MODULE ScaleMC -------------------------------
(* Contents are scaled, all together or class by class, any number of times;  *)
(* the signals must follow.  Bug: a faulty calculation of the signals.        *)
EXTENDS Scale, FiniteSets
CONSTANTS MaxS, MaxN, Bug
VARIABLES c0, c, f, steps
vars == <<c0, c, f, steps>>
Cl == {[q |-> n * Pow(s, 3), n |-> n] : n \in 0..MaxN, s \in 1..MaxS}
Init == c0 \in [1..2 -> Cl] /\ c = c0 /\ f = <<1, 1>> /\ steps = 0
ScaleBy(k, which) == /\ c' = ScaleOf(c, k, which)
                     /\ f' = [i \in 1..2 |-> IF i \in which THEN k * f[i] ELSE f[i]]
                     /\ steps' = steps + 1 /\ UNCHANGED c0
Next == steps < 2 /\ \E k \in 2..3, which \in {{1, 2}, {1}, {2}} : ScaleBy(k, which)
Spec == Init /\ [][Next]_vars
\* the calculation under design
CZ(cs) == IF Bug = "mass" THEN SumOf([i \in DOMAIN cs |-> IF cs[i].n = 0 THEN 0 ELSE (cs[i].q * cs[i].q)], Len(cs))
          ELSE IF Bug = "first" THEN Z(<<cs[1]>>)
          ELSE IF Bug = "floor" THEN Z(cs) + 1 ELSE Z(cs)
CV(cs) == IF Bug = "sum" THEN [num |-> VZ(cs), den |-> 1] ELSE [num |-> VZ(cs), den |-> Z(cs)]
SameRatio(a, b) == (a.den = 0 /\ b.den = 0) \/ a.num * b.den = b.num * a.den
All == f[1] = f[2]
Proportional == All => CZ(c) = f[1] * CZ(c0) /\ X(c) = f[1] * X(c0)
VelocityKept == All => SameRatio(CV(c), CV(c0))
EachClass == CZ(c) = f[1] * CZ(<<c0[1]>>) + f[2] * CZ(<<c0[2]>>)
Grows == CZ(c) >= CZ(c0) /\ X(c) >= X(c0)
=============================================================================
