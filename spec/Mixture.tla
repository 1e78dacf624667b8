-------------------------------- MODULE Mixture -------------------------------
(* Doppler moments of a mixture of hydrometeor classes.  A class is a         *)
(* spectrum: how much particles of each fall speed reflect.  The classes are  *)
(* processed one after the other, in any order; a second pass measures the    *)
(* spread about the total velocity.  Numerators only (integers):              *)
(*   W = sum of weights, M = sum of weight*speed, S = W^2 * variance * W ...  *)
EXTENDS Num
CONSTANTS Classes, Speeds, MaxW, Bug
VARIABLES spec, order, done, w, m, s2, pass
vars == <<spec, order, done, w, m, s2, pass>>
Perms == {p \in [1..Cardinality(Classes) -> Classes] : ToSet(p) = Classes}
CW(c) == SumFn([v \in Speeds |-> spec[c][v]], Speeds)
CM(c) == SumFn([v \in Speeds |-> spec[c][v] * v], Speeds)
C2(c) == SumFn([v \in Speeds |-> spec[c][v] * v * v], Speeds)
\* second pass: sum of weight * (W*speed - M)^2 = W^2 * spread about the total speed M/W
Spread(c, W, M) == SumFn([v \in Speeds |-> spec[c][v] * (W * v - M) * (W * v - M)], Speeds)
Init == /\ spec \in [Classes -> [Speeds -> 0..MaxW]] /\ order \in Perms
        /\ done = 0 /\ w = 0 /\ m = 0 /\ s2 = 0 /\ pass = 1
Cur == order[done + 1]
Next == \/ /\ pass = 1 /\ done < Len(order) /\ done' = done + 1
           /\ IF Bug = "reset" /\ Cur = CHOOSE c \in Classes : TRUE
              THEN w' = CW(Cur) /\ m' = CM(Cur)                   \* forgets the classes before
              ELSE w' = w + CW(Cur) /\ m' = m + CM(Cur)
           /\ UNCHANGED <<spec, order, s2, pass>>
        \/ /\ pass = 1 /\ done = Len(order) /\ pass' = 2 /\ done' = 0 /\ UNCHANGED <<spec, order, w, m, s2>>
        \/ /\ pass = 2 /\ done < Len(order) /\ done' = done + 1
           /\ s2' = s2 + (IF Bug = "own" THEN w * w * (IF CW(Cur) = 0 THEN 0 ELSE C2(Cur) - (CM(Cur) * CM(Cur)) \div CW(Cur))
                          ELSE Spread(Cur, w, m))
           /\ UNCHANGED <<spec, order, w, m, pass>>
Spec == Init /\ [][Next]_vars
Done == pass = 2 /\ done = Len(order)
\* whatever the order, the weighted mean of all particles
MeanOK == Done => w = SumFn([c \in Classes |-> CW(c)], Classes) /\ m = SumFn([c \in Classes |-> CM(c)], Classes)
\* the spread of all particles about it: total second moment minus the squared mean
WidthOK == Done => s2 = w * (w * SumFn([c \in Classes |-> C2(c)], Classes) - m * m)
\* class widths plus spread of class speeds (times each class weight): the decomposition checked on the code
\*   w^2 * CW * (sigma_c^2 + (V_c - V)^2) = Spread(c)
Split == Done => \A c \in Classes : CW(c) > 0 =>
   CW(c) * Spread(c, w, m) = w * w * (CW(c) * C2(c) - CM(c) * CM(c)) + (w * CM(c) - m * CW(c)) * (w * CM(c) - m * CW(c))
=============================================================================
