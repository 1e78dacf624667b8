--------------------------------- MODULE Beam ---------------------------------
(* A lidar or radar beam travels through layers 1..n (1 = the first it meets,*)
(* the lowest for a surface instrument, the uppermost for a space-borne one).*)
(* A layer at height z[i] extinguishes a[i] per metre.  What is behind the   *)
(* beam at layer i is what it lost on the way from layer 1 to layer i: every *)
(* layer passed counts with its own extinction over the distance to the next.*)
EXTENDS Num

Path(z, i) == Abs(z[i] - z[i - 1])                   \* from the layer before
\* optical depth behind the beam on arrival at layer i
RECURSIVE Depth(_, _, _)
Depth(a, z, i) == IF i = 1 THEN 0 ELSE Depth(a, z, i - 1) + a[i - 1] * Path(z, i)
Depths(a, z) == [i \in 1..Len(a) |-> Depth(a, z, i)]

\* one step of the walk, observed: od grew by what the layer just left took
StepOK(a, z, od, i, tol) ==
  IF i = 1 THEN od[1] = 0
  ELSE Near(od[i] - od[i - 1], a[i - 1] * Path(z, i), tol + Path(z, i))

\* the trapezoid rule, used for the molecular atmosphere: twice the depth
RECURSIVE Trapez(_, _, _)
Trapez(b, z, i) == IF i = 1 THEN 0 ELSE Trapez(b, z, i - 1) + (b[i] + b[i - 1]) * Path(z, i)

\* loss of signal: 2 where the depth exceeds the threshold, 1 in the last layer before the first such one
Lost(od, thr, i) == od[i] > thr
LossMask(od, thr, i) ==
  IF Lost(od, thr, i) THEN 2 ELSE IF i < Len(od) /\ Lost(od, thr, i + 1) THEN 1 ELSE 0

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
