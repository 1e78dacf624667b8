------------------------------ MODULE PhaseLidar -------------------------------
(* Lidar phase classification: an ordered list of classes, each with a curve  *)
(* in the plane (depolarization x in 1e-6, log10 of backscatter y in 1e-5),   *)
(* linear between its points and constant beyond them.  A cell gets the last  *)
(* class whose curve its point reaches.                                       *)
EXTENDS Num

\* a*b \div c without leaving 32 bits, for 0 <= b <= c <= 10^7, a >= 0: long multiplication digit by digit
RECURSIVE MulDivR(_, _, _)
MulDivR(a, b, c) == IF a = 0 THEN [q |-> 0, r |-> 0]
  ELSE LET h == MulDivR(a \div 10, b, c)
           n == h.r * 10 + (a % 10) * b
       IN [q |-> h.q * 10 + n \div c, r |-> n % c]
MulDiv(a, b, c) == MulDivR(a, b, c).q

Seg(xs, x) == CHOOSE j \in 1..Len(xs) - 1 : xs[j] <= x /\ x <= xs[j + 1]
Curve(c, x) == IF x <= c.x[1] THEN c.y[1] ELSE IF x >= c.x[Len(c.x)] THEN c.y[Len(c.y)]
  ELSE LET j == Seg(c.x, x)
           d == MulDiv(Abs(c.y[j + 1] - c.y[j]), x - c.x[j], c.x[j + 1] - c.x[j])
       IN IF c.y[j + 1] >= c.y[j] THEN c.y[j] + d ELSE c.y[j] - d
\* exact where the curve is flat, or at one of its points; elsewhere rounding leaves a margin
Exact(c, x) == \/ x <= c.x[1] \/ x >= c.x[Len(c.x)]
               \/ LET j == Seg(c.x, x) IN c.y[j] = c.y[j + 1]
Reached(c, x, y) == y >= Curve(c, x)
Margin(c, x, y) == ~Exact(c, x) /\ Abs(y - Curve(c, x)) <= 3

\* the classes a cell may be given: one, but for margins
RECURSIVE Fold(_, _, _, _)
Fold(cs, x, y, S) == IF cs = <<>> THEN S ELSE
  LET c == Head(cs) IN
  Fold(Tail(cs), x, y, IF Margin(c, x, y) THEN S \cup {c.ind} ELSE IF Reached(c, x, y) THEN {c.ind} ELSE S)
Classes(cs, x, y) == IF ~IsNum(x) \/ ~IsNum(y) THEN {0} ELSE Fold(cs, x, y, {0})

\* extinct signals are removed on request
Verdicts(cs, x, y, od, ext, remove) == IF remove /\ IsNum(ext) /\ od > ext THEN {0} ELSE Classes(cs, x, y)
=============================================================================
