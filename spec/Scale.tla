-------------------------------- MODULE Scale --------------------------------
(* How signals of a cell respond to its content.  A class is n particles of   *)
(* size s (mass n*s^3); a particle reflects s^6, extinguishes s^2, falls s.   *)
EXTENDS Integers, Sequences
RECURSIVE SumOf(_, _)
SumOf(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOf(f, n - 1)
Pow(s, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN s ELSE IF k = 2 THEN s * s ELSE IF k = 3 THEN s * s * s ELSE s * s * s * s * s * s
\* the content as a model gives it: mass q and number n; the size follows from their ratio
SizeOf(c) == IF c.n = 0 THEN 0 ELSE CHOOSE s \in 0..9 : c.n * Pow(s, 3) = c.q
Z(cs) == SumOf([i \in DOMAIN cs |-> cs[i].n * Pow(SizeOf(cs[i]), 6)], Len(cs))
X(cs) == SumOf([i \in DOMAIN cs |-> cs[i].n * Pow(SizeOf(cs[i]), 2)], Len(cs))
\* numerator of the mean fall speed, to be divided by Z
VZ(cs) == SumOf([i \in DOMAIN cs |-> cs[i].n * Pow(SizeOf(cs[i]), 6) * SizeOf(cs[i])], Len(cs))
ScaleOf(cs, f, which) == [i \in DOMAIN cs |-> IF i \in which THEN [q |-> f * cs[i].q, n |-> f * cs[i].n] ELSE cs[i]]
=============================================================================
