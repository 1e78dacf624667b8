--------------------------------- MODULE Psd ---------------------------------
(* Gamma size distributions N0 D^mu exp(-lam D).  Integer shapes: with n      *)
(* particles, the third moment is n (mu+1)(mu+2)(mu+3) / lam^3.               *)
EXTENDS Integers, Sequences
Third(mu) == (mu + 1) * (mu + 2) * (mu + 3)
\* water held by n particles of density d: q air = d n Third(mu) / lam^3 (constants absorbed in the unit)
Holds3(q, air, d, n, mu, lam) == q * air * lam * lam * lam = d * n * Third(mu)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
===============================================================================
