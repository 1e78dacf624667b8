------------------------------- MODULE Regrid --------------------------------
(* Vertical regridding by layer overlap: a layer of the new grid holds the    *)
(* mean of the old layers, weighted with the depth they share with it.        *)
EXTENDS Integers, Sequences
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Overlap(b1, t1, b2, t2) == Hi(0, Lo(t1, t2) - Hi(b1, b2))
\* old layers: bottoms zh, the top one symmetric about its full level
Bot(zh, l) == zh[l]
Top(zh, zf, l) == IF l < Len(zh) THEN zh[l + 1] ELSE 2 * zf[l] - zh[l]
Weight(zh, zf, nb, nt, l) == Overlap(Bot(zh, l), Top(zh, zf, l), nb, nt)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Weights(zh, zf, nb, nt) == [l \in DOMAIN zh |-> Weight(zh, zf, nb, nt, l)]
=============================================================================
