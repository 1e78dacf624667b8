------------------------------- MODULE Picture -------------------------------
(* What a picture of a field shows.  A curtain is a grid of cells, one row    *)
(* for every level and one column for every time or subcolumn, between edges; *)
(* a profile is one value for every level with a range about it.              *)
EXTENDS Num
Between(a, b, x) == Min2(a, b) - 2 <= x /\ x <= Max2(a, b) + 2
\* cell i lies between its edges; with several cells the edges are half way between neighbours
Placed(edges, c, one) == /\ Len(edges) = Len(c) + 1
                         /\ \A i \in 1..Len(c) : Between(edges[i], edges[i + 1], c[i])
                         /\ one \/ \A i \in 1..(Len(c) - 1) : Near(2 * edges[i + 1], c[i] + c[i + 1], 4)
                         \* the outermost cells reach no farther beyond their centre than the next centre is away
                         /\ one \/ /\ Abs(edges[1] - c[1]) <= Abs(c[2] - c[1]) + 4
                                   /\ Abs(edges[Len(c) + 1] - c[Len(c)]) <= Abs(c[Len(c)] - c[Len(c) - 1]) + 4
\* columns of whole numbers 0, 1, 2, ... in units u
Count(n, u) == [i \in 1..n |-> (i - 1) * u]
\* the arithmetic mean of s in units 1/u, rounded
MeanOf(s, u) == IF s = <<>> THEN Nan ELSE (SumSeq(s) * u + Len(s) \div 2) \div Len(s)
\* n^2 times the variance of s
Spread(s) == Len(s) * SumSeq([i \in 1..Len(s) |-> s[i] * s[i]]) - SumSeq(s) * SumSeq(s)
\* the requested entry of a coordinate axis: an index (from 0, or from the end), the nearest value, or the first
Dist(c, v) == Abs(c - v)
Entry(req, coord) == CASE req.k = "none" -> 1
                       [] req.k = "int" -> IF req.v < 0 THEN Len(coord) + req.v + 1 ELSE req.v + 1
                       [] OTHER -> CHOOSE i \in 1..Len(coord) : \A j \in 1..Len(coord) : Dist(coord[i], req.v) <= Dist(coord[j], req.v)
=============================================================================
