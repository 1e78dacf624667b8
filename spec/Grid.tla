-------------------------------- MODULE Grid ---------------------------------
(* Gridded data: a dataset D has sizes D.size[dim], coordinates D.c[dim] (a   *)
(* sequence of values) and fields D.f[name] = [dims |-> sequence of dimension *)
(* names, v |-> values in row-major order], as in xarray.                     *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Prod(_, _)
Prod(D, dims) == IF dims = <<>> THEN 1 ELSE D.size[Head(dims)] * Prod(D, Tail(dims))
Pos(dims, d) == CHOOSE i \in DOMAIN dims : dims[i] = d
Stride(D, dims, d) == Prod(D, SubSeq(dims, Pos(dims, d) + 1, Len(dims)))
Point(D, dims, i) == [d \in Rng(dims) |-> (((i - 1) \div Stride(D, dims, d)) % D.size[d]) + 1]
RECURSIVE Off(_, _, _)
Off(D, dims, pt) == IF dims = <<>> THEN 0 ELSE (pt[Head(dims)] - 1) * Prod(D, Tail(dims)) + Off(D, Tail(dims), pt)
At(D, fld, pt) == fld.v[Off(D, fld.dims, pt) + 1]         \* pt may have more dimensions than the field

\* the same data with its axes in the order given (dims: a permutation of fld.dims)
Transposed(D, fld, dims) == [dims |-> dims, v |-> [i \in 1..Prod(D, dims) |-> At(D, fld, Point(D, dims, i))]]
Only(seq, S) == SelectSeq(seq, LAMBDA x : x \in S)
Without(seq, S) == SelectSeq(seq, LAMBDA x : x \notin S)
\* the processing order: the base dimensions first (or last), the others as they were
Ordered(dims, base, first) == LET b == Only(base, Rng(dims)) r == Without(dims, Rng(base)) IN IF first THEN b \o r ELSE r \o b
Kept(c, lo, hi) == SelectSeq([i \in DOMAIN c |-> i], LAMBDA i : c[i] >= lo /\ c[i] < hi)    \* half-open interval
=============================================================================
