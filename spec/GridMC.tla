------------------------------- MODULE GridMC --------------------------------
(* A regional dataset on its way through processing: cropped in time, stacked *)
(* into columns, reordered, given simulated fields, unstacked again, in any   *)
(* order the model class allows.  The actions are the array manipulations     *)
(* (flat row-major data); the invariant says what must never be lost: every   *)
(* value sits at the coordinates it belongs to.                               *)
EXTENDS Grid, TLC
CONSTANTS Ny, Nx, Nt, Nz, Ns, Bug
CONSTANT MaxSteps
VARIABLES ds, stacked, colmap, n, last
vars == <<ds, stacked, colmap, n, last>>
Sz == ("lat" :> Ny) @@ ("lon" :> Nx) @@ ("time" :> Nt) @@ ("lev" :> Nz)
\* coordinate values, in no particular order
C0 == ("lat" :> [i \in 1..Ny |-> ((2 * i) % 3) + 1]) @@ ("lon" :> [i \in 1..Nx |-> 4 - i]) @@ ("time" :> [i \in 1..Nt |-> i])
      @@ ("lev" :> [i \in 1..Nz |-> 5 - i])
W == [lat |-> 1000, lon |-> 100, time |-> 10, lev |-> 1]
Code(D, dims, pt) == LET s == [d \in {"lat", "lon", "time", "lev"} |-> IF d \in Rng(dims) THEN W[d] * D.c[d][pt[d]] ELSE 0]
                     IN s["lat"] + s["lon"] + s["time"] + s["lev"]
D0(a, b) == LET D == [size |-> Sz, c |-> C0] IN
  [size |-> Sz, c |-> C0,
   f |-> [x \in {"a", "b", "t", "z"} |->
     LET dims == CASE x = "a" -> a [] x = "b" -> b [] x = "t" -> <<"time">> [] OTHER -> <<"lev">> IN
       [dims |-> dims, v |-> [i \in 1..Prod(D, dims) |-> Code(D, dims, Point(D, dims, i))]]]]
Perms4 == {p \in [1..4 -> {"lat", "lon", "time", "lev"}] : Cardinality(Rng(p)) = 4}
Init == /\ \E a \in Perms4, b \in {<<"lat", "lon">>, <<"lon", "lat">>} : ds = D0(a, b)
        /\ stacked = FALSE /\ colmap = <<>> /\ n = 0 /\ last = [op |-> "load", lo |-> 0, hi |-> 0]
G3 == <<"lat", "lon", "time">>
G3b == IF Bug = "order" THEN <<"time", "lat", "lon">> ELSE G3
Step(op) == n < MaxSteps /\ n' = n + 1 /\ (op = "crop" \/ last' = [op |-> op, lo |-> 0, hi |-> 0])
Stack ==
  /\ ~stacked /\ Step("stack") /\ stacked' = TRUE
  /\ LET nc == Prod(ds, G3)
         D1 == [ds EXCEPT !.size = ("col" :> nc) @@ @]
         pts == [c \in 1..nc |-> Point(ds, G3, c)]
         One(fld) == IF Rng(fld.dims) \cap Rng(G3) = {} THEN fld
                     ELSE LET dims == Append(Without(fld.dims, Rng(G3)), "col") IN
                       [dims |-> dims, v |-> [i \in 1..Prod(D1, dims) |->
                          LET q == Point(D1, dims, i) IN At(ds, fld, q @@ pts[q["col"]])]]
     IN /\ colmap' = pts
        /\ ds' = [D1 EXCEPT !.f = [x \in DOMAIN ds.f |-> One(ds.f[x])]]
Permute ==
  /\ Step("permute")
  /\ \E first \in BOOLEAN :
       LET base == <<"sub", IF stacked THEN "col" ELSE "time", "lev">> IN
       ds' = [ds EXCEPT !.f = [x \in DOMAIN ds.f |-> Transposed(ds, ds.f[x], Ordered(ds.f[x].dims, base, first))]]
  /\ UNCHANGED <<stacked, colmap>>
Simulate ==                                              \* a field of the subcolumns, from the columns' own values
  /\ stacked /\ "r" \notin DOMAIN ds.f /\ Step("simulate")
  /\ LET D1 == [ds EXCEPT !.size = @ @@ ("sub" :> Ns)]
         dims == <<"sub", "col", "lev">> IN
     ds' = [D1 EXCEPT !.f = @ @@ ("r" :> [dims |-> dims, v |-> [i \in 1..Prod(D1, dims) |->
               LET q == Point(D1, dims, i) IN q["sub"] * 10000 + At(ds, ds.f["a"], q)]])]
  /\ UNCHANGED <<stacked, colmap>>
Unstack ==                                               \* the column axis is moved last and split, data untouched
  /\ stacked /\ Step("unstack") /\ stacked' = FALSE /\ colmap' = <<>>
  /\ LET One(fld) == IF "col" \notin Rng(fld.dims) THEN fld
                     ELSE LET end == Append(Without(fld.dims, {"col"}), "col")
                              t == IF Bug = "noperm" THEN fld ELSE Transposed(ds, fld, end)
                          IN [dims |-> Without(fld.dims, {"col"}) \o G3b, v |-> t.v]
     IN ds' = [ds EXCEPT !.f = [x \in DOMAIN ds.f |-> One(ds.f[x])]]
Crop ==
  /\ ~stacked /\ Step("crop")
  /\ \E lo, hi \in 0..(Nt + 1) :
       LET keep == IF Bug = "closed" THEN Kept(ds.c["time"], lo, hi + 1) ELSE Kept(ds.c["time"], lo, hi)
           D1 == [ds EXCEPT !.size["time"] = Len(keep), !.c["time"] = [i \in DOMAIN keep |-> ds.c["time"][keep[i]]]]
           One(fld) == IF "time" \notin Rng(fld.dims) THEN fld
                       ELSE [dims |-> fld.dims, v |-> [i \in 1..Prod(D1, fld.dims) |->
                               LET q == Point(D1, fld.dims, i) IN
                               At(ds, fld, [q EXCEPT !["time"] = IF Bug = "shift" THEN @ ELSE keep[@]])]]
       IN /\ lo < hi
          /\ IF keep = <<>> THEN UNCHANGED ds ELSE ds' = [D1 EXCEPT !.f = [x \in DOMAIN ds.f |-> One(ds.f[x])]]
          /\ last' = [op |-> "crop", lo |-> lo, hi |-> hi]
  /\ UNCHANGED <<stacked, colmap>>
Next == Stack \/ Permute \/ Simulate \/ Unstack \/ Crop
Spec == Init /\ [][Next]_vars
\* what a field means: which of the coordinates its values depend on
Dep == [a |-> <<"lat", "lon", "time", "lev">>, b |-> <<"lat", "lon">>, t |-> <<"time">>, z |-> <<"lev">>,
        r |-> <<"lat", "lon", "time", "lev">>]
InPlace == \A x \in DOMAIN ds.f : \A i \in DOMAIN ds.f[x].v :
  LET fld == ds.f[x]
      q == Point(ds, fld.dims, i)
      p == IF "col" \in DOMAIN q THEN q @@ colmap[q["col"]] ELSE q
  IN fld.v[i] = (IF x = "r" THEN q["sub"] * 10000 ELSE 0) + Code(ds, Dep[x], p)
Complete == \A x \in DOMAIN ds.f : Len(ds.f[x].v) = Prod(ds, ds.f[x].dims)
HalfOpen == last.op = "crop" =>
  LET In(t) == t >= last.lo /\ t < last.hi IN
  (\E i \in DOMAIN ds.c["time"] : In(ds.c["time"][i])) => \A i \in DOMAIN ds.c["time"] : In(ds.c["time"][i])
=============================================================================
