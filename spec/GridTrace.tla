------------------------------ MODULE GridTrace ------------------------------
(* Recorded histories of one model's dataset.  Every event holds the dataset  *)
(* after an operation: size, f (fields), c (coordinates [dims, v]), tdim (the  *)
(* name of the time dimension), and par (the operation's arguments).  The     *)
(* specification decides each step from the dataset before it.                *)
(* Operations: load, stack, unstack, permute, crop, box (inclusive interval   *)
(* of two coordinates), sim (fields added, nothing else touched), column (the *)
(* results of grid point par.col simulated alone), note (nothing judged).     *)
EXTENDS Grid, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
B == T.ev[IF E.op = "column" THEN E.par.of ELSE k - 1]                 \* before
Dims(D) == DOMAIN D.size
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the step that built the columns now in use, and the dataset it was built from
LastStack == Max({j \in 1..(k - 1) : T.ev[j].op = "stack"})
S1 == T.ev[LastStack]
S0 == T.ev[LastStack - 1]
Lat == E.par.g[1]
Lon == E.par.g[2]
Tm == E.par.g[3]
G3 == {Lat, Lon, Tm}
Index(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x
HasAll(D, f) == DOMAIN f = DOMAIN D

\* --- stack ---
Regional == /\ Lat \in Dims(B)
            /\ (B.size[Lat] # 1 \/ (Lon \in Dims(B) /\ B.size[Lon] # 1))
Gs == {d \in {Lat, Lon} : d \in Dims(B)} \cup {Tm}                     \* the dimensions stacked
Pre(d) == d \cup (IF Tm \in Dims(B) THEN {} ELSE {Tm})                 \* a missing time dimension is added first
StackDims(d) ==
  IF Regional THEN (IF Pre(d) \cap Gs # {} THEN (Pre(d) \ Gs) \cup {E.par.col} ELSE Pre(d))
  ELSE IF Lat \in Dims(B) THEN Pre(d) \ {Lat, Lon} ELSE Pre(d)
GridAt(cc) == [d \in {x \in Gs : x \in Dims(B)} |-> Index(B.c[d].v, E.c[d].v[cc])]
ColsOK == ~Regional \/
  /\ E.tdim = E.par.col
  /\ E.size[E.par.col] = Prod(B, SelectSeq(<<Lat, Lon, Tm>>, LAMBDA d : d \in Dims(B)))
  /\ \A d \in {x \in Gs : x \in Dims(B)} :
       Len(E.c[d].v) = E.size[E.par.col] /\ Rng(E.c[d].v) \subseteq Rng(B.c[d].v)
  /\ Cardinality({GridAt(cc) : cc \in 1..E.size[E.par.col]}) = E.size[E.par.col]
StackSrc(q) == IF E.par.col \in DOMAIN q THEN q @@ GridAt(q[E.par.col]) ELSE q
              
One(q) == q @@ [d \in Dims(B) |-> 1]                                   \* squeezed dimensions had one element

\* --- unstack ---
Col == B.tdim
Us == {d \in {Lat, Lon, Tm} : d \in DOMAIN S1.c}
UnstackDims(d) ==
  LET full == IF Col \in d THEN (d \ {Col}) \cup Us ELSE d
      sz(x) == IF x \in Us THEN Len(S1.par.c0[x]) ELSE B.size[x] IN
  {x \in full : ~(E.par.squeeze /\ x \in {Tm, "subcolumn"} /\ sz(x) = 1)}
CoordAt(x, q) == IF x \in DOMAIN q THEN E.c[x].v[q[x]] ELSE E.c[x].v[1]
UnstackSrc(q) ==
  IF \E x \in Us : x \in DOMAIN q
  THEN q @@ (Col :> CHOOSE cc \in 1..B.size[Col] : \A x \in Us : S1.c[x].v[cc] = CoordAt(x, q)) ELSE q
CoordsBack == \A x \in Us : x \in DOMAIN E.c /\ E.c[x].v = S1.par.c0[x]
Findable == \A x \in Us : x \in DOMAIN E.c /\ Rng(E.c[x].v) \subseteq Rng(S1.par.c0[x])

\* --- crop ---
Tc == E.par.tc                                                         \* the coordinate holding times
Keep0 == Kept(B.c[Tc].v, E.par.lo, E.par.hi)
Keep == IF Keep0 = <<>> THEN [i \in DOMAIN B.c[Tc].v |-> i] ELSE Keep0
CropSrc(q) == IF E.tdim \in DOMAIN q THEN [q EXCEPT ![E.tdim] = Keep[@]] ELSE q
CropSizes == E.size = [B.size EXCEPT ![E.tdim] = Len(Keep)]
CropCoords == /\ E.c[Tc].v = [i \in DOMAIN Keep |-> B.c[Tc].v[Keep[i]]]
              /\ \A x \in DOMAIN B.c : x \in DOMAIN E.c
              /\ \A x \in DOMAIN B.c : (x # Tc /\ E.tdim \notin Rng(B.c[x].dims)) => E.c[x].v = B.c[x].v

\* --- box ---
KeepB(d) == SelectSeq([i \in DOMAIN B.c[d].v |-> i], LAMBDA i : B.c[d].v[i] >= E.par.lo[d] /\ B.c[d].v[i] <= E.par.hi[d])
BoxSrc(q) == [d \in DOMAIN q |-> IF d \in DOMAIN E.par.lo THEN KeepB(d)[q[d]] ELSE q[d]]
BoxSizes == E.size = [d \in Dims(B) |-> IF d \in DOMAIN E.par.lo THEN Len(KeepB(d)) ELSE B.size[d]]

Src(q) == CASE E.op = "stack" -> One(StackSrc(q)) [] E.op = "unstack" -> One(UnstackSrc(q)) [] E.op = "crop" -> CropSrc(q)
            [] E.op = "box" -> BoxSrc(q) [] E.op = "column" -> q @@ (B.tdim :> E.par.col) [] OTHER -> q
NewDims(d) == CASE E.op = "stack" -> StackDims(d) [] E.op = "unstack" -> UnstackDims(d) [] E.op = "column" -> d \ {B.tdim}
                [] OTHER -> d
BaseFirst(dims, base, first) == LET b == Only(base, Rng(dims)) IN
  IF first THEN SubSeq(dims, 1, Len(b)) = b ELSE SubSeq(dims, Len(dims) - Len(b) + 1, Len(dims)) = b
Ord == [stack |-> TRUE, unstack |-> TRUE, permute |-> TRUE]
Valid == /\ \A n \in DOMAIN E.f : Len(E.f[n].v) = Prod(E, E.f[n].dims)
Names == IF E.op = "sim" THEN DOMAIN B.f \subseteq DOMAIN E.f
         ELSE IF E.op = "column" THEN DOMAIN E.f \subseteq DOMAIN B.f ELSE DOMAIN B.f = DOMAIN E.f
Common == DOMAIN B.f \cap DOMAIN E.f
DimsOK(n) == Rng(E.f[n].dims) = NewDims(Rng(B.f[n].dims)) /\ Cardinality(Rng(E.f[n].dims)) = Len(E.f[n].dims)
SizesOK == CASE E.op = "crop" -> CropSizes [] E.op = "box" -> BoxSizes [] OTHER -> TRUE
ValuesOK(n) == \A i \in DOMAIN E.f[n].v : E.f[n].v[i] = At(B, B.f[n], Src(Point(E, E.f[n].dims, i)))
CoordsOK == CASE E.op = "stack" -> ColsOK [] E.op = "unstack" -> CoordsBack /\ E.tdim = S0.tdim [] E.op = "crop" -> CropCoords
              [] OTHER -> TRUE
\* the values can only be looked for where the coordinates can be found
Lookup == CASE E.op = "stack" -> ColsOK [] E.op = "unstack" -> Findable [] OTHER -> SizesOK
Refused == E.op = "unstack" /\ B.st = ""                               \* there is nothing to unstack
Clauses ==
  IF E.op \in {"load", "note"} THEN {} ELSE
  IF Refused THEN (IF E.err = "TypeError" THEN {} ELSE {"unstack_only_what_was_stacked"}) ELSE
  IF E.err # "" THEN {"call_completes"} ELSE
  IF ~Valid THEN {"arrays_well_formed"} ELSE
  (IF Names THEN {} ELSE {"fields_kept"}) \cup
  (IF SizesOK THEN {} ELSE {IF E.op = "crop" THEN "half_open_interval" ELSE "box_kept"}) \cup
  (IF CoordsOK THEN {} ELSE {IF E.op = "stack" THEN "columns_are_grid_points" ELSE "coordinates_kept"}) \cup
  (IF \A n \in Common : DimsOK(n) THEN {} ELSE {"dimensions_documented"}) \cup
  (IF \A n \in Common : E.f[n].u = B.f[n].u THEN {} ELSE {"attributes_kept"}) \cup
  (IF E.par.base = <<>> \/ \A n \in DOMAIN E.f : BaseFirst(E.f[n].dims, E.par.base, E.par.first) THEN {}
     ELSE {"processing_order"}) \cup
  (IF ~(SizesOK /\ Lookup /\ \A n \in Common : DimsOK(n)) \/ \A n \in Common : ValuesOK(n) THEN {}
     ELSE {IF E.op = "column" THEN "columns_are_simulated_alone" ELSE "values_at_own_coordinates"})
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
