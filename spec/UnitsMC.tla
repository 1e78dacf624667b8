------------------------------- MODULE UnitsMC -------------------------------
(* A chain of calculations that each read a quantity stored as a number with  *)
(* a unit.  Two copies of the same atmosphere, stored in different units, go  *)
(* through the chain side by side: every result must agree.                   *)
(* Units: number = factor * value + offset (as for kelvin and degrees C).     *)
EXTENDS Integers, Sequences
CONSTANTS Values, Stages, Bug
VARIABLES val, ua, ub, done, ra, rb
vars == <<val, ua, ub, done, ra, rb>>
Units == {[f |-> 1, o |-> 0], [f |-> 100, o |-> 0], [f |-> 1, o |-> -27]}
Base == [f |-> 1, o |-> 0]
Store(v, u) == u.f * v + u.o
Read(x, u) == (x - u.o) \div u.f
\* one stage: reads its quantity, may leave a converted copy of it behind (and its unit)
Use(s, x, u) == IF Bug = "raw" /\ s = 2 THEN x
                ELSE IF Bug = "factor" /\ s = 2 THEN x \div u.f       \* forgets the offset
                ELSE IF Bug = "named" /\ s = 2 THEN (IF u.f = 100 THEN x \div 100 ELSE x)   \* knows one unit only
                ELSE Read(x, u)
Init == /\ val \in Values /\ ua = Base /\ ub \in Units /\ done = 0 /\ ra = <<>> /\ rb = <<>>
Stored(u, k) == IF Bug = "inplace" /\ k > 1 THEN val ELSE Store(val, u)   \* a stage overwrote numbers, not the unit
Next == /\ done < Stages /\ done' = done + 1
        /\ ra' = Append(ra, Use(done + 1, Stored(ua, done), ua))
        /\ rb' = Append(rb, Use(done + 1, Stored(ub, done), ub))
        /\ UNCHANGED <<val, ua, ub>>
Spec == Init /\ [][Next]_vars
Agree == ra = rb
Right == \A i \in DOMAIN ra : ra[i] = val
=============================================================================
