-------------------------------- MODULE Signal --------------------------------
(* Where a class may and must be seen.  A cell of a subcolumn holds a class   *)
(* ("mass"), is marked as holding it but has no mass left ("hollow"), or is   *)
(* clear of it.  Signals are abstracted to signs: "0", "+", and the defects   *)
(* "-" (negative), "n" (undefined) and "i" (infinite).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
States == {"clear", "hollow", "mass"}
\* linear quantities are zero without mass; quantities in decibels are undefined ("n") without mass
Linear(state) == IF state = "mass" THEN {"+"} ELSE {"0"}
Decibel(state) == IF state = "mass" THEN {"f"} ELSE {"n"}
\* accumulated along the beam: never negative, undefined or infinite, whatever this cell holds
Accumulated == {"0", "+"}
AnyMass(S) == IF \E s \in S : s = "mass" THEN "mass" ELSE "clear"
=============================================================================
