----------------------------- MODULE InstrumentMC -----------------------------
(* Instruments and the scattering tables they carry.  A table is read from    *)
(* its file into the units of the simulator and hangs on the instrument, some *)
(* under two names.  Instruments are built, load their tables again for       *)
(* another temperature of the liquid, and their owners may write into them.   *)
EXTENDS Num, TLC
CONSTANTS Insts, Steps, Bug
Names == {"liquid", "ice", "ice_bulk"}
None == [kind |-> "none", exp |-> 0, scribbled |-> FALSE]
\* ice_bulk is a second name of the ice table; the lidars have one liquid table for all temperatures
FileOf(n, i, cold, extra) ==
  IF n = "liquid" THEN (IF cold /\ i # "lidar" THEN "cold" ELSE "warm") ELSE (IF extra THEN "ice1" ELSE "ice")
VARIABLES heap, slot, want, dirty, cache, n
vars == <<heap, slot, want, dirty, cache, n>>
Init == /\ heap = <<>> /\ slot = [i \in Insts |-> [m \in Names |-> 0]] /\ want = [i \in Insts |-> <<>>]
        /\ dirty = {} /\ cache = [f \in {"cold", "warm", "ice", "ice1"} |-> 0] /\ n = 0
\* files hold micrometres (exponent 0); the simulator works in metres (exponent 1)
Load(i, cold, extra) ==
  LET askedCold == IF Bug = "positional" /\ i = "lidar" /\ extra THEN FALSE ELSE cold
      gotExtra == IF Bug = "positional" /\ i = "lidar" THEN FALSE ELSE extra
      fl == FileOf("liquid", i, askedCold, gotExtra)
      fi == FileOf("ice", i, askedCold, gotExtra)
      hit(f) == Bug = "cached" /\ cache[f] # 0
      keep == Bug = "stale" /\ slot[i]["liquid"] # 0
      a == IF hit(fl) THEN cache[fl] ELSE IF keep THEN slot[i]["liquid"] ELSE Len(heap) + 1
      h1 == IF hit(fl) \/ keep THEN heap ELSE Append(heap, [kind |-> fl, exp |-> 1, scribbled |-> FALSE])
      b == IF hit(fi) THEN cache[fi] ELSE Len(h1) + 1
      h2 == IF hit(fi) THEN [h1 EXCEPT ![b].exp = @ + 1]
            ELSE Append(h1, [kind |-> fi, exp |-> IF Bug = "twice" THEN 2 ELSE 1, scribbled |-> FALSE])
  IN /\ heap' = h2
     /\ slot' = [slot EXCEPT ![i] = [liquid |-> a, ice |-> b, ice_bulk |-> b]]
     /\ want' = [want EXCEPT ![i] = <<cold, extra>>]
     /\ cache' = [cache EXCEPT ![fl] = a, ![fi] = b]
     /\ dirty' = dirty \ {i}
Scribble(i) == /\ want[i] # <<>>
               /\ \E m \in Names : heap' = [heap EXCEPT ![slot[i][m]].scribbled = TRUE]
               /\ dirty' = dirty \cup {i} /\ UNCHANGED <<slot, want, cache>>
Next == /\ n < Steps /\ n' = n + 1
        /\ \E i \in Insts : Scribble(i) \/ \E c, x \in BOOLEAN : Load(i, c, x)
Spec == Init /\ [][Next]_vars
Built == {i \in Insts : want[i] # <<>>}
Right == \A i \in Built : \A m \in Names :
           heap[slot[i][m]].kind = FileOf(IF m = "ice_bulk" THEN "ice" ELSE m, i, want[i][1], want[i][2])
Metres == \A i \in Built : \A m \in Names : heap[slot[i][m]].exp = 1
Own == \A i \in Built \ dirty : \A m \in Names : ~heap[slot[i][m]].scribbled
OneTable == \A i \in Built : slot[i]["ice"] = slot[i]["ice_bulk"]
================================================================================
