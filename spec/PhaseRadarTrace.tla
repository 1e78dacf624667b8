---------------------------- MODULE PhaseRadarTrace ----------------------------
EXTENDS PhaseRadar, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
C == T.cell[k]
Rep(v) == IF v = 0 /\ T.nan THEN Nan ELSE v
In == Inside(C.z, T.rng)
OK(ze, cl, m) == m = Rep(Sounding(ze, C.zmin, cl, In))
Clauses ==
     (IF C.ms = Missing - 1 \/ OK(C.zs, C.cs, C.ms) THEN {} ELSE {"stratiform_class"})
  \cup (IF ~T.conv \/ OK(C.zc, C.cc, C.mc) THEN {} ELSE {"convective_class"})
  \cup (IF OK(C.zt, C.cs \/ (T.conv /\ C.cc), C.mt) THEN {} ELSE {"combined_class"})
Init == tid \in 1..Len(Traces) /\ k = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].cell))
        /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {}) \cup
                 (IF Traces[tid].changed # <<>> THEN {"nothing_else_changes"} ELSE {})
Next == \/ k > 0 /\ bad' = bad \cup Clauses /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
