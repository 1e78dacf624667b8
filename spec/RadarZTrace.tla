----------------------------- MODULE RadarZTrace ------------------------------
EXTENDS RadarZ, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
C == T.cell[k]
Conv == IF T.conv THEN C.conv ELSE C.strat
Clauses == Broken(CloudOK(C.strat, C.gas)) \cup (IF T.conv THEN Broken(CloudOK(C.conv, C.gas)) ELSE {})
  \cup Broken(TotalOK(T.conv, C.strat, Conv, C.tot, C.gas))
  \cup Broken(MaskOK(C.zmin, C.tot)) \cup Broken(RangeOK(C.zmin, T.zmin1, C.l20, T.lref))
TwinC == UNION {Broken(TwinOK(T.twin[j].z, T.twin[j].b, T.twin[j].c)) : j \in 1..Len(T.twin)}
Init == tid \in 1..Len(Traces) /\ k = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].cell))
        /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {})
Next == \/ k > 0 /\ bad' = bad \cup Clauses /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED tid /\ bad' = bad \cup (IF T.err # "" THEN {} ELSE TwinC)
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad'))
Spec == Init /\ [][Next]_vars
=============================================================================
