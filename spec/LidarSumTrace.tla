----------------------------- MODULE LidarSumTrace -----------------------------
EXTENDS LidarSum, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
C == T.cell[k]
Clauses == IF T.err # "" THEN {"call_completes"} ELSE
  Broken(CloudOK(C.strat)) \cup (IF T.conv THEN Broken(CloudOK(C.conv)) ELSE {})
  \cup Broken(TotalOK(T.conv, C.strat, IF T.conv THEN C.conv ELSE C.strat, C.tot))
Init == tid \in 1..Len(Traces) /\ k = (IF Traces[tid].err # "" THEN 1 ELSE Len(Traces[tid].cell)) /\ bad = {}
Next == \/ k > 0 /\ bad' = bad \cup Clauses /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
