---------------------------- MODULE PhaseLidarTrace ----------------------------
EXTENDS PhaseLidar, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
C == T.cell[k]
Un == IF T.nan THEN Nan ELSE 0
Rep(v) == IF v = 0 THEN Un ELSE v
OK(p, m) == m \in {Rep(v) : v \in Verdicts(T.cs, p[1], p[2], p[3], T.ext, T.remove)}
Name == <<"stratiform_class", "convective_class", "combined_class">>
Clauses == {Name[j] : j \in {i \in 1..3 : C.p[i] # <<>> /\ ~OK(C.p[i], C.m[i])}}
Extra == (IF T.err = "" /\ T.refuse THEN {"refused_without_thresholds"} ELSE {})
  \cup (IF T.err # "" /\ ~T.refuse THEN {"call_completes"} ELSE {})
  \cup (IF T.changed # <<>> THEN {"nothing_else_changes"} ELSE {})
  \cup (IF T.legend THEN {} ELSE {"legend_names_classes"})
Init == tid \in 1..Len(Traces) /\ k = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].cell)) /\ bad = {}
Next == \/ k > 0 /\ bad' = bad \cup Clauses /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED tid /\ bad' = bad \cup Extra
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad'))
Spec == Init /\ [][Next]_vars
=============================================================================
