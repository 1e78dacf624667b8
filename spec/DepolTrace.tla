------------------------------ MODULE DepolTrace -------------------------------
EXTENDS Depol, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
C == T.cell[k]
BT == IF T.conv THEN Cat(C.s, C.c) ELSE C.s
LT == IF T.conv THEN Cat(T.tab, T.tab) ELSE T.tab
Clauses ==
     (IF RatioOK(C.s, T.tab, C.rs) THEN {} ELSE {"stratiform_ratio_is_weighted_mean"})
  \cup (IF T.conv => RatioOK(C.c, T.tab, C.rc) THEN {} ELSE {"convective_ratio_is_weighted_mean"})
  \cup (IF RatioOK(BT, LT, C.rt) THEN {} ELSE {"combined_ratio_is_weighted_mean"})
  \cup (IF Between(C.s, T.tab, C.rs) /\ Between(BT, LT, C.rt) THEN {} ELSE {"ratio_between_classes"})
Init == tid \in 1..Len(Traces) /\ k = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].cell))
        /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {}) \cup
                 (IF Traces[tid].changed # <<>> THEN {"nothing_else_changes"} ELSE {})
Next == \/ k > 0 /\ bad' = bad \cup Clauses /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
