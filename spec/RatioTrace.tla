------------------------------ MODULE RatioTrace -------------------------------
EXTENDS Ratio, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
C == T.cell[k]
Num1 == ToSet(T.num)
Den1 == ToSet(T.den)
Clauses == CASE T.kind = "frequency" ->
        (IF Freq(C.m, Num1, Den1, C.r) THEN {} ELSE {"frequency_ratio_counts_subcolumns"})
        \cup (IF Share(Num1, Den1, C.m, C.r) THEN {} ELSE {"ratio_between_0_and_1"})
  [] T.kind = "subcolumns" ->
        (IF \A i \in 1..Len(C.m) : MassCell(C.m, C.l, C.i, i, C.rs[i]) THEN {} ELSE {"mass_ratio_per_subcolumn"})
        \cup (IF MassSum(C.m, C.l, C.i, C.r) THEN {} ELSE {"mass_ratio_over_subcolumns"})
  [] OTHER -> IF RatioOK(C.l[1], C.l[1] + C.i[1], C.r) THEN {} ELSE {"mass_ratio_of_the_model"}
Init == tid \in 1..Len(Traces) /\ k = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].cell))
        /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {}) \cup
                 (IF Traces[tid].changed # <<>> THEN {"nothing_else_changes"} ELSE {})
Next == \/ k > 0 /\ bad' = bad \cup Clauses /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
