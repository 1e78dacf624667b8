----------------------------- MODULE ColumnTrace -----------------------------
(* Recorded runs of the simulator under schedules of ChunkMap, permuted and  *)
(* restricted columns: every run must be the reference run, column by column.*)
EXTENDS Digest, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
R == T.runs[k]

Clauses ==
  (IF R.err # "" THEN {"call_completes"} ELSE {}) \cup
  (IF R.err # "" \/ SameFields(T.ref, R.out) THEN {} ELSE {"same_fields"}) \cup
  (IF R.err # "" \/ SameUnder(T.ref, R.out, R.perm) THEN {}
   ELSE {CASE R.kind = "schedule" -> "schedule_independent"
           [] R.kind = "permute"  -> "columns_independent"
           [] R.kind = "subset"   -> "columns_independent"
           [] OTHER -> "subcolumns_independent"})

Init == tid \in 1..Len(Traces) /\ k = Len(Traces[tid].runs) /\ bad = {}
Next == \/ k > 0 /\ bad' = bad \cup Clauses /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
