---------------------------- MODULE InCloudTrace -----------------------------
(* Recorded distributions of q and N, one step per grid cell.                *)
EXTENDS InCloud, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
C == T.cell[k]

Fr == UseFrac(T.rad, C.fm, C.fr, C.over)
Clauses ==
  CASE T.kind = "uniform" -> Broken(UniformOK(C.q, Fr, C.over, ToSet(C.s), C.v))
    [] T.kind = "number"  -> Broken(NumberOK(C.q, Fr, ToSet(C.s), C.v))
    [] T.kind = "single"  -> Broken(SingleQOK(C.q, Fr, C.over, C.v[1]))
    [] T.kind = "single_n" -> Broken(SingleNOK(C.q, Fr, C.v[1]))
    [] T.kind = "variable" -> Broken(VariableOK(C.m, ToSet(C.s), C.v, C.narrow, C.fin))
    [] T.kind = "spread"  -> Broken([ wide_pdf_varies |-> 2 * C.varied >= C.wide ])
    [] OTHER -> {"unknown_kind"}

Init == tid \in 1..Len(Traces) /\ k = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].cell))
        /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {})
Next == \/ k > 0 /\ bad' = bad \cup Clauses /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
