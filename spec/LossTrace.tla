------------------------------- MODULE LossTrace -------------------------------
(* Recorded loss-of-signal masks: per case a threshold and beams (beam order) *)
(* with the depth reached in every layer and the mask reported.  The clauses  *)
(* walk along the beam, layer by layer.                                       *)
EXTENDS Beam, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, b, i, bad
vars == <<tid, b, i, bad>>
T == Traces[tid]
B == T.beam[b]
M == B.mask[i]
Next1(s) == IF i < Len(B.od) THEN s[i + 1] ELSE 0
Clauses ==
     (IF (M = 2) = Lost(B.od, T.thr, i) THEN {} ELSE {"extinct_where_depth_exceeds_threshold"})
  \cup (IF (M = 1) = (LossMask(B.od, T.thr, i) = 1) THEN {} ELSE {"one_marks_last_layer_before_loss"})
  \cup (IF M \in {0, 1, 2} THEN {} ELSE {"mask_values"})
Init == tid \in 1..Len(Traces) /\ b = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].beam)) /\ i = 1
        /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {}) \cup
                 (IF Traces[tid].changed # <<>> THEN {"nothing_else_changes"} ELSE {})
Next == \/ b > 0 /\ bad' = bad \cup Clauses /\ UNCHANGED tid
           /\ IF i < Len(B.od) THEN i' = i + 1 /\ b' = b ELSE i' = 1 /\ b' = b - 1
        \/ b = 0 /\ b' = -1 /\ UNCHANGED <<tid, i, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
