----------------------------- MODULE UnitsTrace ------------------------------
(* The same scene calculated with its atmosphere stored in several units.     *)
(* T.ev[1] is the reference; E.f: result field -> identity of its values      *)
(* (equal iff they agree to 1e-8); E.in: identity of the atmospheric fields   *)
(* before (E.in0) and after, with their units.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
Ref == T.ev[1]
Clauses ==
  IF E.err # "" \/ Ref.err # "" THEN {"call_completes"} ELSE
  (IF DOMAIN E.f = DOMAIN Ref.f THEN {} ELSE {"same_fields"}) \cup
  (IF \A x \in DOMAIN E.f \cap DOMAIN Ref.f : E.f[x] = Ref.f[x] THEN {} ELSE {"same_results_in_any_unit"}) \cup
  (IF E.in = E.in0 THEN {} ELSE {"atmosphere_untouched"})
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
