----------------------------- MODULE PhaseCospTrace ----------------------------
(* Recorded retrievals.  A profile (one cloud type or the combination, beam   *)
(* order) has the signals reported (tot, crs) and those the published         *)
(* relations give for its classes (etot, ecrs), the scattering ratio sr and   *)
(* molecular signal mol, the distance gap of the cross-polarized signal from  *)
(* the discrimination curve (in 1e-6 of it), temperature t and the mask m.    *)
EXTENDS PhaseCosp, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, p, i, bad
vars == <<tid, p, i, bad>>
T == Traces[tid]
P == T.prof[p]
Rep(v) == IF v = 0 /\ T.nan THEN Nan ELSE v
Ice2(s) == [j \in 1..Len(P.gap) |-> IF Abs(P.gap[j]) <= 2 THEN s ELSE P.gap[j] > 0]
T2(s) == [j \in 1..Len(P.t) |-> IF T.conv_t /\ Abs(P.t[j] - Warm) <= 1 THEN Warm + s
                                ELSE IF T.conv_t /\ Abs(P.t[j] - Cold) <= 1 THEN Cold + s ELSE P.t[j]]
Allowed == {Rep(Phase(P.sr, Ice2(s), T2(u), i, T.cloud, T.thr)) : s \in BOOLEAN, u \in {-1, 0, 1}}
Clauses ==
     (IF P.m[i] \in Allowed THEN {} ELSE {P.what \o "_class"})
  \cup (IF Near(P.tot[i], P.etot[i], 100) /\ Near(P.crs[i], P.ecrs[i], 100) THEN {} ELSE {P.what \o "_signals"})
  \cup (IF Near(P.lsr[i], P.ltot[i] - P.lmol[i], 5) THEN {} ELSE {"scattering_ratio"})
  \cup (IF P.m2[i] = P.m[i] THEN {} ELSE {"saving_signals_changes_nothing"})
Extra == (IF T.err = "" /\ T.refuse THEN {"refused_for_other_instruments"} ELSE {})
  \cup (IF T.err # "" /\ ~T.refuse THEN {"call_completes"} ELSE {})
  \cup (IF T.changed # <<>> THEN {"nothing_else_changes"} ELSE {})
  \cup (IF T.surplus # <<>> THEN {"fields_only_on_request"} ELSE {})
Init == tid \in 1..Len(Traces) /\ p = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].prof)) /\ i = 1 /\ bad = {}
Next == \/ p > 0 /\ bad' = bad \cup Clauses /\ UNCHANGED tid
           /\ IF i < Len(P.sr) THEN i' = i + 1 /\ p' = p ELSE i' = 1 /\ p' = p - 1
        \/ p = 0 /\ p' = -1 /\ UNCHANGED <<tid, i>> /\ bad' = bad \cup Extra
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad'))
Spec == Init /\ [][Next]_vars
=============================================================================
