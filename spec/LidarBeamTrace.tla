---------------------------- MODULE LidarBeamTrace ----------------------------
(* Recorded lidar profiles, walked layer by layer along the beam.            *)
(* par: extinction a and depth od (per class and total); mol: molecular      *)
(* extinction b (1e-10 per metre) and lt, the logarithm of the molecular     *)
(* two-way transmittance; sig: attenuated backscatter la (logarithm) with    *)
(* lsum = log(molecular + particulate backscatter) and o5 = depth in 1e-5.   *)
EXTENDS Beam, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, p, i, acc, bad
vars == <<tid, p, i, acc, bad>>
T == Traces[tid]
P == T.prof[p]
NL == Len(P.z)

DepthOK == \A q \in 1..Len(P.par) : StepOK(P.par[q].a, P.z, P.par[q].od, i, 1)
FirstOK == i = 1 => \A q \in 1..Len(P.par) : P.par[q].od[1] = 0
GrowOK  == i > 1 => \A q \in 1..Len(P.par) : P.par[q].od[i] >= P.par[q].od[i-1]
\* acc holds twice the molecular depth so far, in 1e-8
Acc == IF i = 1 THEN 0 ELSE acc + ((P.mol.b[i] + P.mol.b[i-1]) * Path(P.z, i)) \div 100
MolOK == Near(P.mol.lt[i], -(Acc \div 100), 3 + NL)
AttOK(s) == \/ s.o5[i] > 20000000                    \* nothing left to see
            \/ Near(s.la[i] \div 10, (s.lsum[i] + P.mol.lt[i]) \div 10 - (2 * P.eta10 * s.o5[i]) \div 10, 6)
Clauses == (IF DepthOK THEN {} ELSE {"depth_follows_extinction"})
      \cup (IF FirstOK THEN {} ELSE {"first_layer_has_no_depth"})
      \cup (IF GrowOK THEN {} ELSE {"depth_never_decreases"})
      \cup (IF MolOK THEN {} ELSE {"molecular_transmittance"})
      \cup (IF \A s \in ToSet(P.sig) : AttOK(s) THEN {} ELSE {"attenuated_backscatter"})

Init == tid \in 1..Len(Traces) /\ p = 1 /\ i = 1 /\ acc = 0 /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {})
Next == \/ p >= 1 /\ p <= Len(T.prof) /\ bad' = bad \cup Clauses /\ UNCHANGED tid
           /\ IF i < NL THEN i' = i + 1 /\ p' = p /\ acc' = Acc ELSE i' = 1 /\ p' = p + 1 /\ acc' = 0
        \/ p = Len(T.prof) + 1 /\ p' = 0 /\ UNCHANGED <<tid, i, acc, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
