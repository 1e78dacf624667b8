---------------------------- MODULE RadarBeamTrace ----------------------------
(* Recorded radar transmittances, walked layer by layer along the beam.      *)
(* Everything is the logarithm of a two-way transmittance on a linear scale  *)
(* chosen per profile (tol is the float noise on it): lt with all requested  *)
(* classes, cls[x] with class x alone, tw minus twice the optical depth a    *)
(* lidar with the same scattering tables sees.  pres: does the layer hold a  *)
(* class that attenuates.  up/dn/zh: the same in height order from below and *)
(* from above.  kap, ga: gaseous attenuation (1e-6 dB/km) and transmittance  *)
(* (1e-6 dB).  wet, kf: water content and attenuation per water content when *)
(* the relation is empirical.                                                *)
EXTENDS Beam, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, p, i, acc, bad
vars == <<tid, p, i, acc, bad>>
T == Traces[tid]
P == T.prof[p]
NL == Len(P.z)
N == Len(P.lt)                    \* 0 when nothing attenuates anywhere in the profile

AllSum(j) == SumSeq([x \in 1..Len(P.cls) |-> P.cls[x][j]])
Clear(j)  == P.pres[j] = 0
FirstOK == i = 1 => P.lt[1] = 0 /\ P.ga[1] = 0 /\ (\A x \in 1..Len(P.cls) : P.cls[x][1] = 0)
FallOK  == i > 1 => P.lt[i] <= P.lt[i-1] + P.tol /\ P.ga[i] <= P.ga[i-1] + 1
ClearOK == i > 1 /\ Clear(i - 1) => Near(P.lt[i], P.lt[i-1], 2 * P.tol)
AddOK   == Near(P.lt[i], AllSum(i), P.tol * (Len(P.cls) + 1) + 100)
TwinOK  == Len(P.tw) = 0 \/ Near(P.lt[i], P.tw[i], P.tol * 2 + 300)
\* what layer i took, seen from below and from above
SidesOK == i > 1 /\ i < NL =>
  LET up == (P.up[i+1] - P.up[i]) \div 100   dn == (P.dn[i-1] - P.dn[i]) \div 100
      du == Abs(P.zh[i+1] - P.zh[i])         dd == Abs(P.zh[i] - P.zh[i-1])
  IN Near(up * dd, dn * du, (P.tol \div 50 + 3) * (du + dd))
\* twice the gaseous attenuation accumulated so far, in 1e-6 dB
Acc == IF i = 1 THEN 0 ELSE acc + (2 * ((P.kap[i-1] * Path(P.z, i)) \div 100)) \div 10
GasOK == Near(P.ga[i], -Acc, 4 + 3 * i)
\* empirical: a layer takes twice kf * water content per length (scaled alike)
EmpOK == P.emp = 1 /\ i > 1 =>
  Near((P.lt[i-1] - P.lt[i]) \div 100, (P.wet[i-1] * Path(P.z, i)) \div 100, 3 + P.tol \div 50 + Path(P.z, i) \div 100)
Clauses == (IF FirstOK THEN {} ELSE {"first_layer_unattenuated"})
      \cup (IF FallOK THEN {} ELSE {"never_recovers_along_the_beam"})
      \cup (IF ClearOK THEN {} ELSE {"clear_layer_does_not_attenuate"})
      \cup (IF AddOK THEN {} ELSE {"every_class_contributes"})
      \cup (IF TwinOK THEN {} ELSE {"follows_extinction"})
      \cup (IF SidesOK THEN {} ELSE {"same_layer_from_both_sides"})
      \cup (IF GasOK THEN {} ELSE {"gaseous_transmittance"})
      \cup (IF EmpOK THEN {} ELSE {"empirical_relation"})

Init == tid \in 1..Len(Traces) /\ p = 1 /\ i = 1 /\ acc = 0 /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {})
Next == \/ p >= 1 /\ p <= Len(T.prof) /\ bad' = bad \cup Clauses /\ UNCHANGED tid
           /\ IF i < NL THEN i' = i + 1 /\ p' = p /\ acc' = Acc ELSE i' = 1 /\ p' = p + 1 /\ acc' = 0
        \/ p = Len(T.prof) + 1 /\ p' = 0 /\ UNCHANGED <<tid, i, acc, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
