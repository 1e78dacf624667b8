------------------------------- MODULE PhaseCosp -------------------------------
(* Cloud phase as a space-borne lidar retrieval would diagnose it (Cesana and *)
(* Chepfer 2013).  Layers in beam order: scattering ratio sr, side of the     *)
(* phase discrimination curve (ice = cross-polarized signal above it) and     *)
(* temperature t.                                                             *)
EXTENDS Num
Liquid == 1
Ice == 2
Undefined == 3
Warm == 273150        \* millikelvin
Cold == 233150
\* behind the first strongly attenuating layer of the beam
Hidden(sr, i, thr) == \E j \in 1..i-1 : sr[j] > thr
Phase(sr, ice, t, i, cloud, thr) ==
  IF ~(sr[i] > cloud) THEN 0
  ELSE IF Hidden(sr, i, thr) THEN Undefined
  ELSE IF t[i] > Warm THEN Liquid
  ELSE IF t[i] < Cold THEN Ice
  ELSE IF ice[i] THEN Ice ELSE Liquid
=============================================================================
