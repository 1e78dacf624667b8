------------------------------ MODULE PhaseRadar -------------------------------
(* Radar-sounding classification of a cell: cloud liquid present or not (cl), *)
(* attenuated reflectivity ze against the minimum detectable one zmin (both   *)
(* in quarter decibels, Nan = none), within the requested heights or not.     *)
EXTENDS Num
Detectable(ze, zmin) == IsNum(ze) /\ ze >= zmin
Cloud == 1
Mixed == 2
Precip == 3
Sounding(ze, zmin, cl, inside) ==
  IF ~inside THEN 0
  ELSE IF Detectable(ze, zmin) THEN (IF cl THEN Mixed ELSE Precip) ELSE (IF cl THEN Cloud ELSE 0)
Inside(z, rng) == rng = <<>> \/ (z >= rng[1] /\ z <= rng[2])
=============================================================================
