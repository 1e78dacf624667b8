-------------------------------- MODULE Load ---------------------------------
(* What a model class must find in a file: the variable behind every role of  *)
(* every hydrometeor class, and what becomes of it.  fam: E3SM (all versions  *)
(* and CESM2), ModelE, DHARMA, WRF-nssl, WRF-mor.                             *)
EXTENDS Integers, Sequences, FiniteSets
Liquid(x) == x \in {"cl", "pl"}
Precip(x) == x \in {"pl", "pi"}
Hyds(fam, rain, oneice, gr, two) ==
  CASE fam = "E3SM" -> <<"cl", "ci">> \o (IF rain THEN <<"pl">> ELSE <<>>) \o (IF oneice THEN <<>> ELSE <<"pi">>)
    [] fam = "ModelE" -> <<"cl", "ci", "pl", "pi">>
    [] fam = "DHARMA" -> <<"cl", "ci", "pl", "pi">> \o (IF two THEN <<"pir">> ELSE <<>>)
    [] fam = "WRF-mor" -> <<"cl", "ci", "pl", "pi">> \o (IF gr THEN <<"gr">> ELSE <<>>)
    [] fam = "WRF-nssl" -> <<"cl", "ci", "pl", "sn", "gr", "ha">>
E3 == [N  |-> [cl |-> "NUMLIQ", ci |-> "NUMICE", pl |-> "NUMRAI", pi |-> "NUMSNO"],
       qs |-> [cl |-> "CLDLIQ", ci |-> "CLDICE", pl |-> "RAINQM", pi |-> "SNOWQM"],
       fs |-> [cl |-> "FREQL", ci |-> "FREQI", pl |-> "FREQR", pi |-> "FREQS"],
       fsr |-> [cl |-> "CLOUD", ci |-> "CLOUD", pl |-> "FREQR", pi |-> "FREQS"],
       res |-> [cl |-> "AREL", ci |-> "AREI", pl |-> "ADRAIN", pi |-> "ADSNOW"]]
ModE == [N  |-> [cl |-> "ncl", ci |-> "nci", pl |-> "npl", pi |-> "npi"],
         qs |-> [cl |-> "qcl", ci |-> "qci", pl |-> "qpl", pi |-> "qpi"],
         qc |-> [cl |-> "QCLmc", ci |-> "QCImc", pl |-> "QPLmc", pi |-> "QPImc"],
         fs |-> [cl |-> "cldsscl", ci |-> "cldssci", pl |-> "cldsspl", pi |-> "cldsspi"],
         fc |-> [cl |-> "cldmccl", ci |-> "cldmcci", pl |-> "cldmcpl", pi |-> "cldmcpi"],
         fsr |-> [cl |-> "cldssr", ci |-> "cldssr", pl |-> "cldssr", pi |-> "cldssr"],
         fcr |-> [cl |-> "cldmcr", ci |-> "cldmcr", pl |-> "cldmcpl", pi |-> "cldmcpi"],
         res |-> [cl |-> "re_sscl", ci |-> "re_ssci", pl |-> "re_sspl", pi |-> "re_sspi"],
         rec |-> [cl |-> "re_mccl", ci |-> "re_mcci", pl |-> "re_mcpl", pi |-> "re_mcpi"]]
WrfQ == [cl |-> "QCLOUD", ci |-> "QICE", pl |-> "QRAIN", pi |-> "QSNOW", sn |-> "QSNOW", gr |-> "QGRAUP", ha |-> "QHAIL"]
WrfN == [cl |-> "QNCLOUD", ci |-> "QNICE", pl |-> "QNRAIN", pi |-> "QNSNOW", sn |-> "QNSNOW", gr |-> "QNGRAUPEL",
         ha |-> "QNHAIL"]
WrfR == [cl |-> "REFC", ci |-> "REFI", pl |-> "REFR", sn |-> "REFS", gr |-> "REFG", ha |-> "REFH"]
DhQ(r, x) == CASE r = "N" -> "n" \o x [] r = "qs" -> "q" \o x [] r = "res" -> "re_strat_" \o x
               [] r \in {"fs", "fsr"} -> "strat_" \o x \o "_frac" [] OTHER -> "0"
\* "0": nothing there (a field of zeros); "-": not promised
Source(fam, r, x) ==
  CASE fam = "E3SM" -> IF r \in DOMAIN E3 THEN E3[r][x] ELSE "0"
    [] fam = "ModelE" -> ModE[r][x]
    [] fam = "DHARMA" -> DhQ(r, x)
    [] fam \in {"WRF-mor", "WRF-nssl"} ->
         CASE r = "N" -> IF x = "cl" /\ fam = "WRF-nssl" THEN "QNDROP" ELSE WrfN[x]
           [] r = "qs" -> WrfQ[x]
           [] r \in {"fs", "fsr"} -> IF x \in {"cl", "ci"} THEN "cloud" ELSE "present"
           [] r = "dens" -> "density"
           [] r = "res" -> IF fam = "WRF-nssl" THEN WrfR[x] ELSE "-"
           [] r = "rec" -> "-"
           [] OTHER -> "0"
\* what is done with it
Becomes(fam, r, x) ==
  CASE Source(fam, r, x) \in {"0", "-", "cloud", "present", "density"} -> Source(fam, r, x)
    [] r = "N" /\ fam \in {"E3SM", "WRF-mor", "WRF-nssl"} -> "per_volume"
    [] r = "res" /\ fam = "E3SM" -> IF Precip(x) THEN "half_um" ELSE "no_zeros"
    [] OTHER -> "same"
\* the output times wanted: half-open; a window without any is ignored
Window(times, t0, t1) ==
  LET w == {i \in 1..Len(times) : times[i] >= t0 /\ times[i] < t1} IN
  IF (t0 = t1 /\ t0 < 0) \/ w = {} THEN 1..Len(times) ELSE w
=============================================================================
