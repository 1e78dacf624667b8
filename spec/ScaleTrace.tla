----------------------------- MODULE ScaleTrace ------------------------------
(* Recorded pairs of calculations on the same scene before (a) and after (b)  *)
(* its content was multiplied by T.lf (natural logarithm), for all classes or *)
(* for the class T.which; and values of the empirical laws.                   *)
(* E.k   prop: proportional to the content of the class(es) it comes from     *)
(*       db:   the same in decibels (1e-5 dB)     loss: ln of a transmittance *)
(*       same: not affected      grow: a sum over classes, never smaller      *)
(*       zl, zr, zi: empirical reflectivity (1e-5 dB) of cloud, rain, ice     *)
(*       al, ai: empirical extinction of liquid, ice; ab: backscatter         *)
EXTENDS Scale, Num, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
Tol == 40
\* decibels of a natural logarithm, both in the units of the record: 10 / ln 10 = 4.342945
LnToDb(x) == (x * 4) \div 10 + (x * 3) \div 100 + (x * 4) \div 1000 + (x * 2) \div 10000 + (x * 9) \div 100000 + (x * 4) \div 1000000
None(x) == x = Nan \/ x = Zero \/ x = -Inf
Aff(x) == T.which = "all" \/ E.c = T.which
\* Hogan et al. (2006): ten times the logarithm of water content against reflectivity in dB and temperature;
\* slope of the law in 1e-6 per dB, T in 0.01 C, constants in 1e-8
Slope(t) == CASE E.band = "S" -> 60000
              [] E.band = "W" -> 92300 + (580 * t) \div 100
              [] OTHER -> 69900 + (242 * t) \div 100
Rhs(w, t) == CASE E.band = "S" -> 100 * w + 19700 * t + 170000000
               [] E.band = "W" -> 100 * w + 7060 * t + 99200000
               [] OTHER -> 100 * w + 18600 * t + 163000000
Clauses ==
  IF E.err # "" THEN {"call_completes"} ELSE
  CASE E.k = "prop" -> IF (IF None(E.a) \/ None(E.b) THEN None(E.a) /\ None(E.b)
                           ELSE Near(E.b, E.a + (IF Aff(E) THEN T.lf ELSE 0), Tol)) THEN {}
                       ELSE {IF Aff(E) THEN "proportional_to_content" ELSE "other_classes_unaffected"}
    [] E.k = "db" -> IF (IF None(E.a) \/ None(E.b) THEN None(E.a) /\ None(E.b)
                         ELSE Near(E.b, E.a + (IF Aff(E) THEN LnToDb(T.lf) ELSE 0), 30)) THEN {}
                     ELSE {IF Aff(E) THEN "proportional_to_content" ELSE "other_classes_unaffected"}
    [] E.k = "same" -> IF (None(E.a) /\ None(E.b)) \/ Near(E.a, E.b, Tol) THEN {} ELSE {"intensive_moments_unchanged"}
    [] E.k = "grow" -> IF None(E.a) \/ E.b >= E.a - Tol THEN {} ELSE {"never_less_with_more"}
    [] E.k = "zl" -> IF (IF E.w = Zero THEN None(E.b) ELSE Near(E.b, LnToDb((E.w * 39) \div 25) - 1508638, 60)) THEN {}
                     ELSE {"cloud_water_power_law"}
    [] E.k = "zr" -> IF (IF E.w = Zero THEN None(E.b) ELSE Near(E.b, LnToDb(((E.w + 5683979) * 7) \div 4), 60)) THEN {}
                     ELSE {"rain_power_law"}
    [] E.k = "zi" -> IF (IF E.w = Zero THEN None(E.b)
                         ELSE IsNum(E.b) /\ Abs((E.b \div 1000) * Slope(E.t) - Rhs(E.w, E.t)) <= 2 * Slope(E.t)) THEN {}
                     ELSE {"ice_power_law"}
    [] E.k = "al" -> IF (IF E.w = Zero THEN E.b = Zero ELSE Near(E.b, 405465 + E.w - E.lr, Tol)) THEN {}
                     ELSE {"liquid_extinction_law"}
    [] E.k = "ai" -> IF (IF E.w = Zero THEN E.b = Zero
                         ELSE IsNum(E.b) /\ Abs((E.b \div 1000) * (E.be \div 100) - (E.w - E.la) * 10) <= 40000) THEN {}
                     ELSE {"ice_extinction_law"}
    \* the size implied by mass and extinction of ice that is not thinner than 1e-7 kg/m3: 1 micrometre to 1 millimetre
    [] E.k = "size" -> IF E.w = Zero \/ E.w < -16118096 \/ (E.s >= -13815511 /\ E.s <= -6907755) THEN {} ELSE {"ice_size_plausible"}
    [] E.k = "ab" -> IF (IF E.a = Zero THEN E.b = Zero ELSE Near(E.b, E.a - E.lr, Tol)) THEN {} ELSE {"backscatter_by_lidar_ratio"}
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
