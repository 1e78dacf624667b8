-------------------------------- MODULE Tables -------------------------------
(* Which scattering table answers for which class, and how a signal is made   *)
(* from it: as a sum over particle sizes (microphysics logic) or by           *)
(* interpolation of a bulk efficiency times the area of the particles         *)
(* (radiation logic).                                                         *)
EXTENDS Integers, Sequences
Liquid == {"cl", "pl"}
IsLiq(x) == x \in Liquid
\* single particle tables; p3, p3_eq: ice of the P3 scheme as it is / as spheres of its volume
Single(fam, x, mie, hyb) ==
  IF IsLiq(x) THEN "mie:" \o x
  ELSE IF mie THEN (IF x = "ci" THEN "mie:ci" ELSE "mie:pi")
  ELSE CASE fam = "CESM" -> "CESM_ice" [] fam = "ModelE" -> "E3_ice"
         [] fam = "P3" -> IF hyb > 0 THEN "p3_eq" ELSE "p3"
\* tables of bulk efficiencies
Bulk(fam, x, mie) ==
  IF IsLiq(x) THEN (IF fam = "ModelE" THEN "E3_liq" ELSE "CESM_liq")
  ELSE CASE fam = "P3" -> IF mie THEN "p3_mie" ELSE "p3"
         [] fam = "CESM" -> IF mie THEN "mie_ice_CESM_PSD" ELSE "CESM_ice"
         [] fam = "ModelE" -> IF mie THEN "mie_ice_E3_PSD" ELSE "E3_ice"
\* whence the area of the particles: mass and effective radius, or the P3 table
Area(fam, x, mie, hyb) ==
  IF fam # "P3" \/ x # "ci" \/ hyb = 1 THEN "mass"
  ELSE IF hyb = 0 THEN "A_tot_norm" ELSE IF mie THEN "A_tot_Mie_norm" ELSE "A_tot_eq_V_norm"
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* sum over the sizes of number times cross section (times v)
Integral(n, b) == Sum([i \in DOMAIN n |-> n[i] * b[i]])
Weighted(n, b, v) == Sum([i \in DOMAIN n |-> n[i] * b[i] * v[i]])
\* linear interpolation on the nodes xs with values ys, held constant outside; the result is scaled by Den(xs, x)
Below(xs, x) == CHOOSE i \in 1..Len(xs) : xs[i] <= x /\ (i = Len(xs) \/ xs[i + 1] > x)
Den(xs, x) == IF x <= xs[1] \/ x >= xs[Len(xs)] THEN 1 ELSE xs[Below(xs, x) + 1] - xs[Below(xs, x)]
Interp(xs, ys, x) == IF x <= xs[1] THEN ys[1] ELSE IF x >= xs[Len(xs)] THEN ys[Len(xs)]
  ELSE LET i == Below(xs, x) IN ys[i] * (xs[i + 1] - x) + ys[i + 1] * (x - xs[i])
===============================================================================
