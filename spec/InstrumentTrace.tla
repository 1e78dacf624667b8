---------------------------- MODULE InstrumentTrace ----------------------------
(* Recorded sessions with instruments and their scattering tables.            *)
(* Values are natural logarithms in 1e-6.                                     *)
EXTENDS Num, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, st, bad
vars == <<tid, k, st, bad>>
T == Traces[tid]
E == T.ev[k]
LnPi == 1144730
Ln2 == 693147
Ln10 == 2302585
LnC == 19518604
Micro == -13815511
Micro2 == -27631021
Micro3 == -41446532

\* ------------------------------------------------------------ the instruments
\* f: frequency in MHz or w: wavelength in nm; ext: optical depth of full extinction; sfc: counted from the ground
L(w, str, sfc, eta, thr) == [w |-> w, f |-> 0, str |-> str, kind |-> "lidar", kw |-> Nan, ext |-> 4, sfc |-> sfc, eta |-> eta, thr |-> thr]
R(f, str, kw) == [w |-> 0, f |-> f, str |-> str, kind |-> "radar", kw |-> kw, ext |-> Nan, sfc |-> TRUE, eta |-> Nan, thr |-> FALSE]
Known ==
  [CSAPR |-> R(6250, "CSAPR", 93), XSACR |-> R(9710, "XSACR", 93), KAZR |-> R(34860, "KAZR", 88), WACR |-> R(95040, "WACR", 84),
   MWACR |-> R(95040, "WACR", 84), BASTA |-> R(95040, "WACR", 84), NEXRAD |-> R(3000, "NEXRAD", 92),
   RL |-> L(355, "RL", TRUE, 100, TRUE), HSRL |-> L(532, "HSRL", TRUE, 100, TRUE), MPL |-> L(532, "HSRL", TRUE, 100, TRUE),
   CALIOP |-> L(532, "HSRL", FALSE, 70, TRUE), CEIL |-> L(910, "CEIL", TRUE, 100, FALSE),
   Ten64nm |-> L(1064, "1064nm", TRUE, 100, FALSE), HSRL1064 |-> L(1064, "1064nm", TRUE, 100, FALSE)]
\* sensitivity at 1 km in 1/100 dBZ and 3 dB beam width in 1/1000 degree; the radars at the sites
Sites == [KAZR |-> [sgp |-> <<-5150, 200>>, ena |-> <<-5650, 310>>, nsa |-> <<-4850, 310>>, awr |-> <<-4550, 310>>, mos |-> <<-4160, 310>>],
          WACR |-> [sgp |-> <<-4600, 190>>, awr |-> <<-4000, 380>>, mos |-> <<-4000, 380>>, micre |-> <<-3600, 380>>]]
Anywhere == [CSAPR |-> <<-3500, 900>>, XSACR |-> <<-3000, 1400>>, NEXRAD |-> <<-5096, 925>>]
SiteTable(c) == IF c \in {"WACR", "MWACR", "BASTA"} THEN Sites.WACR ELSE Sites.KAZR
AtSites(c) == c \in {"KAZR", "WACR", "MWACR", "BASTA"}
Refused == AtSites(E.cls) /\ E.site \notin DOMAIN SiteTable(E.cls)

\* ---------------------------------------------------------------- the tables
Dark == {"RL", "HSRL"}      \* one liquid table for all temperatures
Water(s, cold) == IF cold /\ s \notin Dark THEN "liq_c" ELSE "liq"
FileOf(slot, i) ==
  LET s == Known[i.cls].str
      w == Water(s, i.cold)
  IN CASE slot \in {"mie/cl", "mie/pl"} -> "Mie" \o s \o "_" \o w
       [] slot = "mie/ci" -> "Mie" \o s \o "_ci"
       [] slot = "mie/pi" -> "Mie" \o s \o (IF i.extra THEN "_pi1" ELSE "_pi")
       [] slot = "scat/E3_ice" -> "C6_" \o s \o "_8col_agg_rough_270K"
       [] slot = "scat/CESM_ice" -> "mDAD_" \o s \o "_ice"
       [] slot = "bulk/E3_ice" -> "bulk_" \o s \o "_C6PSD_c6_8col_ice_agg_rough_270K"
       [] slot = "bulk/E3_liq" -> "bulk_" \o s \o "_C6PSD_mie_" \o w
       [] slot = "bulk/mie_ice_E3_PSD" -> "bulk_" \o s \o "_C6PSD_mie_ice"
       [] slot = "bulk/CESM_ice" -> "bulk_" \o s \o "_mDAD_mDAD_ice_263K"
       [] slot \in {"bulk/CESM_liq", "bulk/p3_liq"} -> "bulk_" \o s \o "_mDAD_mie_" \o w
       [] slot = "bulk/mie_ice_CESM_PSD" -> "bulk_" \o s \o "_mDAD_mie_ice"
       [] OTHER -> "emc2_p3_ice_lut_abrv_full_" \o s
Slots == {"mie/cl", "mie/pl", "mie/ci", "mie/pi", "scat/E3_ice", "scat/CESM_ice", "scat/p3_ice", "bulk/E3_ice", "bulk/E3_liq", "bulk/mie_ice_E3_PSD",
          "bulk/CESM_ice", "bulk/CESM_liq", "bulk/mie_ice_CESM_PSD", "bulk/p3_ice", "bulk/p3_liq", "bulk/mie_ice_P3_PSD"}

\* ------------------------------- what the columns of the files become (SI units)
Lengths == {"p_diam", "p_diam_eq_A", "p_diam_eq_V", "p_diam_eq_VdivA"}
CrossSections == {"alpha_p", "beta_p", "scat_p", "beta_p_cross", "A"}
Factor(kind, col, unit) ==
  CASE kind = "mie" /\ col = "p_diam" -> Micro + Ln2                        \* radius to diameter
    [] kind = "mie" /\ col = "beta_p" -> Micro2 - 2 * Ln2 - LnPi            \* per steradian
    [] kind = "mie" /\ col = "backscat_eff" -> -2 * Ln2 - LnPi
    [] kind \in {"mie", "c6", "mdad"} /\ col \in CrossSections -> Micro2
    [] kind \in {"c6", "mdad"} /\ col \in Lengths -> Micro
    [] kind \in {"c6", "mdad"} /\ col = "V" -> Micro3
    [] kind = "bulk_mdad" /\ col = "r_e" -> -Ln2                            \* half of the effective diameter
    [] kind = "p3" /\ unit = "um" -> Micro
    [] kind = "p3" /\ unit = "um2" -> Micro2
    [] kind = "p3" /\ unit = "um3" -> Micro3
    [] OTHER -> 0
Becomes(f, kind, col, unit) == IF IsNum(f) THEN f + Factor(kind, col, unit) ELSE f
Columns(kind, radar) ==
  LET c6 == {IF radar THEN "frequency" ELSE "wavelength", "p_diam", "p_diam_eq_A", "p_diam_eq_V", "V", "A", "beta_p", "scat_p", "alpha_p"}
  IN CASE kind = "mie" -> {"wavelength", "p_diam", "size_parameter", "compre_real", "compre_im", "scat_p", "alpha_p", "beta_p", "scat_eff", "ext_eff", "backscat_eff"}
       [] kind = "c6" -> c6 \cup {"beta_p_cross"}
       [] kind = "mdad" -> c6 \cup {"p_diam_eq_VdivA"}
       [] kind = "bulk_c6" -> {"r_e", "Q_scat", "Q_ext", "Q_back", "Q_back_cross", "LDR", "lidar_ratio"}
       [] OTHER -> {"D_e", "r_e", "Q_scat", "Q_ext", "Q_back", "lidar_ratio"}
UnitOf(kind, col) ==
  CASE col \in Lengths -> {"meters", "m"}
    [] col \in CrossSections -> {"meters^2", "m^2"}
    [] col = "V" -> {"meters^3", "m^3"}
    [] col \in {"wavelength", "r_e", "D_e"} -> {"microns", "micrometers", "um"}
    [] col = "frequency" -> {"GHz"}
    [] col \in {"backscat_eff", "Q_back", "Q_back_cross"} -> {"sr^-1"}
    [] col = "lidar_ratio" -> {"sr"}
    [] OTHER -> {"1"}
NewName(unit) == CASE unit = "um" -> "m" [] unit = "um2" -> "m2" [] unit = "um3" -> "m3" [] OTHER -> unit

Loaded == \* a table read from a file
  [columns_complete   |-> {E.cols[j].col : j \in 1..Len(E.cols)} = Columns(E.kind, E.radar),
   rows_kept          |-> \A j \in 1..Len(E.cols) : Len(E.cols[j].got) = Len(E.cols[j].file),
   column_in_its_unit |-> \A j \in 1..Len(E.cols) : LET c == E.cols[j] IN
                            \A r \in 1..Len(c.file) : r <= Len(c.got) => Near(c.got[r], Becomes(c.file[r], E.kind, c.col, ""), 4),
   unit_named         |-> \A j \in 1..Len(E.cols) : E.cols[j].unit \in UnitOf(E.kind, E.cols[j].col)]

\* --------------------------------------------------------- a built instrument
Tables(i, o) ==
  [tables_complete |-> {o.tables[j].slot : j \in 1..Len(o.tables)} = Slots,
   right_table     |-> \A j \in 1..Len(o.tables) : o.tables[j].slot \in i.dirty \/ FileOf(o.tables[j].slot, i) \in ToSet(o.tables[j].files),
   column_in_its_unit |-> \A j \in 1..Len(o.cols) : LET c == o.cols[j] IN c.slot \in i.dirty \/ Near(c.got, Becomes(c.file, c.kind, c.col, c.unit), 4),
   unit_named      |-> \A j \in 1..Len(o.cols) : LET c == o.cols[j] IN c.kind # "p3" \/ c.slot \in i.dirty \/ c.named = NewName(c.unit),
   fall_speeds_filled |-> "scat/p3_ice" \in i.dirty \/ (o.vt.kept /\ o.vt.rest = o.vt.least)]
Parameters(i, o) ==
  LET d == Known[i.cls] IN
  [what_it_is   |-> o.str = d.str /\ o.kind = d.kind,
   beam         |-> IF d.f # 0 THEN Near(o.freq, T.lnMHz[ToString(d.f)], 4) /\ Near(o.freq + o.wave, LnC, 4)
                    ELSE Near(o.wave, T.lnNm[ToString(d.w)], 4) /\ Near(o.freq + o.wave, LnC, 4),
   water_factor |-> o.kw = d.kw,
   extinction   |-> o.ext = d.ext /\ o.sfc = d.sfc /\ o.eta = d.eta,
   sensitivity  |-> IF d.kind = "lidar" THEN o.zmin = Nan /\ o.theta = Nan
                    ELSE <<o.zmin, o.theta>> = IF AtSites(i.cls) THEN SiteTable(i.cls)[i.site] ELSE Anywhere[i.cls],
   \* classes of particulate backscatter, from the faintest to the strongest at any depolarization
   thresholds   |-> IF ~d.thr THEN o.thr = <<>> ELSE
                    \A x \in 1..Len(o.thr) : LET w == o.thr[x] IN Len(w) = 4 /\ \A j \in 1..3 : w[j] <= w[j + 1]]
\* ------------------------------------------------- what the tables say of the beam
Physics ==
  LET Resolved(q) == IsNum(q) /\ q > -4605170 IN
  [wavelength_of_instrument |-> \A j \in 1..Len(E.mie) : Near(E.mie[j].lam, E.wave, 100000),
   index_of_liquid |-> \A j \in 1..Len(E.mie) : E.mie[j].liquid => Near(E.mie[j].re, E.re, 10000) /\ Near(E.mie[j].im, E.im, 50000),
   sizes_increase  |-> \A j \in 1..Len(E.sizes) : \A r \in 2..Len(E.sizes[j]) : E.sizes[j][r] > E.sizes[j][r - 1],
   size_parameter  |-> \A j \in 1..Len(E.mie) : \A r \in 1..Len(E.mie[j].rows) : LET w == E.mie[j].rows[r] IN Near(w.x, w.d + LnPi - E.mie[j].lam, 40),
   efficiency_times_area |-> \A j \in 1..Len(E.mie) : \A r \in 1..Len(E.mie[j].rows) : LET w == E.mie[j].rows[r]
                               area == 2 * w.d + LnPi - 2 * Ln2
                             IN /\ Resolved(w.qe) => Near(w.ext, w.qe + area, 20000)
                                /\ Resolved(w.qs) => Near(w.scat, w.qs + area, 20000)
                                /\ Resolved(w.qb) => Near(w.back, w.qb + area, 50000),
   extinction_covers_scattering |-> /\ \A j \in 1..Len(E.mie) : \A r \in 1..Len(E.mie[j].rows) : LET w == E.mie[j].rows[r] IN
                                         w.ext # Nan /\ w.scat # Nan /\ w.back # Nan /\ w.ext >= w.scat - 1000
                                    /\ \A j \in 1..Len(E.bulk) : \A r \in 1..Len(E.bulk[j]) : LET w == E.bulk[j][r] IN
                                         w[1] # Nan /\ w[2] # Nan /\ w[1] >= w[2] - 1000]
\* ---------------------------------------------------------------- any instrument
Beam ==
  [refuses_neither |-> (E.f = <<>> /\ E.w = <<>>) <=> E.err = "ValueError",
   beam            |-> E.err # "" \/ (/\ E.f = <<>> \/ Near(E.freq, E.f[1], 4)
                                      /\ E.w = <<>> \/ Near(E.wave, E.w[1], 4)
                                      /\ (E.f # <<>> /\ E.w # <<>>) \/ Near(E.freq + E.wave, LnC, 4))]

Fresh == [cls |-> E.cls, site |-> E.site, cold |-> E.cold, extra |-> E.extra, dirty |-> {}]
Clauses ==
  CASE E.op = "build" -> IF Refused THEN (IF E.err = "ValueError" THEN {} ELSE {"refuses_unknown_site"})
                         ELSE IF E.err # "" THEN {"call_completes"}
                         ELSE Broken(Tables(Fresh, E.obs)) \cup Broken(Parameters(Fresh, E.obs))
    [] E.op = "beam" -> IF E.err \in {"", "ValueError"} THEN Broken(Beam) ELSE {"call_completes"}
    [] E.err # "" -> {"call_completes"}
    [] E.op = "reload" -> Broken(Tables([st[E.id] EXCEPT !.cold = E.cold, !.extra = E.extra, !.dirty = {}], E.obs))
    [] E.op = "look" -> Broken(Tables(st[E.id], E.obs)) \cup Broken(Parameters(st[E.id], E.obs))
    [] E.op = "load" -> Broken(Loaded)
    [] E.op = "physics" -> Broken(Physics)
    [] E.op = "observe" -> IF E.same THEN {} ELSE {"observation_kept"}
    [] OTHER -> {}
\* a table has several names: who writes into one may reach the others of the same instrument, and no other instrument
Names(s) == CASE s \in {"scat/p3_ice", "bulk/p3_ice", "bulk/mie_ice_P3_PSD"} -> {"scat/p3_ice", "bulk/p3_ice", "bulk/mie_ice_P3_PSD"}
              [] s \in {"bulk/CESM_liq", "bulk/p3_liq"} -> {"bulk/CESM_liq", "bulk/p3_liq"}
              [] s \in {"mie/cl", "mie/pl"} -> {"mie/cl", "mie/pl"}
              [] OTHER -> {s}
After == CASE E.op = "build" -> IF Refused \/ E.err # "" THEN st ELSE Append(st, Fresh)
           [] E.op = "reload" -> [st EXCEPT ![E.id].cold = E.cold, ![E.id].extra = E.extra, ![E.id].dirty = {}]
           [] E.op = "scribble" -> [st EXCEPT ![E.id].dirty = @ \cup Names(E.slot)]
           [] OTHER -> st
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {} /\ st = <<>>
Step == k >= 1 /\ k <= Len(T.ev) /\ k' = k + 1 /\ bad' = bad \cup Clauses /\ st' = After /\ UNCHANGED tid
Done == /\ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad, st>>
        /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
