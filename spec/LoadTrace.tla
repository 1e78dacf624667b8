------------------------------ MODULE LoadTrace ------------------------------
(* Files of every model read by its class.                                    *)
(* load: options, classes and families reported.                              *)
(* grid: for every place (columns slow, levels upwards fast) the cell <<time, *)
(*   column, level>> of the file that it was recognised as (0s: none); labels *)
(*   of the columns; what was asked for.                                      *)
(* field: x the file's values at the places, y the loaded ones (logarithms).  *)
EXTENDS Load, Num, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
Tol == 6
LoadOp ==
  IF E.refuse = 1 THEN [refuses_bad_window |-> E.err # ""]
  ELSE [call_completes |-> E.err = "",
        classes_of_the_model |-> E.err # "" \/ E.hyds = Hyds(E.fam, E.rain = 1, E.oneice = 1, E.gr = 1, E.two = 1),
        named |-> E.err # "" \/ (E.name = E.wname /\ E.rad = E.wrad /\ E.mic = E.wmic),
        file_untouched |-> E.same = 1]
\* columns wanted: those within the window of times and, if asked, within the box
Rows(lo, hi, a, b) == LET near(s, v) == CHOOSE i \in 1..Len(s) : /\ \A j \in 1..Len(s) : Abs(s[i] - v) <= Abs(s[j] - v)
                                                                 /\ \A j \in 1..(i - 1) : Abs(s[j] - v) > Abs(s[i] - v)
                      IN near(lo, a)..near(hi, b)
InBox(c) == CASE E.box.k = "none" -> TRUE
              [] E.box.k = "xy" -> /\ E.lat[c] >= E.box.a[2] /\ E.lat[c] <= E.box.a[4]
                                   /\ E.lon[c] >= E.box.a[1] /\ E.lon[c] <= E.box.a[3]
              [] E.box.k = "ll" ->
                   /\ ((c - 1) \div E.box.nx) + 1 \in Rows(E.box.latlo, E.box.lathi, E.box.a[1], E.box.a[3])
                   /\ ((c - 1) % E.box.nx) + 1 \in Rows(E.box.lonlo, E.box.lonhi, E.box.a[2], E.box.a[4])
H == E.H
NCol == Len(E.cells) \div H
Cell(i, j) == E.cells[(i - 1) * H + j]
Wanted == {<<t, c>> \in Window(E.times, E.t0, E.t1) \X (1..Len(E.lat)) : InBox(c)}
Upwards == E.fam = "E3SM"                      \* the file counts levels from above
Grid == [every_cell_from_the_file |-> \A n \in 1..Len(E.cells) : E.cells[n][1] > 0,
         columns_kept_together |-> \A i \in 1..NCol : \A j \in 1..H : SubSeq(Cell(i, j), 1, 2) = SubSeq(Cell(i, 1), 1, 2),
         levels_upwards |-> \A i \in 1..NCol : \A j \in 1..H : Cell(i, j)[3] = (IF Upwards THEN H + 1 - j ELSE j),
         exactly_the_columns_wanted |-> /\ {SubSeq(Cell(i, 1), 1, 2) : i \in 1..NCol} = Wanted
                                        /\ NCol = Cardinality(Wanted),
         labelled_as_in_the_file |-> \A i \in 1..Len(E.labels) : LET c == Cell(i, 1) l == E.labels[i] IN
              c[1] > 0 => /\ l[1] = Nan \/ l[1] = E.times[c[1]]
                          /\ l[2] = Nan \/ l[2] = E.lat[c[2]]
                          /\ l[3] = Nan \/ l[3] = E.lon[c[2]],
         level_axis_turned_over |-> \A j \in 1..Len(E.lev) : E.lev[j] = E.flev[IF Upwards THEN H + 1 - j ELSE j]]
Same(x, y) == \A i \in 1..Len(y) : Near(x[i], y[i], Tol)
Ln1e6 == 13815511
Ln2 == 693147
Ln100 == 4605170
LnR == 5659684                                 \* gas constant of dry air
ReadBy == E.name = Source(E.fam, E.role, E.x)
FieldR(b) ==
  CASE b = "same" -> [reads_its_variable |-> ReadBy, unchanged |-> Same(E.fx, E.y)]
    [] b = "per_volume" -> [reads_its_variable |-> ReadBy,
                            number_per_volume |-> \A i \in 1..Len(E.y) :
                               Near(E.y[i], LMul(E.fx[i], E.rho[i] - Ln1e6), Tol)]
    [] b = "half_um" -> [reads_its_variable |-> ReadBy,
                         radius_in_um |-> \A i \in 1..Len(E.y) : IF E.fx[i] = Zero THEN E.y[i] = Nan
                               ELSE Near(E.y[i], E.fx[i] + Ln1e6 - Ln2, Tol)]
    [] b = "no_zeros" -> [reads_its_variable |-> ReadBy,
                          radius_in_um |-> \A i \in 1..Len(E.y) : IF E.fx[i] = Zero THEN E.y[i] = Nan
                               ELSE Near(E.y[i], E.fx[i], Tol)]
    [] b = "0" -> [nothing_convective |-> \A i \in 1..Len(E.y) : E.y[i] = Zero]
    [] b = "-" -> [unchanged |-> TRUE]
    [] b = "cloud" -> [cloud_where_water |-> \A i \in 1..Len(E.y) :
                          E.y[i] = IF E.nu = 1 THEN E.cf[i] ELSE IF E.q[i] > E.cut THEN 0 ELSE Zero]
    [] b = "present" -> [cloud_where_water |-> \A i \in 1..Len(E.y) : E.y[i] = IF E.q[i] > E.cut THEN 0 ELSE Zero]
    [] b = "density" -> [density_of_particles |-> \A i \in 1..Len(E.y) :
                          Near(E.y[i], IF E.v[i] = Zero THEN E.full ELSE LDiv(E.q[i], E.v[i]), Tol)]
Field == IF E.role = "plain" THEN [unchanged |-> Same(E.fx, E.y)]
         ELSE IF E.role = "again" THEN [loaded_again_as_saved |-> Len(E.fx) = Len(E.y) /\ Same(E.fx, E.y)]
         ELSE FieldR(Becomes(E.fam, E.role, E.x))
\* pressures in 0.01 Pa
Air == [pressure |-> E.unit = "hPa" /\ \A i \in 1..Len(E.p) : Abs(E.p[i] - (E.pa[i] + E.pb[i])) <= 4 + E.p[i] \div 1000000,
        density |-> \A i \in 1..Len(E.p) : Near(E.rho[i], E.lp[i] + Ln100 - LnR - E.lt[i], Tol)]
\* cells with ice, cloud, crystals
Clip(a, lo, hi) == IF E.clip = 0 THEN a ELSE IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
P3 == [in_cloud_number |-> \A i \in 1..Len(E.N) : E.N[i] = Zero \/ E.f[i] = Zero \/
              Near(E.Ni[i], E.N[i] + E.rho[i] - E.f[i], Tol),
       rime_fraction |-> \A i \in 1..Len(E.q) : E.q[i] = Zero \/
              Near(E.Fr[i], Clip(LDiv(E.qr[i], E.q[i]), E.lo[1], E.hi[1]), Tol),
       rime_density |-> \A i \in 1..Len(E.q) : E.q[i] = Zero \/ (E.vr[i] = Zero /\ E.qr[i] # Zero) \/
              Near(E.rr[i], Clip(IF E.qr[i] = Zero THEN Zero ELSE LDiv(E.qr[i], E.vr[i]), E.lo[2], E.hi[2]), Tol),
       mass_per_crystal |-> \A i \in 1..Len(E.q) : E.q[i] = Zero \/ E.f[i] = Zero \/ E.N[i] = Zero \/
              Near(E.qn[i], Clip(E.q[i] - (E.N[i] + E.rho[i]), E.lo[3], E.hi[3]), Tol)]
\* the tables of the instrument: y is the value at a node (a = b), or half-way between two
Lut == [call_completes |-> E.err = "",
        tables_of_the_instrument |-> E.err # "" \/ Abs(2 * E.y - (E.a + E.b)) <= 4]
\* widths: mu = 0.076 (lambda in 1/cm)^0.8 - 2 within 0..6 (mu2: ln(mu + 2)), N0 = lambda^(mu + 1) / Gamma(mu + 1)
Ln2m == 693147
Ln8m == 2079442
Psd == [slope_from_the_table |-> Same(E.want, E.lam),
        shape_from_the_slope |-> \A i \in 1..Len(E.lam) : E.lam[i] = Nan \/
              LET x == (4 * (E.lam[i] - Ln100)) \div 5 - 2577022
              IN Near(E.mu2[i], IF x < Ln2m THEN Ln2m ELSE IF x > Ln8m THEN Ln8m ELSE x, Tol),
        normalised |-> \A i \in 1..Len(E.lam) : E.lam[i] = Nan \/
              Abs(E.n0[i] - ((E.lam[i] \div 1000) * (E.mu[i] + 1000) - E.gam[i])) <= 20000,
        scattering_choice_kept |-> E.has = E.hyb]
Clauses == CASE E.op = "lut" -> Broken(Lut) [] E.op = "psd" -> Broken(Psd) [] E.op = "load" -> Broken(LoadOp) [] E.op = "grid" -> Broken(Grid) [] E.op = "field" -> Broken(Field)
             [] E.op = "air" -> Broken(Air) [] E.op = "p3" -> Broken(P3)
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
==============================================================================
