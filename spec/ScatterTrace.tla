----------------------------- MODULE ScatterTrace -----------------------------
(* Recorded requests for the scattering of spheres and for the refractive     *)
(* index of water and ice.  Sizes, beams, efficiencies and cross sections are  *)
(* natural logarithms in 1e-6; the rest are fixed-point numbers as named.     *)
EXTENDS Num, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, st, bad
vars == <<tid, k, st, bad>>
T == Traces[tid]
E == T.ev[k]
LnPi == 1144730
Ln2 == 693147
Ln3 == 1098612

\* ------------------------------------------------------ permittivity, in 1e-3
\* of water by the double Debye law of Meissner and Wentz; t in Celsius, f in 0.01 GHz
\* the constants of the law in 1e-2
ES(t) == ((3708860 - 8217 * t) * 100) \div (42185 + 100 * t)
E1(t) == (57230 + 224 * t - 7 * t * t - (t * t * 12) \div 100) \div 100
EI(t) == (36143 + 288 * t + (t * 4) \div 10) \div 100
\* frequency over relaxation frequency, in 1e-3
R1(t, f) == ((f * ((50478 - 703 * t - (t * 15) \div 100 + 6 * t * t) \div 10)) \div (45 + t)) \div 100
R2(t, f) == ((f * (1365 + (148 * t) \div 10 + (24166 * t * t) \div 10000)) \div (45 + t)) \div 1000
Lorentz(r) == (1000000 + r * r) \div 100                                          \* 1 + r^2 in 1e-4
Part(a, r) == (a * 100000) \div Lorentz(r)                                        \* a / (1 + r^2) in 1e-3
WaterRe(t, f) == Part(ES(t) - E1(t), R1(t, f)) + Part(E1(t) - EI(t), R2(t, f)) + 10 * EI(t)
WaterIm(t, f) == (Part(ES(t) - E1(t), R1(t, f)) * R1(t, f)) \div 1000 + (Part(E1(t) - EI(t), R2(t, f)) * R2(t, f)) \div 1000
\* of ice of a density in 0.01 g cm-3: in 1e-3 and 1e-8
IceRe(d) == 1000 + 20 * d
IceIm(d) == 8 * (52 * d + (62 * d * d) \div 100)
Near2(a, b, rel, abs) == Abs(a - b) <= abs + (Abs(b) * rel) \div 1000

Index ==
  IF E.what = "water"
  THEN [permittivity_of_water |-> Near2(E.re, WaterRe(E.t, E.f), 8, 80) /\ Near2(E.im, WaterIm(E.t, E.f), 8, 80)]
  ELSE [permittivity_of_ice |-> Near2(E.re, IceRe(E.rho), 0, 2) /\ Near2(E.im8, IceIm(E.rho), 5, 8)]
\* axis ratio of a drop of d/10 mm, in 1e-8
Axis(d) == 99510000 + 251000 * d - 36440 * d * d + 530 * d * d * d + (d * d * d * 3) \div 10 - ((d * d * d * d) \div 1000) * 2492
Drop == [axis_ratio |-> Len(E.got) = Len(E.d) /\ \A j \in 1..Len(E.d) : Near(E.got[j], Axis(E.d[j]) \div 100, 30)]

\* ------------------------------------------------------------------- spheres
Rows == E.rows
N == IF Len(Rows) < Len(E.asked) THEN Len(Rows) ELSE Len(E.asked)
Area(w) == 2 * w.d + LnPi - 2 * Ln2
X(w) == LnPi + w.d - E.lam
Spheres ==
  [sizes_as_asked  |-> Len(Rows) = Len(E.asked) /\ \A j \in 1..N : Near(Rows[j].d, E.asked[j], 5),
   beam_as_asked   |-> \A j \in 1..N : Near(Rows[j].lam, E.lam, 5),
   size_parameter  |-> \A j \in 1..N : Near(Rows[j].x, X(Rows[j]), 20),
   index_of_sphere |-> \A j \in 1..N : Near(Rows[j].mre, E.mre, 30) /\ Near(Rows[j].mim, E.mim, 600),
   efficiency_times_area |-> \A j \in 1..N : LET w == Rows[j] IN
        /\ Near(w.alpha, LMul(w.qext, Area(w)), 50) /\ Near(w.scat, LMul(w.qsca, Area(w)), 50) /\ Near(w.beta, LMul(w.qback, Area(w)), 50),
   values          |-> \A j \in 1..N : LET w == Rows[j] IN \A q \in {w.qext, w.qsca, w.qback, w.ratio} : q # Nan /\ q # Inf,
   extinction_is_both |-> \A j \in 1..N : LET w == Rows[j] IN w.qext >= w.qsca - 200 /\ w.share.ext = 1000000 /\ Near(w.share.sca + w.share.abs, 1000000, 20),
   backscatter_ratio  |-> \A j \in 1..N : LET w == Rows[j] IN Near(w.ratio, LDiv(w.qback, w.qsca), 50),
   asymmetry       |-> \A j \in 1..N : LET w == Rows[j] IN IsNum(w.g) /\ Abs(w.g) <= 1000000,
   \* momentum: extinction less what is scattered onwards (all as shares of the extinction)
   radiation_pressure |-> \A j \in 1..N : LET w == Rows[j] IN
        Near(w.share.pr, 1000000 - ((w.share.sca \div 100) * (w.g \div 100)) \div 100, 400),
   \* spheres much smaller than the wavelength: Q_sca = 8/3 |K|^2 x^4, Q_back = 4 |K|^2 x^4, Q_abs = 4 Im(K) x
   small_spheres   |-> \A j \in 1..N : LET w == Rows[j] IN X(w) < -4900000 =>
        /\ Near(w.qsca, 3 * Ln2 - Ln3 + E.k2 + 4 * X(w), 10000) /\ Near(w.qback, 2 * Ln2 + E.k2 + 4 * X(w), 10000)
        /\ Near(w.qabs, 2 * Ln2 + E.imk + X(w), 15000) /\ Near(w.g, 0, 2000),
   \* spheres much larger take twice their area out of the beam
   large_spheres   |-> \A j \in 1..N : LET w == Rows[j] IN X(w) > 4600000 => w.qext > 615000 /\ w.qext < 880000,
   names_and_units |-> \A j \in 1..Len(E.cols) : LET c == E.cols[j] IN
        CASE c.col = "alpha_p" -> c.unit = "meters^2" /\ c.word = "ext"
          [] c.col = "beta_p" -> c.unit = "meters^2" /\ c.word = "back"
          [] c.col = "scat_p" -> c.unit = "meters^2" /\ c.word = "scat"
          [] c.col = "ext_eff" -> c.unit = "1" /\ c.word = "ext"
          [] c.col = "backscat_eff" -> c.unit = "1" /\ c.word = "back"
          [] c.col = "scat_eff" -> c.unit = "1" /\ c.word = "scat"
          [] c.col = "p_diam" -> c.unit = "meters"
          [] c.col = "wavelength" -> c.unit = "microns"
          [] OTHER -> c.unit = "1",
   argument_unchanged |-> E.kept,
   \* a sphere scatters as it did before, alone or in another list
   each_size_by_itself |-> \A j \in 1..N : \A m \in 1..Len(st) : LET w == Rows[j] o == st[m] IN
        (o.beam = E.beam /\ o.d = E.asked[j]) => /\ Near(w.qext, o.qext, 5) /\ Near(w.qsca, o.qsca, 5) /\ Near(w.qback, o.qback, 5)
                                                 /\ Near(w.g, o.g, 5)]
Clauses ==
  IF E.err # "" THEN {"call_completes"} ELSE
  CASE E.op = "index" -> Broken(Index)
    [] E.op = "drops" -> Broken(Drop)
    [] OTHER -> Broken(Spheres)
After == IF E.err # "" \/ E.op # "spheres" \/ Len(Rows) # Len(E.asked) THEN st
         ELSE st \o [j \in 1..N |-> [beam |-> E.beam, d |-> E.asked[j], qext |-> Rows[j].qext, qsca |-> Rows[j].qsca, qback |-> Rows[j].qback, g |-> Rows[j].g]]
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {} /\ st = <<>>
Step == k >= 1 /\ k <= Len(T.ev) /\ k' = k + 1 /\ bad' = bad \cup Clauses /\ st' = After /\ UNCHANGED tid
Done == /\ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad, st>>
        /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
