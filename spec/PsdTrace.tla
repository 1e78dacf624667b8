------------------------------- MODULE PsdTrace ------------------------------
(* Recorded size distributions: per cell the logarithms (1e-6) of water q per *)
(* air mass, air density, particle density, number n; slope lam, intercept n0 *)
(* and, evaluated by the recorder from the shape reported, g1 = ln Gamma(mu+1)*)
(* g4 = ln Gamma(mu+4), pl = (mu+1) ln lam.                                   *)
(* op psd: how = fixed | martin | none is the shape the class and the model   *)
(* are to have, lo, hi its bounds;  op p3: ice by table;  op vt: fall speeds  *)
EXTENDS Psd, Num, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
Tol == 30
LnPi6 == -647030                                                          \* ln(pi / 6)
\* Martin et al. (1994): relative dispersion eta by droplet number, within bounds
ByNumber(leta) == \/ Near(E.lm1, -2 * leta, Tol) /\ E.mu >= E.lo /\ E.mu <= E.hi
                  \/ E.mu = E.lo /\ -2 * leta <= E.llo1 + Tol
                  \/ E.mu = E.hi /\ -2 * leta >= E.lhi1 - Tol
Shape == CASE E.how = "fixed" -> Near(E.mu, 11111111, 2)
           [] E.how = "none" -> E.mu = 0
           \* Martin et al. (1994): relative dispersion from the number of droplets per cm3, within bounds; eta: with
           \* the number given, etabad: with a millionth of it
           [] E.how = "martin" -> ByNumber(E.leta)
\* leta takes the number per cm3 as the law does, letab a millionth of it
Known == E.how = "martin" /\ ByNumber(E.letab)
Wet == E.q # Zero
Cell == [
  number_of_particles |-> Wet => Near(E.n0 + E.g1 - E.pl, E.n, Tol),
  mass_of_water       |-> Wet => Near(E.dens + LnPi6 + E.n + E.g4 - E.g1 - 3 * E.lam, E.q + E.air, Tol),
  none_without_water  |-> ~Wet => E.lam = Nan /\ E.n0 = Nan,
  shape_as_published  |-> Shape \/ Known,
  dispersion_by_number_per_cm3 |-> Shape \/ ~Known,
  input_unchanged     |-> E.same = 1]
\* ice of the P3 scheme: slope from the table (between the values lo, hi of the surrounding nodes), shape from the slope
\* (s = 0.076 (lam / 100)^0.8 - 2 by the recorder), number and intercept as above
Ice == [
  slope_from_table    |-> IF Wet THEN E.lam >= E.lo - Tol /\ E.lam <= E.hi + Tol ELSE TRUE,
  shape_from_slope    |-> IF IsNum(E.lam) THEN Near(E.mu, Clip(E.s, 0, 6000000), 5) ELSE TRUE,
  number_of_particles |-> IF IsNum(E.lam) THEN Near(E.n0 + E.g1 - E.pl, E.n, Tol) ELSE TRUE,
  input_unchanged     |-> E.same = 1]
\* NSSL fall speeds: v2 = 2 ln v, sphere of density dens and diameter d falling in air of 1.007 kg m-3 with drag lcd
Speed == [speed_as_published |-> Near(E.v, E.want, Tol)]
Clauses == IF E.err # "" THEN {"call_completes"}
           ELSE IF E.op = "psd" THEN Broken(Cell) ELSE IF E.op = "p3" THEN Broken(Ice) ELSE Broken(Speed)
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
===============================================================================
