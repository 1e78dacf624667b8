------------------------------- MODULE GasTrace ------------------------------
(* Recorded gaseous attenuation (op "gas", with a moister twin of the scene)  *)
(* and molecular scattering ("mol") of one cell.  Values prefixed with l are  *)
(* natural logarithms in 1e-6.                                                *)
EXTENDS Num, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
Tol == 30
\* which of the published line widths of oxygen applies (pressure in 0.01 hPa)
Branch == IF E.p >= 33300 THEN 1 ELSE IF E.p >= 2500 THEN 2 ELSE 3
Oxygen == -4509860 + 2 * E.lf + E.lp + 2 * E.lth + E.lo[Branch]        \* 0.011 f^2 p/1013 theta^2 shape
Vapour == IF E.lrho = Zero THEN Zero ELSE 693147 + 2 * E.lf + E.lrho + (3 * E.lth) \div 2 + E.lw
Gas == [
  attenuation_positive  |-> IsNum(E.lko) /\ (E.lrho = Zero \/ IsNum(E.lkw)) /\ IsNum(E.lka),
  oxygen_as_published   |-> Near(E.lko, Oxygen, Tol),
  vapour_as_published   |-> Near(E.lkw, Vapour, Tol),
  sum_of_both           |-> Near(E.ka, E.ko + E.kw, 2),
  vapour_adds           |-> E.moist.kw > E.kw /\ E.moist.ka > E.ka,
  oxygen_without_vapour |-> E.moist.lko = E.lko,
  more_at_94_than_35    |-> IF "lka35" \in DOMAIN E THEN E.lka > E.lka35 ELSE TRUE]
\* molecules: number density of the ideal gas, refractivity of standard air, Rayleigh scattering
Mol == [
  ideal_gas             |-> Near(E.lN, E.lpPa - E.lT + E.lNA - E.lR, Tol),
  refractivity          |-> Near(E.ln1, E.lref + E.la15 - E.laT + E.lp, Tol + 10),
  scattering_cross_section |-> Near(E.lsig, 4415019 + 2 * E.ln2 - 2 * E.lN - 4 * E.llam + E.lking, Tol),
  volume_extinction     |-> Near(E.lbeta, E.lsig + E.lN, Tol),
  volume_backscatter    |-> Near(E.lvol, E.ls180 + E.lN, Tol),
  backscatter_ratio     |-> Near(E.lsig - E.ls180, 2143097, Tol),
  mass_extinction       |-> Near(E.lkap, E.lbeta - E.lrho, Tol),
  \* the layers between the instrument (on the ground, or above the uppermost level) and the cell
  optical_depth_of_layers_between |-> Near(E.u, SumFn(E.layers, IF E.sfc THEN 1..(E.k - 1) ELSE E.k..Len(E.layers)),
                                           Len(E.layers) + 2),
  two_way_transmittance |-> Near(E.ltau, -2 * E.u, Tol)]
Clauses == IF E.err # "" THEN {"call_completes"} ELSE IF E.op = "gas" THEN Broken(Gas) ELSE Broken(Mol)
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
