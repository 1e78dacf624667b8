----------------------------- MODULE RegridTrace -----------------------------
(* Recorded regridding, scattering ratios and cloud fractions.  Heights are   *)
(* integers (full levels even); a trace is one call, T.ev its output cells    *)
(* with the source profile of their column.  None: undefined result.          *)
EXTENDS Regrid, Num, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
None == Nan
Ground == -Inf
\* bottoms of the layers of full levels zf: half way between them
HalfOf(zf) == [l \in DOMAIN zf |-> IF l = 1 THEN zf[1] - (zf[2] - zf[1]) \div 2 ELSE (zf[l - 1] + zf[l]) \div 2]
Zh == IF "zh" \in DOMAIN E THEN E.zh ELSE HalfOf(E.zf)
W == Weights(Zh, E.zf, E.nb, E.nt)
Tot == SumTo(W, Len(W))
Below == E.nt <= Zh[1]
Prod(y) == SumTo([l \in DOMAIN W |-> W[l] * y[l]], Len(W))
Valued(y) == \A l \in DOMAIN W : W[l] > 0 => y[l] # None
Clean(y) == [l \in DOMAIN y |-> IF y[l] = None THEN 0 ELSE y[l]]
\* the mean, in thousandths, to rounding of the record
IsMean(r, y) == IsNum(r) /\ Abs(r * Tot - 1000 * Prod(y)) <= Tot
Count(s, lim) == Cardinality({i \in DOMAIN s : s[i] # None /\ s[i] > lim})
Clauses ==
  IF E.err # "" THEN {"call_completes"} ELSE
  CASE E.op = "mean" ->      \* linear values
         IF Below THEN IF E.r = Ground THEN {} ELSE {"below_ground_flagged"}
         ELSE IF Tot = 0 THEN IF E.r = 0 THEN {} ELSE {"nothing_above_the_model"}
         ELSE IF IsMean(E.r, E.y) THEN {} ELSE {"mean_of_the_shared_layers"}
    [] E.op = "ze" ->        \* decibels: averaged as linear values, undefined ones are empty
         IF Below THEN IF E.r = Ground \/ (E.final /\ E.r = None) THEN {} ELSE {"below_ground_flagged"}
         ELSE IF Prod(Clean(E.y)) = 0 THEN IF E.r = None THEN {} ELSE {"no_echo_undefined"}
         ELSE IF IsMean(E.r, Clean(E.y)) THEN {} ELSE {"echo_averaged_linearly"}
    [] E.op = "sr" ->
         IF Below THEN IF E.r = None THEN {} ELSE {"below_ground_undefined"}
         ELSE IF Tot = 0 \/ ~Valued(E.tot) \/ ~Valued(E.mol) THEN IF E.r = None THEN {} ELSE {"no_signal_undefined"}
         ELSE IF IsNum(E.r) /\ Abs(E.r * Prod(E.mol) - 1000 * Prod(E.tot)) <= Prod(E.mol) THEN {}
              ELSE {"ratio_of_total_to_molecular"}
    [] E.op = "cf" ->        \* scattering ratios of the subcolumns, in thousandths
         LET ok == Count(E.s, 10)
             cld == Count(E.s, 5000)
         IN IF ok = 0 THEN IF E.r = None THEN {} ELSE {"no_usable_subcolumn_undefined"}
            ELSE (IF IsNum(E.r) /\ Abs(E.r * ok - 1000000 * cld) <= ok THEN {} ELSE {"cloudy_over_usable"}) \cup
                 (IF E.r >= 0 /\ E.r <= 1000000 THEN {} ELSE {"a_fraction"})
    [] E.op = "signal" ->    \* the profiles taken from a simulation
         (IF E.gtot = E.tot THEN {} ELSE {"total_signal_taken"}) \cup
         (IF E.gze = E.ze THEN {} ELSE {"reflectivity_taken"}) \cup
         (IF E.gmol = [l \in DOMAIN E.sig |-> E.sig[l] * E.tau[l]] THEN {} ELSE {"molecular_signal_attenuated"}) \cup
         (IF E.gz = E.zf THEN {} ELSE {"heights_in_km"}) \cup
         (IF E.gzh = HalfOf(E.zf) THEN {} ELSE {"half_levels_between_the_levels"})
    [] E.op = "untouched" -> IF E.same THEN {} ELSE {"arguments_unchanged"}
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
