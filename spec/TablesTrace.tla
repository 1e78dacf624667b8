----------------------------- MODULE TablesTrace -----------------------------
(* Recorded signals of single cells.                                          *)
(* op micro: cand gives for every table that could have answered the terms of *)
(*   the sum over (groups of neighbouring) sizes, in the unit of s.           *)
(* op bulk: logarithms (1e-6); cand: the interpolated efficiency by table, a: *)
(*   the area per volume by source, dps, dzs: of the layers between the       *)
(*   levels, k: the level.                                                    *)
(* op emp: empirical relations.  op table: limits the tables must have.       *)
EXTENDS Tables, Num, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
Unit == 10000000
Micro == LET s == Sum(E.cand[Single(E.fam, E.x, E.mie = 1, E.hyb)]) IN
  CASE E.q = "back"  -> [backscatter_from_table |-> Near(s, E.s, E.tol)]
    [] E.q = "ext"   -> [extinction_from_table |-> Near(s, E.s, E.tol)]
    [] E.q = "vel"   -> [speed_from_particles |-> Near(s, E.s, E.tol)]
    [] E.q = "width" -> [width_from_particles |-> Near(s, E.s, E.tol)]
    [] E.q = "vtot"  -> [total_speed_from_particles |-> Near(s, E.s, E.tol)]
\* the layer above a level; the uppermost one is as deep as the one below it
Lay(s) == s[Min2(E.k, Len(s))]
Ln34 == -287682
Ln1e6 == 13815511
\* 3/4 of the mass per volume, over density and effective radius (in micrometres)
MassArea == Ln34 + E.lq + Lay(E.dps) - E.lg - E.lrho - (E.lre + E.lfi) + Ln1e6 - Lay(E.dzs)
AreaOf == LET a == Area(E.fam, E.x, E.mie = 1, E.hyb) IN IF a = "mass" THEN MassArea ELSE E.a[a]
BulkQ == E.cand[Bulk(E.fam, E.x, E.mie = 1)]
Bulkv == LET ok == Near(E.s, LMul(BulkQ, AreaOf), E.tol) IN
  IF E.q = "back" THEN [backscatter_from_table |-> ok] ELSE [extinction_from_table |-> ok]
\* particles with air in them: fl of the ratio r of densities plus the rest of its cube root c (1e-3, 1e-6, 1e-6)
Fluff == [effective_radius |-> /\ Near(E.fi, (E.fl * E.r + (1000 - E.fl) * E.c) \div 1000, 2)
                               /\ Near(E.lr, 3 * E.lc, 3)]
Emp ==
  CASE E.rel = "fox"   -> [published_relation |-> Near(E.s, -3473768 + (156 * E.w) \div 100, E.tol)]
    [] E.rel = "hagen" -> [published_relation |-> Near(4 * E.s, 7 * (E.w + 6907755 - 1223775), E.tol)]
    \* log10 W (1e-6) = (a T + b) Z + c T + d with T in 0.01 degrees and Z in 0.01 dB
    [] E.rel = "hogan" -> LET b == E.band IN
         [published_relation |-> Near(E.w, ((IF b = "S" THEN 60000 ELSE IF b = "W" THEN (580 * E.t) \div 100 + 92300
              ELSE (242 * E.t) \div 100 + 69900) * E.z) \div 100
            - (IF b = "S" THEN 197 ELSE IF b = "W" THEN 71 ELSE 186) * E.t
            - (IF b = "W" THEN -((4 * E.t) \div 10) ELSE 0)
            - (IF b = "S" THEN 1700000 ELSE IF b = "W" THEN 992000 ELSE 1630000), E.tol)]
    [] E.rel = "drops" -> [published_relation |-> Near(E.s, 405465 + E.w - E.lrho - E.lre + Ln1e6, E.tol)]
    [] E.rel = "heymsfield" -> [published_relation |->
         Near(((E.s \div 200) * E.b) \div 50, E.w + 5236282 - (255 * E.lt90) \div 100, E.tol)]
    [] E.rel = "ratio" -> [lidar_ratio |-> Near(E.s, E.w - E.lrho, E.tol)]
\* limits: small drops seen by a radar scatter as D^6, large ones seen by a lidar shadow twice their area
\* Mie tables are kept per steradian: 4 pi short of the cross section that the reflectivity is defined by
Ln4pi == 2531024
Short == E.rel = "rayleigh" /\ Near(E.s + Ln4pi, 6 * E.d + E.c, E.tol)
Limit == [rayleigh_limit |-> E.rel = "rayleigh" => Near(E.s, 6 * E.d + E.c, E.tol) \/ Short,
          reflectivity_is_sum_of_sixth_powers |-> ~Short,
          geometric_limit |-> E.rel = "geometric" => Near(E.s, 2 * E.d + E.c, E.tol),
          bulk_consistent |-> E.rel = "bulk" => Near(E.s, E.d, E.tol),
          wave_relation |-> E.rel = "wave" => Near(E.s + E.d, E.c, E.tol)]
Clauses == IF E.err # "" THEN {"call_completes"}
           ELSE CASE E.op = "micro" -> Broken(Micro) [] E.op = "bulk" -> Broken(Bulkv) [] E.op = "fluff" -> Broken(Fluff)
                  [] E.op = "emp" -> Broken(Emp) [] E.op = "table" -> Broken(Limit)
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
===============================================================================
