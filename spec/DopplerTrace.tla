----------------------------- MODULE DopplerTrace -----------------------------
(* Cells: per class weight q (reflectivity over the largest total, 1e-6, Nan  *)
(* when there is none), speed v and width s (unit chosen per cell, max 20000),*)
(* and the totals.  corr: logarithms of class speed and width with (a) and    *)
(* without (b) the air density correction of reference lr in air of density   *)
(* la.  scale: speeds with all fall speed coefficients doubled.               *)
EXTENDS Num, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
C == T.cell[k]
N == Len(C.w)
Mul(a, b) == (a \div 1000) * b + ((a % 1000) * b) \div 1000     \* a*b/1000
Here == {i \in 1..N : C.w[i] # Nan /\ C.w[i] > 0}
Wsum == SumFn([i \in Here |-> C.w[i]], Here)
Mean == SumFn([i \in Here |-> Mul(C.w[i], C.v[i])], Here)
Sq(x) == (x * x) \div 1000
Var  == SumFn([i \in Here |-> Mul(C.w[i], Sq(C.s[i]) + Sq(C.v[i] - C.tv))], Here)
Defined == \A i \in Here : IsNum(C.v[i]) /\ (T.width => IsNum(C.s[i]) /\ C.s[i] >= 0) /\ C.v[i] <= 0
MeanOK == IF Here = {} THEN C.tv = Nan
          ELSE Near(Mul(Wsum, C.tv), Mean, 4000 + 1000 * N)
VarOK  == T.width => IF Here = {} THEN C.ts = Nan
          ELSE Near(Mul(Wsum, Sq(C.ts)), Var, 200000 + Var \div 2000)
Between == Here # {} => \E i, j \in Here : C.v[i] - 2 <= C.tv /\ C.tv <= C.v[j] + 2
Clauses == (IF Defined THEN {} ELSE {"class_moments_defined"})
   \cup (IF ~Defined \/ MeanOK THEN {} ELSE {"total_velocity_is_weighted_mean"})
   \cup (IF ~Defined \/ Between THEN {} ELSE {"total_velocity_between_classes"})
   \cup (IF ~Defined \/ VarOK THEN {} ELSE {"total_width_combines_spread"})
CorrOK(r) == /\ Near(r.a, r.b + (54 * ((r.lr - r.la) \div 10)) \div 10, 20)
             /\ r.wa = Nan \/ Near(r.wa, r.wb + (54 * ((r.lr - r.la) \div 10)) \div 10, 60)
Extra == (IF \A j \in 1..Len(T.corr) : CorrOK(T.corr[j]) THEN {} ELSE {"air_density_correction"})
   \cup (IF \A j \in 1..Len(T.scale) : Near(T.scale[j].a, T.scale[j].b + 693147, 20) THEN {} ELSE {"fall_speed_coefficient"})
Init == tid \in 1..Len(Traces) /\ k = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].cell))
        /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {})
Next == \/ k > 0 /\ bad' = bad \cup Clauses /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED tid /\ bad' = bad \cup (IF T.err # "" THEN {} ELSE Extra)
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad'))
Spec == Init /\ [][Next]_vars
=============================================================================
