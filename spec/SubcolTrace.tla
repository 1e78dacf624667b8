----------------------------- MODULE SubcolTrace ----------------------------
(* Checks recorded runs of the real subcolumn generator: one trace is one    *)
(* model column; one step is one level, taken from the top down as in        *)
(* SubcolMC.  Every trace ends with a total verdict naming broken clauses.   *)
EXTENDS Subcol, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>

T == Traces[tid]
ToSet(s) == {s[i] : i \in 1..Len(s)}
L(j) == T.lev[j]
H == Len(T.lev)
C(j, x) == Count(T.rad, L(j).f[x], L(j).g[x], L(j).q[x], T.n)
S(j, x) == ToSet(L(j).s[x])
NCl == Len(L(1).f)
AllS(j) == {S(j, x) : x \in 1..NCl}
Above(j) == UNION AllS(j + 1)

Clauses(j) ==
  CASE T.kind = "conv"  -> Broken(ConvOK(C(j, 1), S(j, 1), T.n))
    [] T.kind = "strat" ->
         IF j = H THEN Broken(TopOK(AllS(j)))
         ELSE Broken(StratOK(C(j, 1), C(j, 2), ToSet(L(j).conv), S(j + 1, 1), S(j + 1, 2),
                             S(j, 1), S(j, 2), T.n))
    [] T.kind = "precip" ->
         IF j = H THEN Broken(TopOK(AllS(j)))
         ELSE Broken(PrecipOK([x \in 1..NCl |-> C(j, x)], Above(j), ToSet(L(j).cloud),
                              [x \in 1..NCl |-> S(j, x)], T.n))
    [] T.kind = "single" -> UNION {Broken(SingleOK(L(j).q[x], S(j, x))) : x \in 1..NCl}
    [] OTHER -> {"completed"}

Init == tid \in 1..Len(Traces) /\ k = (IF Traces[tid].err # "" THEN 0 ELSE Len(Traces[tid].lev))
        /\ bad = (IF Traces[tid].err # "" THEN {"call_completes"} ELSE {})
Next == \/ k > 0 /\ bad' = bad \cup Clauses(k) /\ k' = k - 1 /\ UNCHANGED tid
        \/ k = 0 /\ k' = -1 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
