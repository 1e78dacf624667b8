------------------------------ MODULE SubcolMC ------------------------------
(* Abstract generator: levels are filled from the top down; each level is    *)
(* any allocation the relations of Subcol allow.  TLC checks that the        *)
(* relations are always satisfiable (no deadlock before the surface) and     *)
(* the consequences users rely on.                                           *)
EXTENDS Subcol
CONSTANTS N, H, ConvPrefix
VARIABLES lev, conv, cl, ci, pl, pi, ccl, cci, cp, dn

vars == <<lev, conv, cl, ci, pl, pi, ccl, cci, cp, dn>>
ConvSets == IF ConvPrefix THEN {1..k : k \in 0..N} ELSE SUBSET Cols(N)

Init == /\ lev = H /\ conv \in ConvSets
        /\ cl = {} /\ ci = {} /\ pl = {} /\ pi = {}
        /\ ccl = 0 /\ cci = 0 /\ cp = <<0, 0>> /\ dn = "all"

\* stratiform step: moves one level down
Strat == /\ lev > 1 /\ dn = "all"
         /\ \E k \in ConvSets, a, b \in 0..N, s, t \in SUBSET Cols(N) :
              /\ Holds(StratOK(a, b, k, cl, ci, s, t, N))
              /\ conv' = k /\ ccl' = a /\ cci' = b /\ cl' = s /\ ci' = t
         /\ lev' = lev - 1 /\ dn' = "cloud"
         /\ UNCHANGED <<pl, pi, cp>>

Precip == /\ dn = "cloud"
          /\ \E a, b \in 0..N, s, t \in SUBSET Cols(N) :
              /\ Holds(PrecipOK(<<a, b>>, pl \cup pi, cl \cup ci, <<s, t>>, N))
              /\ cp' = <<a, b>> /\ pl' = s /\ pi' = t
          /\ dn' = "all"
          /\ UNCHANGED <<lev, conv, cl, ci, ccl, cci>>

Done == lev = 1 /\ dn = "all" /\ UNCHANGED vars
Next == Strat \/ Precip \/ Done
Spec == Init /\ [][Next]_vars

\* ---- consequences ----
Overcast == ccl = N /\ cci = N
Disjoint == Overcast \/ (cl \cup ci) \cap conv = {}
CoverNeverExceeds == Cardinality(cl) <= ccl /\ Cardinality(ci) <= cci
CoverExactWithoutConv == (conv = {} /\ lev < H) => (Cardinality(cl) = ccl /\ Cardinality(ci) = cci)
PrecipExact == dn = "all" => Cardinality(pl) = cp[1] /\ Cardinality(pi) = cp[2]
Nested == cl \subseteq ci \/ ci \subseteq cl
PrecipNested == pl \subseteq pi \/ pi \subseteq pl
\* total cover is as small as the counts permit: maximum overlap of the two phases
PhaseOverlap == ~Overcast => Cardinality(cl \cup ci) = Min2(Max2(ccl, cci), N - Cardinality(conv))
\* every level can be filled, whatever the level above and the counts are
Satisfiable ==
  /\ dn = "all" /\ lev > 1 => \A k \in ConvSets, a, b \in 0..N :
        \E s, t \in SUBSET Cols(N) : Holds(StratOK(a, b, k, cl, ci, s, t, N))
  /\ dn = "cloud" => \A a, b \in 0..N :
        \E s, t \in SUBSET Cols(N) : Holds(PrecipOK(<<a, b>>, pl \cup pi, cl \cup ci, <<s, t>>, N))
=============================================================================
