------------------------------ MODULE PhaseCospMC ------------------------------
(* The retrieval as passes over a column, for every small column; the beam    *)
(* enters from either end.  Bug: typical mistakes.                            *)
EXTENDS PhaseCosp, TLC
CONSTANTS H, Bug
VARIABLES sr, ice, t, up, mask, refl, pass
vars == <<sr, ice, t, up, mask, refl, pass>>
Temps == {220000, 233150, 260000, 273150, 290000}
Init == /\ sr \in [1..H -> {1, 5, 10, 30, 50}] /\ ice \in [1..H -> BOOLEAN] /\ t \in [1..H -> Temps]
        /\ up \in BOOLEAN /\ mask = [i \in 1..H |-> 0] /\ refl = [i \in 1..H |-> 0] /\ pass = 1
\* counts of attenuating layers up to and including this one
Count(i) == IF up = (Bug # "end") THEN Cardinality({j \in 1..i : sr[j] > 30}) ELSE Cardinality({j \in i..H : sr[j] > 30})
New(i) == CASE pass = 1 -> IF sr[i] > 5 THEN 1 ELSE 0
  [] pass = 2 -> IF ice[i] /\ mask[i] = 1 THEN 2 ELSE mask[i]
  [] pass = 3 -> IF mask[i] > 0 /\ t[i] > Warm THEN 1 ELSE mask[i]
  [] pass = 4 -> IF (mask[i] > 0 \/ Bug = "phantom") /\ t[i] < Cold THEN 2 ELSE mask[i]
  [] OTHER -> IF mask[i] > 0 /\ refl[i] > 0 THEN 3 ELSE mask[i]
Next == pass <= 5 /\ pass' = pass + 1 /\ mask' = [i \in 1..H |-> New(i)] /\ UNCHANGED <<sr, ice, t, up>>
        /\ refl' = IF pass = 1 THEN [i \in 1..H |-> IF sr[i] > 30 /\ Count(i) = 1 /\ Bug # "self" THEN 0 ELSE Count(i)]
                   ELSE refl
Spec == Init /\ [][Next]_vars
Done == pass = 6
R(s) == [i \in 1..H |-> s[H + 1 - i]]
Along(s) == IF up THEN s ELSE R(s)
Sequence == Done => \A i \in 1..H : Along(mask)[i] = Phase(Along(sr), Along(ice), Along(t), i, 5, 30)
\* consequences a user relies on
Sane == Done => /\ \A i \in 1..H : (mask[i] = 0) = (sr[i] <= 5)
                /\ \A i \in 1..H : (t[i] > Warm => mask[i] # 2) /\ (t[i] < Cold => mask[i] # 1)
                /\ \A i \in 1..H : Along(mask)[i] = 3 => \E j \in 1..i-1 : Along(sr)[j] > 30 /\ Along(mask)[j] # 0
                /\ \A i \in 1..H-1 : (\A j \in 1..i : Along(sr)[j] <= 30) => Along(mask)[i] # 3
=============================================================================
