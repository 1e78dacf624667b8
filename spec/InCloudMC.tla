------------------------------ MODULE InCloudMC ------------------------------
(* Design level: why the in-cloud relations conserve water.  Linear integers *)
(* here: a cell has N subcolumns, cnt of them cloudy, the fraction is cnt/N, *)
(* the grid-cell mean q is a multiple of cnt.                                 *)
EXTENDS Integers, FiniteSets
CONSTANTS N, QMax
VARIABLES cnt, q, sub, pc
vars == <<cnt, q, sub, pc>>
Init == /\ cnt \in 0..N /\ q \in {x \in 0..QMax : cnt # 0 => x % cnt = 0}
        /\ sub = [i \in 1..N |-> 0] /\ pc = "place"
Place == /\ pc = "place" /\ pc' = "done" /\ UNCHANGED <<cnt, q>>
         /\ \E S \in SUBSET (1..N) : /\ Cardinality(S) = cnt
              /\ sub' = [i \in 1..N |-> IF i \in S /\ cnt > 0 THEN (q * N) \div cnt ELSE 0]
Next == Place \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN sub[x] + Sum(S \ {x})
\* mean over all subcolumns = grid-cell mean wherever the class has a fraction
GridMeanConserved == pc = "done" => Sum(1..N) = (IF cnt = 0 THEN 0 ELSE q * N)
=============================================================================
