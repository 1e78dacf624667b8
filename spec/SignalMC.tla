------------------------------- MODULE SignalMC -------------------------------
(* One class, one column of N subcolumns and H levels, processed level by     *)
(* level: levels without the class in any subcolumn are skipped, the others   *)
(* are integrated for all subcolumns at once, where subcolumns without the    *)
(* class give an undefined intermediate (nothing times an undefined size      *)
(* distribution) which is then turned into "no signal".  A level may hold     *)
(* values of an earlier calculation.                                          *)
EXTENDS Signal
CONSTANTS N, H, Bug
VARIABLES state, sig, k, ph
vars == <<state, sig, k, ph>>
I == 1..N
L == 1..H
Init == /\ state \in [I -> [L -> States]] /\ sig \in {[i \in I |-> [j \in L |-> s]] : s \in {"0", "+"}}
        /\ k = 0 /\ ph = "reset"
Reset == /\ ph = "reset" /\ ph' = "level" /\ k' = H
         /\ sig' = IF Bug = "stale" THEN sig ELSE [i \in I |-> [j \in L |-> "0"]]
         /\ UNCHANGED state
Empty(j) == IF Bug = "first" THEN state[1][j] = "clear" ELSE \A i \in I : state[i][j] = "clear"
Raw(s) == CASE s = "mass" -> "+" [] s = "hollow" -> "n" [] OTHER -> "n"
Level == /\ ph = "level" /\ k >= (IF Bug = "edge" THEN 2 ELSE 1)
         /\ sig' = IF Empty(k) THEN sig ELSE [i \in I |-> [sig[i] EXCEPT ![k] = Raw(state[i][k])]]
         /\ k' = k - 1 /\ UNCHANGED <<state, ph>>
Mask == /\ ph = "level" /\ k = (IF Bug = "edge" THEN 1 ELSE 0) /\ ph' = "done"
        /\ sig' = [i \in I |-> [j \in L |-> IF sig[i][j] = "n" /\ (Bug # "hollow" \/ state[i][j] = "clear") THEN "0" ELSE sig[i][j]]]
        /\ UNCHANGED <<state, k>>
Next == Reset \/ Level \/ Mask
Spec == Init /\ [][Next]_vars
SignalWhereMass == ph = "done" => \A i \in I, j \in L : sig[i][j] \in Linear(state[i][j])
=============================================================================
