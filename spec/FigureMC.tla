------------------------------- MODULE FigureMC -------------------------------
(* A figure of all subcolumns of one column of the grid.  The subcolumns of a *)
(* time step stand side by side, step after step; the figure is filled column *)
(* by column from a view or a copy of the field, cells without hydrometeors   *)
(* are blanked, heights are written step by step.                             *)
EXTENDS Num, TLC
CONSTANTS NT, NS, NH, NC, Bug
Times == 1..NT
Subs == 1..NS
Levs == 1..NH
Data == [c \in 1..NC |-> [s \in Subs |-> [t \in Times |-> [h \in Levs |->
           IF (s + t + h) % 4 = 0 THEN 0 ELSE h + 10 * t + 100 * s + 1000 * c]]]]
Height == [c \in 1..NC |-> [t \in Times |-> [h \in Levs |-> 3 * h + t + 5 * c]]]
VARIABLES field, col, k, t, pic, hgt
vars == <<field, col, k, t, pic, hgt>>
Cols == NT * NS
Step == IF Bug = "tiled" THEN [i \in 1..Cols |-> ((i - 1) % NT) + 1] ELSE [i \in 1..Cols |-> ((i - 1) \div NS) + 1]
Sub == IF Bug = "tiled" THEN [i \in 1..Cols |-> ((i - 1) \div NT) + 1] ELSE [i \in 1..Cols |-> ((i - 1) % NS) + 1]
Init == /\ field = Data /\ col \in 1..NC /\ k = 1 /\ t = 1 /\ pic = <<>>
        /\ hgt = [i \in 1..Cols |-> [h \in Levs |-> -1]]
\* the heights of a step reach one column further; the next step writes it again
Heights == /\ t <= NT /\ t' = t + 1
           /\ LET from == IF Bug = "shifted" THEN NS * (t - 1) + 2 ELSE NS * (t - 1) + 1
              IN hgt' = [i \in 1..Cols |-> IF i >= from /\ i <= NS * t + 1 THEN Height[col][t] ELSE hgt[i]]
           /\ UNCHANGED <<field, col, k, pic>>
Fill == /\ k <= Cols /\ k' = k + 1
        /\ LET c == IF Bug = "first" THEN 1 ELSE col
               v == field[c][Sub[k]][Step[k]]
           IN /\ pic' = Append(pic, [h \in Levs |-> IF v[h] <= 0 THEN Nan ELSE v[h]])
              /\ field' = IF Bug = "view" THEN [field EXCEPT ![c][Sub[k]][Step[k]] = [h \in Levs |-> IF v[h] <= 0 THEN Nan ELSE v[h]]] ELSE field
        /\ UNCHANGED <<col, t, hgt>>
Next == Heights \/ Fill
Spec == Init /\ [][Next]_vars
Own(i) == ((i - 1) \div NS) + 1
Nth(i) == ((i - 1) % NS) + 1
Shown == \A i \in 1..Len(pic) : pic[i] = [h \in Levs |-> LET v == Data[col][Nth(i)][Own(i)][h] IN IF v <= 0 THEN Nan ELSE v]
AtHeight == t = NT + 1 => \A i \in 1..Cols : hgt[i] = Height[col][Own(i)]
Kept == field = Data
=============================================================================
