------------------------------ MODULE PictureMC ------------------------------
(* A display of a model at one location of its region.  It holds a copy of    *)
(* the fields there; curtains are drawn cell by cell from it; the location or *)
(* the model may be replaced, plots repeated on the same axes.                *)
EXTENDS Picture, TLC
CONSTANTS Locs, Subs, Times, Levels, Bug, MaxSteps
VARIABLES model,        \* the models' fields: model -> location -> subcolumn -> time -> level -> value
          cur, loc,     \* what is asked for
          held,         \* what the display holds
          pic,          \* <<subcolumn, cells drawn>>: cells (column, row) -> value, 0 when blank
          todo,         \* cells still to draw
          down, n       \* direction of the pressure axis (-1: not set), steps
vars == <<model, cur, loc, held, pic, todo, down, n>>
Cells == Times \X Levels
V(m, l, s, t, h) == 1 + h + 3 * t + 9 * s + 27 * l + 100 * m
Models == {1, 2}
Data == [m \in Models |-> [l \in Locs |-> [s \in Subs |-> [c \in Cells |->
           IF c = <<1, 1>> /\ s = 1 THEN 0 ELSE V(m, l, s, c[1], c[2])]]]]
Init == /\ model = Data /\ cur = 1 /\ loc \in Locs /\ held = Data[1][loc]
        /\ pic = <<0, <<>>>> /\ todo = {} /\ down = -1 /\ n = 0
Step == n < MaxSteps /\ n' = n + 1 /\ todo = {}
Switch == /\ Step /\ \E l \in Locs : /\ loc' = l
                                     /\ held' = IF Bug = "stale" THEN held ELSE Data[cur][l]
          /\ pic' = <<0, <<>>>> /\ UNCHANGED <<model, cur, todo, down>>
Replace == /\ Step /\ \E m \in Models : /\ cur' = m
                                        /\ held' = IF Bug = "mixed" /\ m = 2 THEN [Data[m][loc] EXCEPT ![1] = held[1]] ELSE Data[m][loc]
           /\ pic' = <<0, <<>>>> /\ UNCHANGED <<model, loc, todo, down>>
Start == /\ Step /\ \E s \in Subs : pic' = <<s, <<>>>>
         /\ todo' = Cells
         /\ down' = IF Bug = "toggle" THEN (IF down = 1 THEN 0 ELSE 1) ELSE 1
         /\ UNCHANGED <<model, cur, loc, held>>
Src(c) == IF Bug = "transposed" /\ <<c[2], c[1]>> \in Cells THEN <<c[2], c[1]>> ELSE c
Draw == /\ todo # {}
        /\ \E c \in todo : /\ pic' = <<pic[1], (c :> held[pic[1]][Src(c)]) @@ pic[2]>>
                           /\ todo' = todo \ {c}
                           \* blanking a cell in the picture must not blank it in the model
                           /\ model' = IF Bug = "alias" /\ held[pic[1]][c] = 0 THEN [model EXCEPT ![cur][loc][pic[1]][c] = -1] ELSE model
        /\ UNCHANGED <<cur, loc, held, down, n>>
Next == Switch \/ Replace \/ Start \/ Draw
Spec == Init /\ [][Next]_vars
Shown == \A c \in DOMAIN pic[2] : pic[2][c] = Data[cur][loc][pic[1]][c]
Kept == model = Data
Downward == pic[1] # 0 => down = 1
=============================================================================
