-------------------------------- MODULE BeamMC --------------------------------
(* All scenes of H layers with extinction 0..A per class and cloud type and  *)
(* layer distances 1..Z, walked from both ends at once.                      *)
EXTENDS Beam, TLC
CONSTANTS H, A, Z, Classes, Thr, Bug
VARIABLES a, z, pos, up, down
vars == <<a, z, pos, up, down>>

Layers == [1..H -> [Classes -> 0..A]]
Heights == {zz \in [1..H -> 1..(H * Z)] : \A i \in 1..H-1 : zz[i] < zz[i+1] /\ zz[i+1] - zz[i] <= Z}
Col(s, c) == [i \in 1..H |-> s[i][c]]
RevZ(zz) == [i \in 1..H |-> zz[H + 1 - i]]

\* what the beam has lost when it arrives at its pos-th layer; Bug: typical mistakes
Loss(s, zz, c, i) ==
  CASE Bug = "own"  -> IF i = 1 THEN 0 ELSE s[i][c] * Path(zz, i)         \* counts the layer arrived at
    [] Bug = "end"  -> IF i = 1 THEN 0 ELSE s[H + 2 - i][c] * Path(zz, i)  \* comes from the other end
    [] Bug = "grid" -> IF i = 1 THEN 0 ELSE s[i - 1][c] * (IF i > 2 THEN Path(zz, i - 1) ELSE Path(zz, i))
    [] OTHER -> IF i = 1 THEN 0 ELSE s[i - 1][c] * Path(zz, i)

Init == /\ a \in Layers /\ z \in Heights /\ pos = 1
        /\ up = [c \in Classes |-> <<0>>] /\ down = [c \in Classes |-> <<0>>]
Next == /\ pos < H /\ pos' = pos + 1 /\ UNCHANGED <<a, z>>
        /\ up' = [c \in Classes |-> Append(up[c], up[c][pos] + Loss(a, z, c, pos + 1))]
        /\ down' = [c \in Classes |-> Append(down[c], down[c][pos] + Loss(Rev(a), RevZ(z), c, pos + 1))]
Spec == Init /\ [][Next]_vars

Tot(f) == [i \in 1..pos |-> SumFn([c \in Classes |-> f[c][i]], Classes)]
Closed == \A c \in Classes : \A i \in 1..pos : /\ up[c][i] = Depth(Col(a, c), z, i)
                                               /\ down[c][i] = Depth(Rev(Col(a, c)), RevZ(z), i)
Monotone == \A c \in Classes : \A i \in 1..pos-1 : up[c][i] <= up[c][i+1] /\ down[c][i] <= down[c][i+1]
\* only layers passed count: the farthest layer never matters
Causal == \A c \in Classes : \A i \in 1..pos :
             (\A j \in 1..i-1 : a[j][c] = 0) => up[c][i] = 0
\* the same layer takes the same per metre whichever side it is seen from
BothSides == pos = H => \A c \in Classes : \A i \in 2..H-1 :
   (up[c][i+1] - up[c][i]) * (z[i] - z[i-1]) = (down[c][H+2-i] - down[c][H+1-i]) * (z[i+1] - z[i])
\* the signal, once lost, stays lost; the mask along the beam reads 0*1?2*
MaskShape == LET od == Tot(up)
                 m == [i \in 1..pos |-> LossMask(od, Thr, i)] IN
   /\ \A i \in 1..pos-1 : m[i] <= m[i+1]
   /\ \A i \in 1..pos-1 : m[i] = 1 => m[i+1] = 2
   /\ m[1] # 2 \/ Thr < 0
=============================================================================
