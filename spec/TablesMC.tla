------------------------------- MODULE TablesMC ------------------------------
(* Class by class, the signal, the fall speed and the bulk signal of a column *)
(* of cells are made from tables; Bug: typical mistakes (a table or an axis   *)
(* kept from the class before, the last size forgotten, ...).                 *)
EXTENDS Tables, TLC
CONSTANTS B, V, Bug
VARIABLES order, k, i, acc, tab, out, psd, fam, mie
vars == <<order, k, i, acc, tab, out, psd, fam, mie>>
Classes == {"cl", "ci", "pi"}
Keys == {"mie:cl", "mie:ci", "mie:pi", "CESM_ice", "E3_ice"}
\* toy tables, different for every key
Beta(key) == CASE key = "mie:cl" -> <<1, 2>> [] key = "mie:ci" -> <<2, 1>> [] key = "mie:pi" -> <<1, 3>>
               [] key = "CESM_ice" -> <<3, 1>> [] key = "E3_ice" -> <<2, 3>>
Vel(x) == CASE x = "cl" -> <<0, 1>> [] x = "ci" -> <<1, 2>> [] x = "pi" -> <<2, 3>>
Orders == {o \in [1..3 -> Classes] : \A a, b \in 1..3 : o[a] = o[b] => a = b}
Init == /\ order \in Orders /\ k = 1 /\ i = 1 /\ acc = <<0, 0>> /\ tab = "mie:cl" /\ out = <<>>
        /\ psd \in [Classes -> {f \in [1..2 -> 0..V] : TRUE}] /\ fam \in {"CESM", "ModelE"} /\ mie \in BOOLEAN
X == order[k]
Pick == CASE Bug = "mie_ignored" -> Single(fam, X, FALSE, 0)
          [] Bug = "stale" /\ k > 1 /\ ~IsLiq(X) /\ ~IsLiq(order[k - 1]) -> tab
          [] Bug = "family" -> Single("CESM", X, mie, 0)
          [] OTHER -> Single(fam, X, mie, 0)
Load == k <= 3 /\ i = 1 /\ tab' = Pick /\ acc' = (IF Bug = "carry" THEN acc ELSE <<0, 0>>)
        /\ i' = 2 /\ UNCHANGED <<order, k, out, psd, fam, mie>>
\* sizes 1..B are visited one by one
Add == /\ k <= 3 /\ i >= 2 /\ i <= (IF Bug = "last" THEN B ELSE B + 1)
       /\ LET c == psd[X][i - 1] * Beta(tab)[i - 1] IN acc' = <<acc[1] + c, acc[2] + c * Vel(X)[i - 1]>>
       /\ i' = i + 1 /\ UNCHANGED <<order, k, tab, out, psd, fam, mie>>
Done == /\ k <= 3 /\ i = (IF Bug = "last" THEN B + 1 ELSE B + 2)
        /\ out' = Append(out, [x |-> X, s |-> acc[1], m |-> acc[2]])
        /\ k' = k + 1 /\ i' = 1 /\ UNCHANGED <<order, acc, tab, psd, fam, mie>>
Next == Load \/ Add \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Key(x) == Single(fam, x, mie, 0)
Signal == \A j \in DOMAIN out : out[j].s = Integral(psd[out[j].x], Beta(Key(out[j].x)))
Speed == \A j \in DOMAIN out : out[j].m = Weighted(psd[out[j].x], Beta(Key(out[j].x)), Vel(out[j].x))
\* consequences a user relies on: the speed of a class lies among those of its particles, one with none is silent
Among == \A j \in DOMAIN out : LET v == Vel(out[j].x) IN
           /\ out[j].m >= out[j].s * v[1] /\ out[j].m <= out[j].s * v[2]
           /\ (psd[out[j].x] = <<0, 0>> => out[j].s = 0)
All == <>(Len(out) = 3)
\* interpolation hits its nodes, stays between them and is held outside
Nodes == <<2, 4, 7>>
ASSUME \A ys \in [1..3 -> 0..2] : \A x \in 0..9 :
   LET d == Den(Nodes, x)  y == Interp(Nodes, ys, x) IN
   /\ \A j \in 1..3 : x = Nodes[j] => y = d * ys[j]
   /\ (x <= 2 => y = ys[1]) /\ (x >= 7 => y = ys[3])
   /\ \E a, b \in 1..3 : y >= d * ys[a] /\ y <= d * ys[b]
===============================================================================
