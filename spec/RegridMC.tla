------------------------------ MODULE RegridMC -------------------------------
(* The regridding loop of COSP as a step machine: one pass over the old       *)
(* levels, stepping back two after each new level.  Every overlapping pair of *)
(* layers must have been visited exactly once, with the depth they share.     *)
EXTENDS Regrid, FiniteSets, TLC
CONSTANTS NOld, NNew, MaxZ, Bug
VARIABLES zh, zf, edge, k, lev, w, err
vars == <<zh, zf, edge, k, lev, w, err>>
Asc(n) == {s \in [1..n -> 0..MaxZ] : \A i \in 1..(n - 1) : s[i] < s[i + 1]}
Init == /\ zh \in Asc(NOld) /\ edge \in Asc(NNew + 1)
        \* full levels: only the top one matters, half a layer above its bottom
        /\ \E d \in 1..2 : zf = [i \in 1..NOld |-> zh[i] + d]
        /\ k = 1 /\ lev = 0 /\ w = [i \in 1..NNew |-> [l \in 1..NOld |-> 0]] /\ err = FALSE
Limit == IF Bug = "bound" THEN NOld + 1 ELSE NOld
Back(x) == IF Bug = "skip" THEN (IF x - 2 < 2 THEN 1 ELSE x - 2)
           ELSE IF Bug = "noback" THEN x ELSE IF x - 2 < 1 THEN 0 ELSE x - 2
NextLevel(x) == k' = k + 1 /\ lev' = Back(x) /\ UNCHANGED <<w, err>>
Visit ==
  /\ k <= NNew /\ ~err /\ UNCHANGED <<zh, zf, edge>>
  /\ IF lev >= Limit THEN NextLevel(lev)
     ELSE IF lev + 1 > NOld THEN err' = TRUE /\ UNCHANGED <<k, lev, w>>
     ELSE LET l == lev + 1
              bot == Bot(zh, l)
              top == Top(zh, zf, l)
              nb == edge[k]
              nt == edge[k + 1] IN
          IF bot - nt >= 0 THEN NextLevel(l)
          ELSE /\ lev' = l /\ UNCHANGED <<k, err>>
               /\ w' = IF top - nb <= 0 THEN w
                       ELSE LET x == IF bot - nb <= 0 THEN (IF top - nt <= 0 THEN top - nb ELSE nt - nb)
                                     ELSE IF top - nt <= 0 THEN (IF Bug = "thick" THEN nt - bot ELSE top - bot) ELSE nt - bot IN
                            [w EXCEPT ![k][l] = @ + x]
Spec == Init /\ [][Visit]_vars
Done == k > NNew
Right == Done => \A i \in 1..NNew, l \in 1..NOld : w[i][l] = Weight(zh, zf, edge[i], edge[i + 1], l)
NoError == ~err
\* contiguous new layers share each old layer out completely
Conserves == Done => \A l \in 1..NOld : (edge[1] <= Bot(zh, l) /\ edge[NNew + 1] >= Top(zh, zf, l)) =>
               SumTo([i \in 1..NNew |-> w[i][l]], NNew) = Top(zh, zf, l) - Bot(zh, l)
=============================================================================
