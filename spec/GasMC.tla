-------------------------------- MODULE GasMC --------------------------------
(* Gaseous attenuation level by level: a vapour part that grows with the      *)
(* vapour and an oxygen part whose line width depends on the pressure range.  *)
EXTENDS Integers, Sequences
CONSTANTS Levels, MaxQ, Bug
VARIABLES p, q, k, wv, o2, tot, w
vars == <<p, q, k, wv, o2, tot, w>>
\* pressure ranges, from the top of the atmosphere down: thin, middle, dense
Press == 1..6
Width(pr) == IF pr < 2 THEN 12 ELSE IF pr >= 5 THEN 6 ELSE 6 + (5 - pr)
Faulty(pr) == IF Bug = "range" THEN (IF pr < 5 THEN 6 + (5 - pr) ELSE 6)       \* no cap for thin air
              ELSE Width(pr)
Vap(pr, x) == x * (pr + x)
Oxy(pr) == pr * Width(pr)
Init == /\ p \in [1..Levels -> Press] /\ q \in [1..Levels -> 0..MaxQ]
        /\ k = 0 /\ wv = <<>> /\ o2 = <<>> /\ tot = <<>> /\ w = 0
Next == /\ k < Levels /\ k' = k + 1
        /\ LET pr == p[k + 1]
               x == IF Bug = "below" /\ k > 0 THEN q[k] ELSE q[k + 1]
               v == IF Bug = "dry" /\ q[k + 1] = 0 THEN 1 ELSE Vap(pr, x)
               o == pr * (IF Bug = "stale" /\ k > 0 THEN w ELSE Faulty(pr))
           IN /\ wv' = Append(wv, v) /\ o2' = Append(o2, o)
              /\ tot' = Append(tot, IF Bug = "part" THEN v ELSE v + o) /\ w' = Faulty(pr)
        /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_vars
Own == \A i \in DOMAIN wv : wv[i] = Vap(p[i], q[i]) /\ o2[i] = Oxy(p[i])
Parts == \A i \in DOMAIN tot : tot[i] = wv[i] + o2[i]
Dry == \A i \in DOMAIN wv : q[i] = 0 => wv[i] = 0
Grows == \A i, j \in DOMAIN wv : p[i] = p[j] /\ q[i] < q[j] => wv[i] < wv[j] /\ o2[i] = o2[j]
=============================================================================
