----------------------------- MODULE PhaseRadarMC ------------------------------
(* The classification as a sequence of overwriting passes over one column,    *)
(* for two cloud types and their combination; every small scene.              *)
EXTENDS PhaseRadar, TLC
CONSTANTS H, E, Bug
VARIABLES s, c, both, zmin, rng, mask, pass
vars == <<s, c, both, zmin, rng, mask, pass>>
Cell == [ze : (0..E) \cup {Nan}, cl : BOOLEAN]
Sig(a, b) == IF a = Nan THEN b ELSE IF b = Nan THEN a ELSE Max2(a, b)
Init == /\ s \in [1..H -> Cell] /\ c \in [1..H -> Cell] /\ zmin \in [1..H -> 0..E]
        /\ rng \in {<<>>} \cup {<<a, b>> : a \in 1..H, b \in 1..H}
        /\ both = [i \in 1..H |-> [ze |-> Sig(s[i].ze, c[i].ze),
                     cl |-> IF Bug = "and" THEN s[i].cl /\ c[i].cl ELSE s[i].cl \/ c[i].cl]]
        /\ mask = [k \in {"s", "c", "b"} |-> [i \in 1..H |-> 0]] /\ pass = 1
Src(k) == CASE k = "s" -> s [] k = "c" -> c [] OTHER -> both
Det(k, i) == Detectable(Src(k)[i].ze, zmin[i])
New(k, i) == LET m == mask[k][i] cl == Src(k)[i].cl IN
  CASE pass = 1 -> IF Det(k, i) THEN 3 ELSE m
    [] pass = 2 -> IF Bug = "swap" THEN (IF cl /\ m = 3 THEN 2 ELSE m) ELSE IF cl /\ m # 3 THEN 1 ELSE m
    [] pass = 3 -> IF Bug = "swap" THEN (IF cl /\ m # 3 THEN 1 ELSE m) ELSE IF cl /\ m = 3 THEN 2 ELSE m
    [] OTHER -> IF Inside(i, rng) THEN m ELSE 0
Next == pass <= 4 /\ pass' = pass + 1 /\ mask' = [k \in DOMAIN mask |-> [i \in 1..H |-> New(k, i)]]
        /\ UNCHANGED <<s, c, both, zmin, rng>>
Spec == Init /\ [][Next]_vars
Done == pass = 5
Table == Done => \A i \in 1..H :
  /\ mask["s"][i] = Sounding(s[i].ze, zmin[i], s[i].cl, Inside(i, rng))
  /\ mask["c"][i] = Sounding(c[i].ze, zmin[i], c[i].cl, Inside(i, rng))
  /\ mask["b"][i] = Sounding(Sig(s[i].ze, c[i].ze), zmin[i], s[i].cl \/ c[i].cl, Inside(i, rng))
\* a partition: unclassified exactly where nothing is detectable and no liquid is held
Partition == Done => \A i \in 1..H : Inside(i, rng) =>
  ((mask["b"][i] = 0) <=> ~Det("b", i) /\ ~s[i].cl /\ ~c[i].cl)
=============================================================================
