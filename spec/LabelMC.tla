------------------------------- MODULE LabelMC --------------------------------
(* A program that labels what it makes, in any order of steps: every field    *)
(* always says what the step that made it did.  Bug: the ways of getting this *)
(* wrong - labels set when a field first appears and never again, labels of   *)
(* the classes that were not asked for, the label of the asked instead of the *)
(* used method, one step's direction on another's results.                    *)
EXTENDS Label
CONSTANTS D, Bug
VARIABLES n, made, said
vars == <<n, made, said>>
All == {"cl", "ci"}
Fam == "ModelE"
Lbl(f, o, up) == [method |-> Method(f, o), db |-> Database(f, o, Fam), edge |-> Edge(f, up)]
Said(f, o, up) ==
  LET l == Lbl(f, o, up) IN
  CASE Bug = "asked" /\ o.k = "lid" /\ o.cloud = "conv" /\ o.route = "micro" -> [l EXCEPT !.method = "LUTs (microphysics logic)"]
    [] Bug = "mie" /\ o.k \in {"lid", "rad"} /\ o.mie = "true" -> [l EXCEPT !.db = "Mie"]
    [] Bug = "edge" /\ o.k = "ltot" -> [l EXCEPT !.edge = IF @ = "-" THEN "-" ELSE "base"]
    [] OTHER -> l
Ops == {Lid(c, "HSRL", r, d, m, "1", h) : c \in {"strat", "conv"}, r \in {"bulk", "micro", "empirical"}, d \in {"up", "down"},
                                         m \in {"true", "false"}, h \in {"all", "ci"}}
  \cup {Rad("strat", "KAZR", r, "up", "false", h, s) : r \in {"bulk", "micro"}, h \in {"all", "ci"}, s \in {"true", "false"}}
  \cup {LTot(d, "1") : d \in {"up", "down"}} \cup {Ldr("down", "4", "all"), Cosp("HSRL", "up", "1", "all", "false")}
Init == n = 0 /\ made = <<>> /\ said = <<>>
Do(o) == /\ n < D /\ n' = n + 1
         /\ made' = MakeAll(<<o>>, TRUE, made, All, TRUE)
         /\ LET F == Makes(o, All, TRUE)
                G == IF Bug = "leftover" /\ o.k = "lid" THEN {f \in DOMAIN said : f[3] = o.cloud /\ f[1] \in {"beta"}} \cup F ELSE F
                u == o.dir # "down"
            IN said' = [f \in DOMAIN made' |-> IF f \in G /\ ~(Bug = "first" /\ f \in DOMAIN said) THEN Said(f, o, u) ELSE said[f]]
Next == (\E o \in Ops : Do(o)) \/ (n = D /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Truthful == DOMAIN said = DOMAIN made /\ \A f \in DOMAIN said : said[f] = Lbl(f, made[f].o, made[f].up)
\* nothing is called by two methods, nothing computed without tables names one
Sound == \A f \in DOMAIN said : /\ (said[f].method = "Empirical" <=> said[f].db = "Empirical (no utilized scattering database)")
                                /\ (f[3] = "conv" => said[f].method # "LUTs (microphysics logic)")
\* a subset of classes leaves the others as they were
Local == [][\A f \in DOMAIN said : f \in DOMAIN said' /\ f[2] = "cl" /\ made'[f] = made[f] => said'[f] = said[f]]_vars
==============================================================================
