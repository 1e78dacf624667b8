-------------------------------- MODULE LoadMC -------------------------------
(* Reading one file: sub-domains are joined, the times cropped, the levels    *)
(* turned over field by field, pressure and density are derived, numbers      *)
(* converted class by class, time and space stacked - fields and classes in   *)
(* any order.  Every field is a map from places to cells of the file.         *)
EXTENDS Load, TLC
CONSTANTS NT, NL, Sub1, Sub2, Bug
Subs == <<Sub1, Sub2>>
VARIABLES pc, todo, tm, km, cm, lev, win, conv, lab
vars == <<pc, todo, tm, km, cm, lev, win, conv, lab>>
Fields == {"T", "hyam", "PS", "NUMLIQ", "NUMICE"}
Cells(f) == f # "PS"                       \* has levels
Up(n) == [i \in 1..n |-> i]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Join(_, _)
Join(ss, from) == IF ss = <<>> THEN <<>>
                  ELSE [i \in 1..Head(ss) |-> <<from, i>>] \o Join(Tail(ss), from + 1)
AllCols == Join(Subs, 1)
Classes == {"cl", "ci", "pi"}
NOf(x) == CASE x = "cl" -> "NUMLIQ" [] x = "ci" -> "NUMICE" [] x = "pi" -> IF Bug = "shared" THEN "NUMICE" ELSE "zeros"
Used == IF Bug = "shared" THEN Classes ELSE Classes \ {"pi"}
Init == /\ pc = "join" /\ todo = Fields /\ tm = [f \in Fields |-> Up(NT)] /\ km = [f \in Fields |-> Up(NL)]
        /\ cm = [f \in Fields |-> <<>>] /\ lev = Up(NL) /\ win = {} /\ conv = [f \in Fields |-> 0] /\ lab = <<>>
Go(next, rest) == pc' = next /\ todo' = rest
JoinOne == /\ pc = "join" /\ todo # {}
           /\ \E f \in todo : /\ cm' = [cm EXCEPT ![f] = IF Bug = "joined" /\ f = "T" THEN Rev(AllCols) ELSE AllCols]
                              /\ Go("join", todo \ {f})
           /\ UNCHANGED <<tm, km, lev, win, conv, lab>>
JoinEnd == pc = "join" /\ todo = {} /\ Go("crop", {}) /\ UNCHANGED <<tm, km, cm, lev, win, conv, lab>>
Sorted(S) == LET RECURSIVE F(_)
                 F(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o F(s \ {m})
             IN F(S)
Crop == /\ pc = "crop" /\ Go("flip", Fields)
        /\ \E a, b \in 0..NT + 1 :
             /\ win' = Window(Up(NT), a, b)
             /\ LET keep == IF Bug = "closed" THEN {i \in 1..NT : i >= a /\ i <= b} ELSE win'
                    k == IF keep = {} THEN 1..NT ELSE keep IN
                tm' = [f \in Fields |-> Sorted(k)]
        /\ UNCHANGED <<km, cm, lev, conv, lab>>
FlipOne == /\ pc = "flip" /\ todo # {}
           /\ \E f \in todo : /\ Go("flip", todo \ {f})
                              /\ km' = IF Bug = "flat" /\ f = "hyam" THEN km ELSE [km EXCEPT ![f] = Rev(km[f])]
           /\ UNCHANGED <<tm, cm, lev, win, conv, lab>>
FlipEnd == /\ pc = "flip" /\ todo = {} /\ Go("number", Used)
           /\ lev' = IF Bug = "coordinate" THEN lev ELSE Rev(lev)
           /\ UNCHANGED <<tm, km, cm, win, conv, lab>>
Number == /\ pc = "number" /\ todo # {}
          /\ \E x \in todo : Go("number", todo \ {x}) /\ conv' = [conv EXCEPT ![NOf(x)] = @ + 1]
          /\ UNCHANGED <<tm, km, cm, lev, win, lab>>
Stack == /\ pc = "number" /\ todo = {} /\ Go("done", {})
         /\ LET t == tm["T"] c == cm["T"] n == Len(t) IN
            lab' = [i \in 1..n * Len(c) |-> IF Bug = "labels" THEN <<t[((i - 1) \div Len(c)) + 1], c[((i - 1) % Len(c)) + 1]>>
                                            ELSE <<t[((i - 1) % n) + 1], c[((i - 1) \div n) + 1]>>]
         /\ UNCHANGED <<tm, km, cm, lev, win, conv>>
Next == JoinOne \/ JoinEnd \/ Crop \/ FlipOne \/ FlipEnd \/ Number \/ Stack
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
\* place i of the stacked columns: columns slow, times fast
At(f, i) == LET n == Len(tm[f]) IN <<tm[f][((i - 1) % n) + 1], cm[f][((i - 1) \div n) + 1]>>
Aligned == Done => \A f \in Fields : /\ cm[f] = cm["T"] /\ tm[f] = tm["T"]
                                     /\ Cells(f) => km[f] = lev
Upward == Done => lev = Rev(Up(NL))
Once == Done => \A x \in {"cl", "ci"} : conv[NOf(x)] = 1
Complete == Done => /\ {lab[i] : i \in 1..Len(lab)} = win \X {AllCols[j] : j \in 1..Len(AllCols)}
                    /\ Len(lab) = Cardinality(win) * Len(AllCols)
Labelled == Done => \A i \in 1..Len(lab) : lab[i] = At("T", i)
Finishes == <>Done
==============================================================================
