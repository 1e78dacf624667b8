------------------------------- MODULE SubsetMC -------------------------------
(* Two calculations on the same model object, each for an ordered list of     *)
(* classes: per class a field, then a total over the list.  The restricted    *)
(* calculation must equal the unrestricted one in a scene without the other   *)
(* classes, for every order, and leave the other classes' fields alone.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Classes, MaxV, Bug
VARIABLES mass, lists, run, pos, fld, tot, par, before
vars == <<mass, lists, run, pos, fld, tot, par, before>>
None == 0 - 1
Lists == {s \in UNION {[1..n -> Classes] : n \in 1..Cardinality(Classes)} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
In(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Init == /\ mass \in [Classes -> 0..MaxV] /\ lists \in Lists \X Lists
        /\ run = 1 /\ pos = 1 /\ fld = [c \in Classes |-> None] /\ tot = 0 /\ par = 0 /\ before = [c \in Classes |-> None]
L == lists[run]
\* "leak": a class without own size parameters takes those of the class before it
Resp(c) == IF Bug = "leak" /\ mass[c] > 0 THEN mass[c] + par ELSE mass[c]
Step == /\ run <= 2 /\ pos <= Len(L)
        /\ fld' = [fld EXCEPT ![L[pos]] = Resp(L[pos])]
        /\ tot' = IF pos = 1 THEN Resp(L[pos]) ELSE tot + Resp(L[pos])
        /\ par' = IF Bug = "leak" THEN mass[L[pos]] ELSE par
        /\ pos' = pos + 1 /\ UNCHANGED <<mass, lists, run, before>>
End == /\ run <= 2 /\ pos = Len(L) + 1
       \* "fields": the total adds up every class field there is, also those of an earlier calculation
       /\ tot' = IF Bug = "fields" THEN Sum([c \in Classes |-> IF fld[c] = None THEN 0 ELSE fld[c]], Classes) ELSE tot
       /\ fld' = IF Bug = "touch" THEN [c \in Classes |-> IF c \in In(L) THEN fld[c] ELSE 0] ELSE fld
       /\ pos' = Len(L) + 2 /\ UNCHANGED <<mass, lists, run, par, before>>
Again == /\ run = 1 /\ pos = Len(L) + 2 /\ run' = 2 /\ pos' = 1 /\ before' = fld /\ tot' = 0 /\ par' = 0 /\ UNCHANGED <<mass, lists, fld>>
Next == Step \/ End \/ Again
Spec == Init /\ [][Next]_vars
Done == pos = Len(L) + 2
SubsetIsZeroed == Done => tot = Sum([c \in Classes |-> IF c \in In(L) THEN mass[c] ELSE 0], Classes)
ClassFields == Done => \A c \in In(L) : fld[c] = mass[c]
OthersUntouched == Done => \A c \in Classes \ In(L) : fld[c] = before[c]
=============================================================================
