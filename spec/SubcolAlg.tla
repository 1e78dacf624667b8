------------------------------ MODULE SubcolAlg -----------------------------
(* Implementation-shaped model of one level of the stratiform and of the     *)
(* precipitation allocation (the case analysis of the code, with every       *)
(* random permutation an explicit choice).  TLC checks, for every input of a *)
(* small grid cell, that each result satisfies the relations of Subcol.      *)
EXTENDS Subcol
CONSTANTS N, DoStrat,
          Inherit   \* FALSE: the original code, where the larger class took over the
                    \* mixed-phase subcolumns above only if the smaller one was present
VARIABLES pc, conv, up, c, rem, S, cloudy

vars == <<pc, conv, up, c, rem, S, cloudy>>
Sub(X, k) == {R \in SUBSET X : Cardinality(R) = Min2(k, Cardinality(X))}
Pairs == {p \in (SUBSET Cols(N)) \X (SUBSET Cols(N)) : p[1] \subseteq p[2] \/ p[2] \subseteq p[1]}

Init == /\ pc = "start" /\ rem = <<0, 0>> /\ S = <<{}, {}>>
        /\ up \in Pairs
        /\ c \in (0..N) \X (0..N)
        /\ IF DoStrat THEN conv \in SUBSET Cols(N) /\ cloudy = {}
                      ELSE conv = {} /\ cloudy \in SUBSET Cols(N)

A(i) == up[i] \ conv
Imin == IF c[1] <= c[2] THEN 1 ELSE 2
Imax == 3 - Imin
Omin == IF Cardinality(A(1)) <= Cardinality(A(2)) THEN A(1) ELSE A(2)
Omax == IF Cardinality(A(1)) <= Cardinality(A(2)) THEN A(2) ELSE A(1)
Uniq == (A(1) \ A(2)) \cup (A(2) \ A(1))
Put(mn, mx) == IF Imin = 1 THEN <<mn, mx>> ELSE <<mx, mn>>
cm == c[Imin]
cx == c[Imax]
om == Cardinality(Omin)
ou == Cardinality(Uniq)

SOvercast == pc = "start" /\ cm = N /\ S' = <<Cols(N), Cols(N)>> /\ pc' = "done" /\ UNCHANGED rem
SClear == pc = "start" /\ cx = 0 /\ pc' = "done" /\ UNCHANGED <<S, rem>>
SGo == pc = "start" /\ cm # N /\ cx # 0
       /\ rem' = c /\ pc' = (IF up[1] \cup up[2] # {} THEN "over" ELSE "free") /\ UNCHANGED S
\* remaining counts are kept as <<for Imin, for Imax>>
SCase1 == pc = "over" /\ om > cx
          /\ rem' = Put(0, 0) /\ pc' = "free"
          /\ \E R \in Sub(Omin, cx) : \E Q \in Sub(R, cm) : S' = Put(Q, R)
SCase2 == pc = "over" /\ om <= cx /\ om > cm /\ pc' = "free"
          /\ \E Q \in Sub(Omin, cm) :
               LET base == IF Inherit \/ cm > 0 THEN Omin ELSE {}
                   left == cx - om
               IN IF ou > left
                  THEN \E R \in Sub(Uniq, left) : S' = Put(Q, base \cup R) /\ rem' = Put(0, 0)
                  ELSE S' = Put(Q, base \cup Uniq) /\ rem' = Put(0, left - ou)
SCase3 == pc = "over" /\ om <= cx /\ om <= cm /\ Cardinality(Omax) > cm /\ pc' = "free"
          /\ LET lm == cm - om
                 lx == cx - om
             IN IF ou > lx
                THEN \E R \in Sub(Uniq, lx) : \E Q \in Sub(R, lm) :
                       S' = Put(Omin \cup Q, Omin \cup R) /\ rem' = Put(0, 0)
                ELSE \E Q \in Sub(Uniq, lm) :
                       S' = Put(Omin \cup Q, Omin \cup Uniq) /\ rem' = Put(0, lx - ou)
SCase4 == pc = "over" /\ om <= cm /\ Cardinality(Omax) <= cm
          /\ S' = Put(Omax, Omax)
          /\ rem' = Put(cm - Cardinality(Omax), cx - Cardinality(Omax)) /\ pc' = "free"
SFree == pc = "free" /\ pc' = "done" /\ UNCHANGED rem
         /\ IF rem[Imax] > 0
            THEN \E R \in Sub(Cols(N) \ (S[Imax] \cup conv), rem[Imax]) :
                 \E Q \in Sub(R, rem[Imin]) : S' = Put(S[Imin] \cup Q, S[Imax] \cup R)
            ELSE UNCHANGED S

\* ---- precipitation: over -> cloudy -> free, with a common random order ----
P == up[1] \cup up[2]
pmax == Max2(c[1], c[2])
any == S[1] \cup S[2]
Spread(X) == \* extend both classes over X along one random order (nested prefixes)
  LET k1 == Min2(rem[1], Cardinality(X))
      k2 == Min2(rem[2], Cardinality(X))
  IN IF k1 <= k2 THEN \E R2 \in Sub(X, k2) : \E R1 \in Sub(R2, k1) :
                        S' = <<S[1] \cup R1, S[2] \cup R2>> /\ rem' = <<rem[1] - k1, rem[2] - k2>>
     ELSE \E R1 \in Sub(X, k1) : \E R2 \in Sub(R1, k2) :
                        S' = <<S[1] \cup R1, S[2] \cup R2>> /\ rem' = <<rem[1] - k1, rem[2] - k2>>
POvercast == pc = "start" /\ c = <<N, N>> /\ S' = <<Cols(N), Cols(N)>> /\ pc' = "done" /\ UNCHANGED rem
PGo == pc = "start" /\ c # <<N, N>> /\ rem' = c /\ pc' = "p1" /\ UNCHANGED S
PAbove == pc = "p1" /\ pc' = "p2" /\ Spread(P)
PCloud == pc = "p2" /\ pc' = "p3" /\ Spread(cloudy \ any)
PFree == pc = "p3" /\ pc' = "done" /\ Spread(Cols(N) \ (cloudy \cup any))

Step == IF DoStrat THEN SOvercast \/ SClear \/ SGo \/ SCase1 \/ SCase2 \/ SCase3 \/ SCase4 \/ SFree
                   ELSE POvercast \/ PGo \/ PAbove \/ PCloud \/ PFree
Next == (Step /\ UNCHANGED <<conv, up, c, cloudy>>) \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Refines == pc = "done" =>
   IF DoStrat THEN Holds(StratOK(c[1], c[2], conv, up[1], up[2], S[1], S[2], N))
              ELSE Holds(PrecipOK(c, P, cloudy, S, N))
=============================================================================
