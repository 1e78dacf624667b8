------------------------------ MODULE SessionMC ------------------------------
(* Explores sessions: every enabled step may come next.  Emit prints whole   *)
(* sessions (to be replayed into the code); HistoryFree says that a group's  *)
(* derivation needs only the steps of its own backward slice, so that a      *)
(* fresh model given just those steps must reproduce it.                     *)
EXTENDS Session
CONSTANTS D, Conv, Lidars, Radars, Routes, Dirs, Emit, Leak
VARIABLES log, prov, kd
vars == <<log, prov, kd>>

Ops == {Lid(c, i, r, d, m, "inst", "all") : c \in {"strat", "conv"}, i \in Lidars, r \in Routes, d \in Dirs,
                                           m \in {"true", "false"}}
  \cup {Rad(c, i, r, d, m, "all", IF r = "micro" THEN "true" ELSE "-") :
          c \in {"strat", "conv"}, i \in Radars, r \in Routes, d \in Dirs, m \in {"true", "false"}}
  \cup {LTot(d, e) : d \in Dirs, e \in {"1", "0.6"}}
  \cup {Ldr(d, e, "all") : d \in Dirs, e \in {"0.5", "4"}}
  \cup {LCls("HSRL", n) : n \in {"true", "false"}}
  \cup {Cosp("HSRL", d, "0.7", "all", "false") : d \in Dirs}
  \cup {ZMin(i, r) : i \in Radars, r \in {"1000", "250"}}
  \cup {RTot}
  \cup {RCls(i, n, "none") : i \in Radars, n \in {"true", "false"}}

\* a step is sensible: empirical relations and convection only where they apply
Sensible(o) == /\ (o.cloud = "conv") => (Conv /\ o.route # "micro")
               /\ (o.route = "empirical") => o.mie = "false"
               /\ (o.k = "lcls" \/ o.k = "cosp") => "HSRL" \in Lidars

Init == log = <<>> /\ prov = Fresh /\ kd = ""

\* Leak: the mistake of totals that add up over repeated calls
ApplyM(o, p) == LET q == Apply(o, p, Conv)
                IN IF Leak /\ o.k = "rad" /\ p["rad_" \o o.cloud] # None
                   THEN [q EXCEPT !["rad_" \o o.cloud] = @ \o "+" \o p["rad_" \o o.cloud]] ELSE q

Do(o) == /\ Len(log) < D /\ o.k = kd /\ kd' = "" /\ Sensible(o) /\ Enabled(o, prov, Conv)
         /\ log' = Append(log, o) /\ prov' = ApplyM(o, prov)

\* backward slice: the steps that contribute to group g after session s
RECURSIVE Slice(_, _)
Slice(s, need) ==
  IF s = <<>> THEN <<>>
  ELSE LET o == s[Len(s)]
           rest == SubSeq(s, 1, Len(s) - 1)
       IN IF Writes(o) \cap need = {} THEN Slice(rest, need)
          ELSE Slice(rest, (need \ Writes(o)) \cup Reads(o, Conv)) \o <<o>>

Show(s) == LET RECURSIVE F(_) F(i) == IF i > Len(s) THEN "" ELSE Key(s[i]) \o "|" \o F(i + 1) IN F(1)
RECURSIVE ShowSlices(_)
ShowSlices(i) == IF i > Len(GroupSeq) THEN ""
  ELSE (IF prov[GroupSeq[i]] = None THEN "" ELSE "#" \o Show(Slice(log, {GroupSeq[i]}))) \o ShowSlices(i + 1)

Report == /\ Emit /\ Len(log) = D
          /\ PrintT("SESSION " \o Show(log) \o ShowSlices(1))
          /\ log' = Append(log, Fin) /\ UNCHANGED <<prov, kd>>
Stop == Len(log) >= D /\ (Emit => Len(log) > D) /\ UNCHANGED vars
\* choose the kind of step first, so that random sessions mix kinds evenly
Kinds == {"lid", "rad", "ltot", "ldr", "lcls", "cosp", "zmin", "rtot", "rcls"}
Pick == /\ kd = "" /\ Len(log) < D
        /\ \E x \in Kinds : /\ \E o \in Ops : o.k = x /\ Sensible(o) /\ Enabled(o, prov, Conv)
                            /\ kd' = x
        /\ UNCHANGED <<log, prov>>
Next == Pick \/ (\E o \in Ops : Do(o)) \/ Report \/ Stop
Spec == Init /\ [][Next]_vars

HistoryFree == Len(log) <= D => \A g \in Groups : prov[g] # None =>
  LET s == Slice(log, {g}) IN ApplyAll(s, Fresh, Conv)[g] = prov[g]
SliceRunnable == Len(log) <= D => \A g \in Groups : prov[g] # None =>
  LET s == Slice(log, {g}) IN \A i \in 1..Len(s) :
     Enabled(s[i], ApplyAll(SubSeq(s, 1, i - 1), Fresh, Conv), Conv)
Repeatable == \A o \in Ops : (Len(log) < D /\ Sensible(o) /\ Enabled(o, prov, Conv) /\ ~Leak) =>
  LET p == Apply(o, prov, Conv) IN Apply(o, p, Conv) = p
=============================================================================
