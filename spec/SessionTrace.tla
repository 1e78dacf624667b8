---------------------------- MODULE SessionTrace -----------------------------
(* Recorded sessions on one scene.  The specification tracks the derivation  *)
(* of every group; `known` learns the observed value of each derivation the  *)
(* first time it appears (in whatever session) and demands it ever after.    *)
EXTENDS Session, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, prov, dig, known, bad
vars == <<tid, k, prov, dig, known, bad>>
T == Traces[tid]
E == T.ev[k]

Steps(o) == IF o.k = "sim" THEN Plan(o, o.lidar = "true", T.conv, T.p3) ELSE <<o>>
Pre == {T.pre[i] : i \in 1..Len(T.pre)}     \* results the scene already holds
Start == [g \in Groups |-> IF g \in Pre THEN "pre" ELSE None]
P0 == IF E.new THEN Start ELSE prov
P1 == IF E.err # "" THEN P0 ELSE ApplyAll(Steps(E.op), P0, T.conv)
Written == UNION {Writes(Steps(E.op)[i]) : i \in 1..Len(Steps(E.op))}
Changed == IF E.op.k = "fin" \/ (E.op.k = "sim" /\ E.op.fin = "true") THEN Groups ELSE Written
D(g) == IF g \in DOMAIN E.dig THEN E.dig[g] ELSE 0
Opaque == {g \in Groups : g \in DOMAIN E.dig /\ E.dig[g] = -1}     \* not compared (random draw)

\* a step whose prerequisites are missing, a wrong instrument, another number of subcolumns
Mis == "mis" \in DOMAIN E
Misuse == Mis /\ (E.mis \in {"number", "unready"} \/ ~Legal(E.op, P0, T.conv))
Clauses ==
  IF Misuse THEN (IF E.err # "" THEN {} ELSE {"misuse_is_refused"}) \cup
                 (IF E.mis = "unready" /\ ~(E.kind = "KeyError" /\ E.names) THEN {"misuse_says_what_is_missing"} ELSE {}) ELSE
  IF E.err # "" THEN {"call_completes"} ELSE
  (IF \A g \in Groups \ Opaque : P1[g] # None =>
        (<<g, P1[g]>> \in DOMAIN known => known[<<g, P1[g]>>] = D(g)) THEN {} ELSE {"same_derivation_same_result"}) \cup
  (IF \A g \in Groups \ Opaque : (g \notin Changed /\ ~E.new) => D(g) = dig[g] THEN {} ELSE {"other_results_untouched"}) \cup
  (IF \A g \in Groups : P1[g] = None => D(g) = 0 THEN {} ELSE {"only_requested_results"}) \cup
  (IF \A g \in Groups : P1[g] # None => D(g) # 0 THEN {} ELSE {"requested_results_exist"}) \cup
  (IF E.inputs = T.inputs THEN {} ELSE {"inputs_unchanged"}) \cup
  (IF E.settings = T.settings THEN {} ELSE {"settings_unchanged"})

Learn == [x \in DOMAIN known \cup {<<g, P1[g]>> : g \in {h \in Groups \ Opaque : P1[h] # None}} |->
            IF x \in DOMAIN known THEN known[x] ELSE D(x[1])]

Init == /\ tid \in 1..Len(Traces) /\ k = 1 /\ prov = Fresh /\ bad = {}
        /\ dig = [g \in Groups |-> 0] /\ known = <<>>
Next == \/ k >= 1 /\ k <= Len(T.ev)
           /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ prov' = P1 /\ dig' = [g \in Groups |-> D(g)]
           /\ known' = (IF E.err # "" THEN known ELSE Learn)
           /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, prov, dig, known, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
