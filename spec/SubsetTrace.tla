------------------------------ MODULE SubsetTrace -----------------------------
(* Recorded families of calculations of one scene: for a list of classes the  *)
(* restricted calculation ("res", reference), the same with the list in other *)
(* orders ("perm"), the full calculation in the scene where the other classes *)
(* hold nothing ("zero"), the restricted calculation where others hold        *)
(* something else ("other"), and the restricted one on a model that holds     *)
(* results of all classes ("over").  E.f: field -> value identity (equal iff  *)
(* the arrays agree); E.own: fields of requested classes and totals;          *)
(* E.rest0/E.rest: identities of unrequested class fields before and after.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
Ref == T.ev[1]
Same(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
Name == CASE E.kind = "zero" -> "restricted_is_others_zeroed" [] E.kind = "perm" -> "order_of_classes_irrelevant"
          [] E.kind = "other" -> "other_classes_do_not_matter" [] E.kind = "over" -> "earlier_results_do_not_matter"
          [] OTHER -> "reference"
Clauses ==
  IF E.err # "" \/ Ref.err # "" THEN {"call_completes"} ELSE
  (IF Same(E.f, Ref.f) THEN {} ELSE {Name}) \cup
  (IF Same(E.rest0, E.rest) THEN {} ELSE {"unrequested_untouched"})
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
