---------------------------- MODULE ArchiveTrace -----------------------------
(* Recorded histories: E.ds the dataset after operation E.op, E.file the      *)
(* content of the last file written (read back independently of emc2).        *)
(*  start     the first event, or a fresh model with the same input fields    *)
(*  sim       simulation; E.ref > 0: event with the same simulation           *)
(*  save, load, finalize (E.more: further names), clear (E.cloud)             *)
EXTENDS Archive, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
P == T.ev[k - 1]
Same(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : SameField(f[x], g[x])
Clauses ==
  IF E.err # "" THEN {"call_completes"} ELSE
  CASE E.op = "start" -> {}
    [] E.op = "sim" ->
         (IF E.ref = 0 \/ Same([x \in SubFields(T.ev[E.ref].ds) |-> T.ev[E.ref].ds[x]],
                               [x \in SubFields(E.ds) |-> E.ds[x]]) THEN {} ELSE {"simulated_again_the_same"})
    [] E.op = "save" ->
         (IF SavedAll(P.ds, E.file) THEN {} ELSE {"saved_every_subcolumn_field"}) \cup
         (IF SavedRight(P.ds, E.file) THEN {} ELSE {"saved_as_it_is"}) \cup
         (IF Same(P.ds, E.ds) THEN {} ELSE {"saving_changes_nothing"})
    [] E.op = "load" ->
         (IF LoadedAll(P.ds, P.file, E.ds) THEN {} ELSE {"loaded_every_field"}) \cup
         (IF LoadedRight(P.ds, P.file, E.ds) THEN {} ELSE {"loaded_as_written"}) \cup
         (IF LoadedRest(P.ds, P.file, E.ds) THEN {} ELSE {"loading_keeps_the_rest"})
    [] E.op = "finalize" ->
         (IF DOMAIN P.ds = DOMAIN E.ds /\ Finalized(P.ds, InSeq(E.more), E.ds) THEN {} ELSE {"only_zeros_undefined"})
    [] E.op = "clear" ->
         (IF DOMAIN E.ds = DOMAIN P.ds \ Cleared(P.ds, E.cloud) THEN {} ELSE {"exactly_the_fields_cleared"}) \cup
         (IF \A x \in DOMAIN E.ds \cap DOMAIN P.ds : SameField(E.ds[x], P.ds[x]) THEN {} ELSE {"others_untouched"})
Inputs == IF E.err = "" /\ ~E.blank /\ ~(\A x \in DOMAIN T.inputs : x \in DOMAIN E.ds /\ SameField(E.ds[x], T.inputs[x]))
          THEN {"inputs_untouched"} ELSE {}
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses \cup Inputs /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
