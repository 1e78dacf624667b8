----------------------------- MODULE SignalTrace ------------------------------
(* Recorded columns (one subcolumn of one model column, all levels), lidar    *)
(* and radar, one cloud type or the combination.  E.st: state per class;      *)
(* E.lin, E.acc, E.db: observed signs per class of linear, accumulated and    *)
(* decibel quantities; E.tlin, E.tacc, E.tdb the same for the totals;         *)
(* E.pos: quantities that must be positive and finite everywhere.             *)
EXTENDS Signal, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
Cl == 1..Len(E.st)
El(s) == {s[i] : i \in 1..Len(s)}
Tot == AnyMass(El(E.st))
Clauses ==
  IF T.err # "" THEN {"call_completes"} ELSE
  (IF \A c \in Cl : El(E.lin[c]) \subseteq Linear(E.st[c]) /\ El(E.db[c]) \subseteq Decibel(E.st[c])
   THEN {} ELSE {"class_signal_iff_class_mass"}) \cup
  (IF El(E.tlin) \subseteq Linear(Tot) /\ El(E.tdb) \subseteq Decibel(Tot)
   THEN {} ELSE {"total_signal_iff_any_mass"}) \cup
  (IF (\A c \in Cl : El(E.acc[c]) \subseteq Accumulated) /\ El(E.tacc) \subseteq Accumulated
   THEN {} ELSE {"accumulated_finite_nonnegative"}) \cup
  (IF El(E.pos) \subseteq {"+"} THEN {} ELSE {"transmitted_positive_finite"})
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
