------------------------------ MODULE CfadTrace ------------------------------
(* Recorded frequency-by-altitude diagrams.  T.e: bin edges; E.s the samples  *)
(* of one level (a sequence of times, each a sequence over subcolumns) and    *)
(* E.f the frequencies of its bins, in millionths.                            *)
EXTENDS Cfad, Num, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
S == Flat(E.s)
N == Len(S)
Million == 1000000
Clauses ==
  IF E.err # "" THEN {"call_completes"} ELSE
  CASE E.op = "one" ->         \* a single time: undefined where no sample lies in range
         IF InAll(S, T.e) = 0 THEN IF \A j \in Bins(T.e) : E.f[j] = Nan THEN {} ELSE {"no_sample_undefined"}
         ELSE IF \A j \in Bins(T.e) : IsNum(E.f[j]) /\ Abs(E.f[j] * N - Million * Count(S, T.e, j)) <= N THEN {}
              ELSE {"share_of_samples_in_bin"}
    [] E.op = "all" ->         \* over all times: share of all samples
         (IF \A j \in Bins(T.e) : IsNum(E.f[j]) /\ Abs(E.f[j] * N - Million * Count(S, T.e, j)) <= N THEN {}
          ELSE {"share_of_samples_in_bin"}) \cup
         (IF (\A j \in Bins(T.e) : IsNum(E.f[j])) => Abs(Sum(E.f, Len(T.e) - 1) * N - Million * InAll(S, T.e)) <= N * Len(T.e) THEN {}
          ELSE {"every_sample_in_range_once"})
    [] E.op = "file" ->        \* what was written and read back, as identities of contents
         (IF DOMAIN E.want \subseteq DOMAIN E.got THEN {} ELSE {"everything_saved"}) \cup
         (IF \A x \in DOMAIN E.want \cap DOMAIN E.got : E.want[x] = E.got[x] THEN {} ELSE {"saved_as_it_is"})
    [] E.op = "untouched" -> IF E.same THEN {} ELSE {"arguments_unchanged"}
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev) /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
=============================================================================
