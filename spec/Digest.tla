------------------------------- MODULE Digest -------------------------------
(* Observed results as tables field -> sequence of value identities (one per *)
(* column); two values have the same identity iff they agree to 1e-9.        *)
EXTENDS Integers, Sequences, FiniteSets

SameFields(a, b) == DOMAIN a = DOMAIN b
SameUnder(a, b, perm) ==        \* b[f][i] is a's column perm[i]
  \A f \in DOMAIN a \cap DOMAIN b :
    /\ Len(b[f]) = Len(perm)
    /\ \A i \in 1..Len(perm) : b[f][i] = a[f][perm[i]]
Equal(a, b) == \A f \in DOMAIN a \cap DOMAIN b : a[f] = b[f]
=============================================================================
