------------------------------ MODULE Archive --------------------------------
(* What saving, loading, finalizing and clearing may do to a dataset.  A      *)
(* dataset maps field names to [id, zid, dims, u]: the identity of its values,*)
(* the identity they have when zeros become undefined, dimensions, attributes.*)
EXTENDS Integers, Sequences, FiniteSets
InSeq(s) == {s[i] : i \in DOMAIN s}
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
IsSub(ds, n) == "subcolumn" \in InSeq(ds[n].dims)
Working == {"mu", "lambda", "N_0"}                        \* scratch of the size-distribution calculation, no results
SubFields(ds) == {n \in DOMAIN ds : IsSub(ds, n)} \ Working
SameField(x, y) == x.id = y.id /\ x.dims = y.dims /\ x.u = y.u

\* every subcolumn field is in the file, and nothing in it differs from the dataset
SavedAll(ds, file) == SubFields(ds) \subseteq DOMAIN file
SavedRight(ds, file) == \A n \in DOMAIN file : n \in DOMAIN ds /\ SameField(file[n], ds[n])
\* loading adds what the file holds and leaves the rest
LoadedAll(ds, file, new) == DOMAIN new = DOMAIN ds \cup DOMAIN file
LoadedRight(ds, file, new) == \A n \in DOMAIN file \cap DOMAIN new : SameField(new[n], file[n])
LoadedRest(ds, file, new) == \A n \in (DOMAIN ds \ DOMAIN file) \cap DOMAIN new : SameField(new[n], ds[n])
\* zeros of subcolumn results (and of the fields asked for) become undefined, nothing else changes
Finalizes(n, more) == Contains(n, "sub_col") \/ n \in more
Finalized(ds, more, new) == \A n \in DOMAIN ds \cap DOMAIN new :
   new[n].id = (IF Finalizes(n, more) THEN ds[n].zid ELSE ds[n].id) /\ new[n].dims = ds[n].dims /\ new[n].u = ds[n].u
\* the subcolumn fields of one cloud type disappear
Cleared(ds, cloud) == {n \in DOMAIN ds : IsSub(ds, n) /\ Contains(n, cloud)}
=============================================================================
