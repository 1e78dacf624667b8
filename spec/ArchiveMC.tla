----------------------------- MODULE ArchiveMC -------------------------------
(* Histories of one model: simulate, save, load, finalize, clear in any order.*)
(* Values are small functions cell -> {0, 1, 2, NaN}; the actions are written *)
(* as the operations work (by name patterns), the invariants relate the state *)
(* before and after to the contract in Archive.                               *)
EXTENDS Archive, TLC
CONSTANTS Bug, MaxSteps
VARIABLES ds, file, prev, op, n
vars == <<ds, file, prev, op, n>>
NaN == 9
Vals == {<<0, 1>>, <<2, 0>>}
Zero(v) == [i \in DOMAIN v |-> IF v[i] = 0 THEN NaN ELSE v[i]]
F(v, dims) == [id |-> v, zid |-> Zero(v), dims |-> dims, u |-> "u"]
Sub == <<"subcolumn", "time", "height">>
In == ("conv_q_cl" :> F(<<0, 1>>, <<"time", "height">>)) @@ ("strat_frac_cl" :> F(<<1, 0>>, <<"time", "height">>))
Fields(c) == {c \o "_frac_subcolumns_cl", "sub_col_Ze_cl_" \o c, "hyd_ext_" \o c, c \o "_phase_mask"}
Keys == {"sub_col", "subcol", "strat_", "conv_", "_tot", "_ext", "_mask"}
Init == ds = In /\ file = <<>> /\ prev = <<>> /\ op = [k |-> "load0", c |-> ""] /\ n = 0
Step(o, c) == n < MaxSteps /\ n' = n + 1 /\ op' = [k |-> o, c |-> c] /\ prev' = ds
Simulate(c) == /\ Step("sim", c) /\ UNCHANGED file
               /\ \E v \in Vals : ds' = [x \in Fields(c) \cup {"sub_col_Ze_tot", "ext_mask"} |-> F(v, Sub)] @@ ds
Written(x) == \E q \in (IF Bug = "keys" THEN Keys \ {"_ext"} ELSE Keys) :
                 Contains(x, q) /\ ~(Bug = "keys" /\ x \in {"hyd_ext_strat", "hyd_ext_conv"})
Save == /\ Step("save", "") /\ UNCHANGED ds
        /\ file' = [x \in {y \in DOMAIN ds : Written(y)} |-> ds[x]]
\* a merge: fields of both must agree, otherwise it is refused
Load == /\ file # <<>> /\ Step("load", "") /\ UNCHANGED file
        /\ \A x \in DOMAIN ds \cap DOMAIN file : ds[x] = file[x]
        /\ ds' = IF Bug = "attrs" THEN [x \in DOMAIN file |-> [file[x] EXCEPT !.u = ""]] @@ ds ELSE file @@ ds
Finalize == /\ Step("finalize", "") /\ UNCHANGED file
            /\ ds' = [x \in DOMAIN ds |-> IF Contains(x, "sub_col") \/ (Bug = "finall" /\ Contains(x, "_"))
                                          THEN [ds[x] EXCEPT !.id = ds[x].zid] ELSE ds[x]]
Clear(c) == /\ Step("clear", c) /\ UNCHANGED file
            /\ LET pat == IF Bug = "ext" THEN {"sub_col", "subcol", "phase_mask"}
                          ELSE {"sub_col", "subcol", "phase_mask", "hyd_ext"}
                   gone == {x \in DOMAIN ds : Contains(x, c) /\ (Bug = "clearall" \/ \E q \in pat : Contains(x, q))} IN
               ds' = [x \in DOMAIN ds \ gone |-> ds[x]]
Next == Save \/ Load \/ Finalize \/ \E c \in {"strat", "conv"} : Simulate(c) \/ Clear(c)
Spec == Init /\ [][Next]_vars
SaveOK == op.k = "save" => SavedAll(ds, file) /\ SavedRight(ds, file) /\ ds = prev
LoadOK == op.k = "load" => LoadedAll(prev, file, ds) /\ LoadedRight(prev, file, ds) /\ LoadedRest(prev, file, ds)
FinalizeOK == op.k = "finalize" => DOMAIN ds = DOMAIN prev /\ Finalized(prev, {}, ds)
ClearOK == op.k = "clear" => DOMAIN ds = DOMAIN prev \ Cleared(prev, op.c) /\ \A x \in DOMAIN ds : ds[x] = prev[x]
InputsStay == \A x \in DOMAIN In : x \in DOMAIN ds /\ ds[x] = In[x]
=============================================================================
