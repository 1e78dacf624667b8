------------------------------ MODULE LabelTrace ------------------------------
(* Recorded sessions with the labels of all fields after every step.          *)
EXTENDS Label, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, made, bad
vars == <<tid, k, made, bad>>
T == Traces[tid]
E == T.ev[k]
Set(s) == {s[i] : i \in 1..Len(s)}
All == Set(T.classes)
Steps(o) == IF o.k = "sim" THEN Plan(o, o.lidar = "true", T.conv, T.p3) ELSE <<o>>
M0 == IF E.new THEN [f \in (IF T.ready THEN Makes(T.gen[1], All, T.conv) \cup Makes(T.gen[2], All, T.conv) ELSE {}) |->
                       [o |-> IF f[1] = "frac" THEN T.gen[1] ELSE T.gen[2], up |-> TRUE, of |-> T.gen[1]]] ELSE made
M1 == MakeAll(Steps(E.op), E.up, M0, All, T.conv)
Fld(l) == <<l.kind, l.cls, l.cloud, l.inst>>
Ls == Set(E.labels)
Known == {l \in Ls : Fld(l) \in DOMAIN M1}
Own(l) == {<<p[1], p[2]>> : p \in (IF l.inst \in DOMAIN T.legend THEN Set(T.legend[l.inst]) ELSE {})}
Seen(l) == {<<p[1], p[2]>> : p \in Set(l.codes)}
UnitOK(l) == LET u == Unit(l.kind) IN IF u = "codes" THEN Seen(l) = Codes(l.kind, {}) ELSE l.unit = u
LegendOK(l) == l.kind \in {"lmask", "cmask", "rmask"} => Seen(l) = Codes(l.kind, Own(l))
NameOK(l) == Quantity(l.kind) \subseteq Set(l.words) /\ NotSaid(l.kind) \cap Set(l.words) = {}
CloudOK(l) == CASE l.cloud = "strat" -> l.about \in ({"strat"} \cup (IF l.kind \in {"frac", "q", "n"} THEN {"none"} ELSE {}))
                [] l.cloud = "conv" -> l.about \in ({"conv"} \cup (IF l.kind \in {"frac", "q", "n"} THEN {"none"} ELSE {}))
                [] l.cloud = "all" -> l.about = "both"
                [] OTHER -> TRUE
ClassOK(l) == CASE l.kind \in {"q", "n"} -> Set(l.named) \subseteq {l.cls}
                [] l.kind = "frac" -> Set(l.named) \subseteq {l.cls} /\ (IF l.cls \in {"cl", "pl"} THEN "ice" ELSE "liquid") \notin Set(l.words)
                [] l.cls \in {"-", "tot"} -> l.named = <<>>
                [] OTHER -> Set(l.named) = {l.cls}
InstOK(l) == l.kind \in {"lmask", "rmask"} => l.says_inst
\* a total of stratiform clouds alone may bear what its one part bears
Alone(l) == ~T.conv /\ M1[Fld(l)].o.k \in {"ltot", "rtot"}
MethodOK(l) == l.method = Method(Fld(l), M1[Fld(l)].o) \/ (Alone(l) /\ l.method = Method(Fld(l), M1[Fld(l)].of))
\* where a database is named it is the one used; the Doppler moments of single classes name none
DbOK(l) == LET d == Database(Fld(l), M1[Fld(l)].o, T.fam) IN l.db = d \/ (Alone(l) /\ l.db = Database(Fld(l), M1[Fld(l)].of, T.fam)) \/ (l.kind \in {"vd", "sd"} /\ l.cls # "tot" /\ l.db = "-")
EdgeOK(l) == l.edge = Edge(Fld(l), M1[Fld(l)].up)
C(name, ok) == IF ok THEN {} ELSE {name}
Clauses == IF E.err # "" THEN {"call_completes"} ELSE
  C("results_present", DOMAIN M1 \subseteq {Fld(l) : l \in Ls})
  \cup C("unit", \A l \in Known : UnitOK(l)) \cup C("legend", \A l \in Known : LegendOK(l))
  \cup C("name", \A l \in Known : NameOK(l)) \cup C("cloud_type", \A l \in Known : CloudOK(l))
  \cup C("class", \A l \in Known : ClassOK(l)) \cup C("instrument", \A l \in Known : InstOK(l))
  \cup C("method", \A l \in Known : MethodOK(l)) \cup C("database", \A l \in Known : DbOK(l))
  \cup C("edge", \A l \in Known : EdgeOK(l))
Init == tid \in 1..Len(Traces) /\ k = 1 /\ made = <<>> /\ bad = {}
Next == \/ k >= 1 /\ k <= Len(T.ev)
           /\ bad' = bad \cup Clauses /\ k' = k + 1 /\ made' = (IF E.err # "" THEN M0 ELSE M1) /\ UNCHANGED tid
        \/ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, made, bad>>
           /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Spec == Init /\ [][Next]_vars
==============================================================================
