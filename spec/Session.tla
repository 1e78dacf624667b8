------------------------------- MODULE Session -------------------------------
(* A user session on one model object: simulation steps called one after     *)
(* another, each reading and writing groups of result fields.  The value of  *)
(* a group is described by its derivation: the step that wrote it last, its  *)
(* arguments, and the derivations of what it read.  Two groups with the same *)
(* derivation must hold the same numbers, whatever else happened before.     *)
(* Steps are records of strings; "-" stands for "not applicable".            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Op(k, cloud, inst, route, dir, mie, eta, ext, hyd, ref, nan, rng, sw) ==
  [k |-> k, cloud |-> cloud, inst |-> inst, route |-> route, dir |-> dir, mie |-> mie, eta |-> eta,
   ext |-> ext, hyd |-> hyd, ref |-> ref, nan |-> nan, rng |-> rng, sw |-> sw]

Moment(k, cloud, o) == Op(k, cloud, o.inst, o.route, o.dir, o.mie, o.eta, "-", o.hyd, "-", "-", "-", o.sw)

Lid(cloud, inst, route, dir, mie, eta, hyd) ==
  Op("lid", cloud, inst, route, dir, mie, eta, "-", hyd, "-", "-", "-", "-")
Rad(cloud, inst, route, dir, mie, hyd, sw) ==
  Op("rad", cloud, inst, route, dir, mie, "-", "-", hyd, "-", "-", "-", sw)
LTot(dir, eta) == Op("ltot", "-", "-", "-", dir, "-", eta, "-", "-", "-", "-", "-", "-")
Ldr(dir, ext, hyd) == Op("ldr", "-", "-", "-", dir, "-", "-", ext, hyd, "-", "-", "-", "-")
LCls(inst, nan) == Op("lcls", "-", inst, "-", "-", "-", "-", "-", "-", "-", nan, "-", "-")
Cosp(inst, dir, eta, hyd, nan) == Op("cosp", "-", inst, "-", dir, "-", eta, "-", hyd, "-", nan, "-", "-")
ZMin(inst, ref) == Op("zmin", "-", inst, "-", "-", "-", "-", "-", "-", ref, "-", "-", "-")
RTot == Op("rtot", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-")
RCls(inst, nan, rng) == Op("rcls", "-", inst, "-", "-", "-", "-", "-", "-", "-", nan, rng, "-")
GenFrac(route) == Op("gfrac", "-", "-", route, "-", "-", "-", "-", "-", "-", "-", "-", "-")
GenMass(route) == Op("gmass", "-", "-", route, "-", "-", "-", "-", "-", "-", "-", "-", "-")
Fin == Op("fin", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-")

Groups == {"g_frac", "g_mass", "lid_strat", "lid_conv", "mol", "ltot", "ldr", "lcls", "cosp",
           "rad_strat", "rad_conv", "dop", "atm", "zmin", "rtot", "rcls"}
\* groups whose zeros finalizing turns into undefined values
SubFields == {"g_frac", "g_mass", "lid_strat", "lid_conv", "ltot", "ldr", "rad_strat", "rad_conv", "dop", "rtot"}

WritesFrac == {"g_frac"}
Writes(o) ==
  CASE o.k = "lid"  -> {"lid_" \o o.cloud, "mol"}
    [] o.k = "rad"  -> {"rad_" \o o.cloud, "atm"} \cup
                       (IF o.route = "micro" /\ o.cloud = "strat" THEN {"dop"} ELSE {})
    [] o.k = "ltot" -> {"ltot"}
    [] o.k = "ldr"  -> {"ldr"}
    [] o.k = "lcls" -> {"lcls"}
    [] o.k = "cosp" -> {"cosp"}
    [] o.k = "zmin" -> {"zmin"}
    [] o.k = "rtot" -> {"rtot"}
    [] o.k = "rcls" -> {"rcls"}
    [] o.k = "gfrac" -> {"g_frac"}
    [] o.k = "gmass" -> {"g_mass"}
    [] OTHER -> {}

Both(p, conv) == {p \o "strat"} \cup (IF conv THEN {p \o "conv"} ELSE {})
Reads(o, conv) ==
  CASE o.k = "ltot" -> Both("lid_", conv) \cup {"mol"}
    [] o.k = "ldr"  -> Both("lid_", conv) \cup {"ltot"}
    [] o.k = "lcls" -> Both("lid_", conv) \cup {"ltot", "ldr"}
    [] o.k = "cosp" -> Both("lid_", conv) \cup {"mol"}
    [] o.k = "rtot" -> Both("rad_", conv) \cup {"atm", "zmin"}
    [] o.k = "rcls" -> Both("rad_", conv) \cup {"rtot", "zmin"}
    [] OTHER -> {}

Key(o) == o.k \o ":" \o o.cloud \o "," \o o.inst \o "," \o o.route \o "," \o o.dir \o "," \o o.mie \o ","
          \o o.eta \o "," \o o.ext \o "," \o o.hyd \o "," \o o.ref \o "," \o o.nan \o "," \o o.rng \o "," \o o.sw

GroupSeq == <<"g_frac", "g_mass", "lid_strat", "lid_conv", "mol", "ltot", "ldr", "lcls", "cosp",
              "rad_strat", "rad_conv", "dop", "atm", "zmin", "rtot", "rcls">>
RECURSIVE Join(_, _, _)
Join(prov, S, i) == IF i > Len(GroupSeq) THEN ""
  ELSE (IF GroupSeq[i] \in S THEN prov[GroupSeq[i]] \o ";" ELSE "") \o Join(prov, S, i + 1)

\* the subcolumns a moment was computed on; finalizing turns their zeros into undefined values, which count the same
RECURSIVE Base(_)
Base(p) == IF Len(p) > 4 /\ SubSeq(p, 1, 4) = "fin(" THEN Base(SubSeq(p, 5, Len(p) - 1)) ELSE p
Scene(o, prov) == IF o.k \in {"lid", "rad"} THEN Base(prov["g_frac"]) \o ";" \o Base(prov["g_mass"]) \o ";" ELSE ""

None == "none"
Fresh == [g \in Groups |-> None]
Enabled(o, prov, conv) == \A g \in Reads(o, conv) : prov[g] # None

Apply(o, prov, conv) ==
  IF o.k = "fin" THEN [g \in Groups |-> IF g \in SubFields /\ prov[g] # None THEN "fin(" \o prov[g] \o ")" ELSE prov[g]]
  ELSE LET t == Key(o) \o "(" \o Scene(o, prov) \o Join(prov, Reads(o, conv), 1) \o ")"
       IN [g \in Groups |-> IF g \in Writes(o) THEN t ELSE prov[g]]

RECURSIVE ApplyAll(_, _, _)
ApplyAll(s, prov, conv) == IF s = <<>> THEN prov ELSE ApplyAll(Tail(s), Apply(Head(s), prov, conv), conv)

(* -------------------------------- misuse -------------------------------- *)
LidarNames == {"HSRL", "CEIL", "RL"}
RadarNames == {"KAZR", "WACR"}
\* what a step needs besides the results it reads: subcolumns, and an instrument of the right kind
NeedsSub(o) == o.k \in {"lid", "rad", "gmass"}
Fits(o) == CASE o.k = "lid"  -> o.inst \in LidarNames
             [] o.k = "rad"  -> o.inst \in RadarNames
             [] o.k = "lcls" -> o.inst \in {"HSRL", "RL"}           \* those with thresholds
             [] o.k = "cosp" -> o.inst = "HSRL"                      \* the wavelength of the published curves
             [] o.k = "rcls" -> o.inst \in RadarNames
             [] OTHER -> TRUE
Legal(o, prov, conv) == /\ Enabled(o, prov, conv) /\ Fits(o)
                        /\ NeedsSub(o) => prov["g_frac"] # None /\ (o.k = "gmass" \/ prov["g_mass"] # None)

(* ------------------------- the one-call pipeline ------------------------- *)
(* options: "default" means not given by the caller; "inst" is then the      *)
(* instrument's own value.                                                   *)
Or(v, d) == IF v = "default" THEN d ELSE v
\* P3 microphysics carries the ice shape itself; radiation logic never uses Mie ice by default
DefMie(route, p3) == IF route = "micro" /\ ~p3 THEN "true" ELSE "false"
\* convective moments always use radiation logic (or empirical relations)
ConvRoute(route) == IF route = "micro" THEN "bulk" ELSE route

Plan(o, lidar, conv, p3) ==
  LET d   == Or(o.dir, "inst")
      eta == Or(o.eta, "inst")
      ext == Or(o.ext, "inst")
      ref == Or(o.ref, "1000")
      nan == Or(o.nan, "false")
      hyd == Or(o.hyd, "all")
      ms  == Or(o.mie, DefMie(o.route, p3))
      mc  == Or(o.mie, "false")
      sw  == Or(o.sw, "true")
      gen == IF o.gen = "skip" THEN <<>> ELSE <<GenFrac(o.route), GenMass(o.route)>>
      mom == IF o.gen = "only" THEN <<>> ELSE
             IF lidar THEN
               <<Lid("strat", o.inst, o.route, d, ms, eta, hyd)>> \o
               (IF conv THEN <<Lid("conv", o.inst, ConvRoute(o.route), d, mc, eta, hyd)>> ELSE <<>>) \o
               <<LTot(d, eta), Ldr(d, ext, hyd)>> \o
               (IF o.cls = "true" THEN <<LCls(o.inst, nan), Cosp(o.inst, d, eta, hyd, nan)>> ELSE <<>>)
             ELSE
               <<Rad("strat", o.inst, o.route, d, ms, hyd, IF o.route = "micro" THEN sw ELSE "-")>> \o
               (IF conv THEN <<Rad("conv", o.inst, ConvRoute(o.route), d, mc, hyd, "-")>> ELSE <<>>) \o
               <<ZMin(o.inst, ref), RTot>> \o
               (IF o.cls = "true" THEN <<RCls(o.inst, nan, Or(o.rng, "none"))>> ELSE <<>>)
      fin == IF o.fin = "true" THEN <<Fin>> ELSE <<>>
  IN gen \o mom \o fin
=============================================================================
