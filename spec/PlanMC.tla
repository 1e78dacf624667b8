-------------------------------- MODULE PlanMC ---------------------------------
(* Every combination of options of the one-call simulation: its plan of steps *)
(* can be carried out, every option given reaches every step that has it, and *)
(* the results left are exactly those asked for.  Emit prints combinations    *)
(* and their plans, to be executed on the code.                               *)
EXTENDS Session
CONSTANTS Small, Emit, Bug
VARIABLES o, lidar, conv, p3, fld, rest, prov
vars == <<o, lidar, conv, p3, fld, rest, prov>>

V(full, small) == IF Small THEN small ELSE full
Opts == << <<"gen", V({"skip", "only", "all"}, {"skip", "all"})>>, <<"route", V({"bulk", "micro", "empirical"}, {"bulk", "micro"})>>,
  <<"dir", V({"default", "up", "down"}, {"default", "down"})>>, <<"mie", V({"default", "true", "false"}, {"default", "true"})>>,
  <<"eta", {"default", "0.6"}>>, <<"ext", {"default", "0.5"}>>, <<"hyd", V({"default", "cl+ci", "ci", "pl+cl"}, {"default", "ci"})>>,
  <<"ref", {"default", "250"}>>, <<"nan", V({"default", "true", "false"}, {"default", "true"})>>,
  <<"rng", V({"default", "500~2000"}, {"default"})>>, <<"sw", V({"default", "true", "false"}, {"default"})>>,
  <<"cls", {"true", "false"}>>, <<"fin", V({"true", "false"}, {"false"})>> >>
Blank == [Op("sim", "-", "?", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-") EXCEPT !.k = "sim"]
       @@ [gen |-> "-", cls |-> "-", fin |-> "-", lidar |-> "-"]
Init == /\ o = Blank /\ lidar \in BOOLEAN /\ conv \in BOOLEAN /\ p3 \in BOOLEAN /\ fld = 1 /\ rest = <<>> /\ prov = Fresh
        /\ (p3 => ~conv)
\* the mistakes a plan could make
Broken(s) == CASE Bug = "eta"  -> [i \in 1..Len(s) |-> IF s[i].k = "ltot" THEN [s[i] EXCEPT !.eta = "inst"] ELSE s[i]]
               [] Bug = "dir"  -> [i \in 1..Len(s) |-> IF s[i].k = "cosp" THEN [s[i] EXCEPT !.dir = "inst"] ELSE s[i]]
               [] Bug = "late" -> IF Len(s) > 2 /\ s[Len(s)].k = "lcls" THEN s ELSE SelectSeq(s, LAMBDA x : x.k # "ldr")
               [] OTHER -> s
Choose == /\ fld <= Len(Opts) /\ fld' = fld + 1 /\ \E v \in Opts[fld][2] : o' = [o EXCEPT ![Opts[fld][1]] = v]
          /\ UNCHANGED <<lidar, conv, p3, rest, prov>>
Start == /\ fld = Len(Opts) + 1 /\ fld' = fld + 1
         /\ (o.route = "empirical" => ~p3)
         /\ o' = [o EXCEPT !.inst = IF lidar THEN "HSRL" ELSE "KAZR", !.lidar = IF lidar THEN "true" ELSE "false"]
         /\ rest' = Broken(Plan(o', lidar, conv, p3))
         /\ prov' = IF o.gen = "skip" THEN [Fresh EXCEPT !["g_frac"] = "pre", !["g_mass"] = "pre"] ELSE Fresh
         /\ UNCHANGED <<lidar, conv, p3>>
Step == /\ fld = Len(Opts) + 2 /\ rest # <<>> /\ prov' = Apply(Head(rest), prov, conv) /\ rest' = Tail(rest)
        /\ UNCHANGED <<o, lidar, conv, p3, fld>>
Show(s) == LET RECURSIVE F(_) F(i) == IF i > Len(s) THEN "" ELSE Key(s[i]) \o "|" \o F(i + 1) IN F(1)
B(b) == IF b THEN "true" ELSE "false"
Report == /\ Emit /\ fld = Len(Opts) + 2 /\ rest = <<>> /\ fld' = fld + 1 /\ UNCHANGED <<o, lidar, conv, p3, rest, prov>>
          /\ PrintT("PLAN " \o Key(o) \o "," \o o.gen \o "," \o o.cls \o "," \o o.fin \o "," \o o.lidar \o ","
                    \o B(conv) \o "," \o B(p3) \o "#" \o Show(Plan(o, lidar, conv, p3)))
Next == Choose \/ Start \/ Step \/ Report
Spec == Init /\ [][Next]_vars

Running == fld = Len(Opts) + 2
\* each step finds what it needs
Runnable == Running /\ rest # <<>> => Legal(Head(rest), prov, conv)
\* given explicitly, an option governs every step that has it; else the instrument's or the documented default
Routed == Running => \A i \in 1..Len(rest) : LET s == rest[i] IN
   /\ s.dir \in {"-", Or(o.dir, "inst")} /\ s.eta \in {"-", Or(o.eta, "inst")} /\ s.ext \in {"-", Or(o.ext, "inst")}
   /\ s.hyd \in {"-", Or(o.hyd, "all")} /\ s.ref \in {"-", Or(o.ref, "1000")} /\ s.nan \in {"-", Or(o.nan, "false")}
   /\ (s.cloud = "conv" => s.route # "micro") /\ (s.mie # "-" /\ o.mie # "default" => s.mie = o.mie)
Wanted == LET mom == IF o.gen = "only" THEN {} ELSE IF lidar THEN
                       {"lid_strat", "mol", "ltot", "ldr"} \cup (IF conv THEN {"lid_conv"} ELSE {})
                       \cup (IF o.cls = "true" THEN {"lcls", "cosp"} ELSE {})
                     ELSE {"rad_strat", "atm", "zmin", "rtot"} \cup (IF conv THEN {"rad_conv"} ELSE {})
                       \cup (IF o.route = "micro" THEN {"dop"} ELSE {}) \cup (IF o.cls = "true" THEN {"rcls"} ELSE {})
          IN {"g_frac", "g_mass"} \cup mom
Exactly == Running /\ rest = <<>> => {g \in Groups : prov[g] # None} = Wanted
=============================================================================
