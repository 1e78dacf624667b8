-------------------------------- MODULE Label ---------------------------------
(* What a result says about itself: its quantity, unit, cloud type, class,    *)
(* the side of the layer it is given at, how it was made and from which       *)
(* scattering calculations.  `made` remembers, field by field, the step that  *)
(* produced it last; its label is a function of that step alone.              *)
(* A field is <<kind, class, cloud, instrument>>.                             *)
EXTENDS Session

Classes(o, all) == IF o.hyd \in {"all", "-"} THEN all
                   ELSE {x \in all : \E i \in 1..Len(o.hyd) : i + Len(x) - 1 <= Len(o.hyd) /\ SubSeq(o.hyd, i, i + Len(x) - 1) = x
                            /\ (i = 1 \/ SubSeq(o.hyd, i - 1, i - 1) = "+")
                            /\ (i + Len(x) > Len(o.hyd) \/ SubSeq(o.hyd, i + Len(x), i + Len(x)) = "+")}
Cl(conv) == {"strat"} \cup (IF conv THEN {"conv"} ELSE {})
Masks(kind, o, conv) == {<<kind, "-", c, o.inst>> : c \in {"all"} \cup (IF conv THEN {"strat", "conv"} ELSE {})}
\* the fields a step produces
Makes(o, all, conv) ==
  CASE o.k = "lid" -> {<<q, x, o.cloud, "-">> : q \in {"beta", "alpha", "od"}, x \in Classes(o, all) \cup {"tot"}} \cup {<<"batt", "tot", o.cloud, "-">>}
    [] o.k = "rad" -> {<<"ze", x, o.cloud, "-">> : x \in Classes(o, all) \cup {"tot"}}
         \cup {<<"zatt", "tot", o.cloud, "-">>, <<"hydext", "-", o.cloud, "-">>, <<"atmext", "-", "-", "-">>, <<"gas", "-", "-", "-">>}
         \cup (IF o.route = "micro" /\ o.cloud = "strat"
               THEN {<<q, x, "strat", "-">> : q \in {"vd"} \cup (IF o.sw = "false" THEN {} ELSE {"sd"}), x \in Classes(o, all) \cup {"tot"}} ELSE {})
    [] o.k = "ltot" -> {<<q, "tot", "all", "-">> : q \in {"beta", "alpha", "od", "batt"}}
    [] o.k = "ldr"  -> {<<"ldr", "-", c, "-">> : c \in Cl(conv) \cup {"all"}} \cup {<<"ext", "-", "all", "-">>}
    [] o.k = "lcls" -> Masks("lmask", o, conv)
    [] o.k = "cosp" -> {<<"cmask", "-", c, "-">> : c \in Cl(conv) \cup {"all"}}
    [] o.k = "atb"  -> {<<"cmask", "-", c, "-">> : c \in Cl(conv) \cup {"all"}} \cup {<<q, "-", c, "-">> : q \in {"atb", "atbx", "sr"}, c \in Cl(conv) \cup {"all"}}
    [] o.k = "zmin" -> {<<"zmin", "-", "-", "-">>}
    [] o.k = "rtot" -> {<<"ze", "tot", "all", "-">>, <<"zatt", "tot", "all", "-">>, <<"detect", "-", "-", "-">>}
    [] o.k = "rcls" -> Masks("rmask", o, conv)
    [] o.k = "gfrac" -> {<<"frac", x, c, "-">> : x \in all, c \in Cl(conv)}
    [] o.k = "gmass" -> {<<"q", x, c, "-">> : x \in all, c \in Cl(conv)} \cup {<<"n", x, "strat", "-">> : x \in all}
    [] OTHER -> {}
\* spectral widths are not promised when they were not asked for
Forgets(o) == IF o.k = "rad" /\ o.sw = "false" /\ o.route = "micro" THEN {"sd"} ELSE {}

Unit(kind) == CASE kind \in {"beta", "batt", "atb", "atbx"} -> "m-1 sr-1"
                [] kind = "alpha" -> "m-1"
                [] kind \in {"od", "hydext", "atmext", "ldr", "sr", "lmask", "cmask", "rmask"} -> "1"
                [] kind \in {"ze", "zatt", "zmin"} -> "dBZ"
                [] kind \in {"vd", "sd"} -> "m s-1"
                [] kind = "gas" -> "dB km-1"
                [] kind = "q" -> "kg kg-1"
                [] kind = "n" -> "cm-3"
                [] OTHER -> "codes"
\* what the numbers of a coded field stand for
Codes(kind, own) == CASE kind = "frac"   -> {<<0, "no">>, <<1, "yes">>}
                      [] kind = "ext"    -> {<<0, "clear">>, <<1, "becomes">>, <<2, "extinct">>}
                      [] kind = "detect" -> {<<0, "detected">>, <<1, "below">>}
                      [] kind = "cmask"  -> {<<1, "liquid">>, <<2, "ice">>, <<3, "undef">>}
                      [] kind = "rmask"  -> {<<1, "cloud">>, <<2, "mixed">>, <<3, "precip">>}
                      [] kind = "lmask"  -> own
                      [] OTHER -> {}
Quantity(kind) == CASE kind = "beta"  -> {"backscatter"}
                    [] kind = "alpha" -> {"extinction"}
                    [] kind = "od"    -> {"optical depth"}
                    [] kind = "batt"  -> {"backscatter", "attenuated"}
                    [] kind = "ze"    -> {"reflectivity"}
                    [] kind = "zatt"  -> {"reflectivity", "attenuated"}
                    [] kind = "vd"    -> {"doppler velocity"}
                    [] kind = "sd"    -> {"spectral width"}
                    [] kind \in {"hydext", "atmext"} -> {"transmittance"}
                    [] kind = "gas"   -> {"attenuation"}
                    [] kind = "ldr"   -> {"depolarization"}
                    [] kind = "ext"   -> {"extinction", "mask"}
                    [] kind \in {"lmask", "cmask"} -> {"mask"}
                    [] kind = "sr"    -> {"scattering ratio"}
                    [] OTHER -> {}
\* words that would say something else
NotSaid(kind) == CASE kind = "beta"  -> {"attenuated", "optical depth", "reflectivity"}
                   [] kind = "alpha" -> {"backscatter", "optical depth"}
                   [] kind = "od"    -> {"backscatter"}
                   [] kind = "ze"    -> {"attenuated", "spectral width", "doppler velocity"}
                   [] kind = "vd"    -> {"spectral width", "reflectivity"}
                   [] kind = "sd"    -> {"doppler velocity", "reflectivity"}
                   [] OTHER -> {}

Moments == {"beta", "alpha", "od", "batt", "ze", "zatt", "hydext", "vd", "sd"}
Method(f, o) == CASE o.k \in {"gfrac", "gmass"} -> IF o.route = "micro" THEN "Microphysics logic" ELSE "Radiation logic"
                  [] o.k \in {"lid", "rad"} /\ f[1] \in Moments ->
                       (CASE o.route = "empirical" -> "Empirical"
                          [] o.route = "micro" /\ o.cloud = "strat" -> "LUTs (microphysics logic)"
                          [] OTHER -> "Bulk (radiation logic)")
                  [] OTHER -> "-"
Database(f, o, fam) == IF o.k \notin {"lid", "rad"} \/ f[1] \notin Moments THEN "-"
   ELSE IF o.route = "empirical" THEN "Empirical (no utilized scattering database)"
   ELSE IF o.mie = "true" THEN "Mie"
   ELSE CASE fam = "CESM" -> "m-D_A-D (D. Mitchell)" [] fam = "ModelE" -> "C6" [] OTHER -> "m-D_A-D (D. Mitchell) for P3 (I. Silber)"
\* the side of the layer nearer to the instrument
Edge(f, up) == IF f[1] \in {"od", "hydext", "atmext", "ext"} THEN (IF up THEN "base" ELSE "top") ELSE "-"

\* the step whose stratiform result a total is the total of
Of(f, o, m) == LET g == <<IF f[1] = "detect" THEN "ze" ELSE f[1], "tot", "strat", "-">> IN
               IF o.k \in {"ltot", "rtot"} /\ g \in DOMAIN m THEN m[g].o ELSE o
MakeAll(s, up, made, all, conv) ==
  LET RECURSIVE G(_, _)
      G(i, m) == IF i > Len(s) THEN m
                 ELSE LET o == s[i]  F == Makes(o, all, conv)
                          u == IF o.dir = "up" THEN TRUE ELSE IF o.dir = "down" THEN FALSE ELSE up
                          old == {f \in DOMAIN m : f[1] \notin Forgets(o)}
                      IN G(i + 1, [f \in old \cup F |-> IF f \in F THEN [o |-> o, up |-> u, of |-> Of(f, o, m)] ELSE m[f]])
  IN G(1, made)
==============================================================================
