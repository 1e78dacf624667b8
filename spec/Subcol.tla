------------------------------- MODULE Subcol -------------------------------
(* Subcolumn generator: which of the N subcolumns of a grid cell hold which  *)
(* hydrometeor class.  Constant-level relations between the grid-cell cloud  *)
(* fractions, the level above, and the allocated sets of subcolumns.         *)
(* Fractions are integers in units of 1/Scale; mixing ratios are expressed   *)
(* relative to the truncation threshold (threshold = QThr).                  *)
EXTENDS Integers, FiniteSets, Sequences

Scale == 1000000
QThr  == 1000

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Cols(N) == 1..N

\* nearest integer to f/Scale*N (drivers avoid exact halves)
Round(f, N) == (2 * f * N + Scale) \div (2 * Scale)

\* number of subcolumns a class has to occupy in a cell
Count(rad, fMicro, fRad, qRel, N) ==
  IF rad THEN (IF qRel > QThr THEN Round(fRad, N) ELSE 0) ELSE Round(fMicro, N)

(* ---------------------------- convective -------------------------------- *)
ConvOK(c, S, N) == [ conv_leading_block |-> S = 1..c ]

(* ---------------------------- stratiform -------------------------------- *)
(* ccl, cci: counts; conv: convective subcolumns here; Acl, Aci: stratiform  *)
(* liquid / ice subcolumns of the level above; Scl, Sci: allocation here.    *)
StratOK(ccl, cci, conv, upCl, upCi, Scl, Sci, N) ==
  LET cmax == Max2(ccl, cci)
      cmin == Min2(ccl, cci)
      Smax == IF ccl >= cci THEN Scl ELSE Sci
      Smin == IF ccl >= cci THEN Sci ELSE Scl
      free == Cols(N) \ conv
      Acl == upCl \ conv
      Aci == upCi \ conv
      Aany == Acl \cup Aci
      Asml == IF Cardinality(Acl) <= Cardinality(Aci) THEN Acl ELSE Aci
      overcast == cmin = N
      clear == cmax = 0
      part == ~overcast /\ ~clear
  IN [ overcast_fills_all |-> overcast => (Scl = Cols(N) /\ Sci = Cols(N)),
       clear_is_empty     |-> clear => (Scl = {} /\ Sci = {}),
       within_columns     |-> Scl \subseteq Cols(N) /\ Sci \subseteq Cols(N),
       not_in_convective  |-> part => (Scl \cup Sci) \cap conv = {},
       phases_nested      |-> part => Smin \subseteq Smax,
       cover_larger_class |-> part => Cardinality(Smax) = Min2(cmax, Cardinality(free)),
       cover_smaller_class |-> part => Cardinality(Smin) = Min2(cmin, Cardinality(free)),
       larger_overlaps_above |-> part =>
           Cardinality(Smax \cap Aany) = Min2(cmax, Cardinality(Aany)),
       smaller_overlaps_above |-> part =>
           Cardinality(Smin \cap Aany) = Min2(cmin, Cardinality(Aany)),
       larger_overlaps_both |-> part =>
           Cardinality(Smax \cap Asml) = Min2(cmax, Cardinality(Asml)),
       smaller_overlaps_both |-> part =>
           Cardinality(Smin \cap Asml) = Min2(cmin, Cardinality(Asml)) ]

\* the uppermost level never receives stratiform cloud or precipitation
TopOK(S) == [ top_level_empty |-> \A x \in S : x = {} ]

(* --------------------------- precipitation ------------------------------ *)
(* c: sequence of counts per class; S: sequence of allocated sets; up: all   *)
(* precipitating subcolumns of the level above; cloudy: cloudy subcolumns    *)
(* here (same cloud type).                                                   *)
PrecipOK(c, up, cloudy, S, N) ==
  LET I == DOMAIN c
      overcast == \A i \in I : c[i] = N
      over == up \cup cloudy
  IN [ overcast_fills_all |-> overcast => \A i \in I : S[i] = Cols(N),
       within_columns |-> \A i \in I : S[i] \subseteq Cols(N),
       cover_exact    |-> \A i \in I : Cardinality(S[i]) = c[i],
       classes_nested |-> \A i, j \in I : c[i] <= c[j] => S[i] \subseteq S[j],
       falls_from_above |-> \A i \in I :
           Cardinality(S[i] \cap up) = Min2(c[i], Cardinality(up)),
       then_in_cloud |-> \A i \in I :
           Cardinality(S[i] \cap over) = Min2(c[i], Cardinality(over)) ]

\* single-subcolumn mode: presence is decided by the mixing ratio alone
SingleOK(qRel, S) == [ single_by_mixing_ratio |-> S = (IF qRel > QThr THEN {1} ELSE {}) ]

Holds(r) == \A n \in DOMAIN r : r[n]
Broken(r) == {n \in DOMAIN r : ~r[n]}
=============================================================================
