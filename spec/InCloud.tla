------------------------------- MODULE InCloud -------------------------------
(* Mixing ratio and number concentration put into the subcolumns of a cell.  *)
(* Logarithmic fixed point (Num).  q: grid-cell mean; f: the cloud fraction  *)
(* the chosen logic uses; over: the mixing ratio exceeds the threshold;      *)
(* S: subcolumns holding the class; v[i]: value recorded in subcolumn i.     *)
EXTENDS Num
Tol == 4

\* the cloud fraction the chosen logic uses; radiation logic drops cells without condensate
UseFrac(rad, fm, fr, over) == IF rad THEN (IF over THEN fr ELSE Zero) ELSE fm

Expected(q, f, over, S, i) == IF i \in S /\ over /\ f # Zero THEN LDiv(q, f) ELSE Zero

\* uniform distribution: every subcolumn holding the class gets the in-cloud mean
UniformOK(q, f, over, S, v) ==
  [ in_cloud_mean |-> \A i \in S : Near(v[i], Expected(q, f, over, S, i), Tol),
    empty_outside |-> \A i \in DOMAIN v \ S : v[i] = Zero ]

\* number concentration: as q, whatever the mixing ratio is
NumberOK(n, f, S, v) ==
  [ in_cloud_number |-> \A i \in S : Near(v[i], IF f = Zero THEN Zero ELSE LDiv(n, f), Tol),
    no_number_outside |-> \A i \in DOMAIN v \ S : v[i] = Zero ]

\* single subcolumn (generator switched off): the in-cloud mean itself
SingleQOK(q, f, over, v) ==
  [ single_in_cloud_mean |-> Near(v, IF over /\ f # Zero THEN LDiv(q, f) ELSE Zero, Tol) ]
SingleNOK(n, f, v) == [ single_in_cloud_number |-> Near(v, IF f = Zero THEN Zero ELSE LDiv(n, f), Tol) ]

(* sub-grid variability of cloud liquid (linear fixed point): m is the       *)
(* in-cloud mean, v the values, n subcolumns hold the class.  Each rounded   *)
(* value is off by at most one half.                                         *)
VariableOK(m, S, v, narrow, fin) ==
  LET n == Cardinality(S)
      tot == SumFn(v, S)
  IN [ values_finite |-> fin,
       none_outside |-> \A i \in DOMAIN v \ S : v[i] = 0,
       never_negative |-> \A i \in DOMAIN v : v[i] >= 0,
       cell_mean_conserved |-> fin => Abs(tot - m * n) <= n + 2,
       narrow_pdf_is_uniform |-> (narrow /\ fin) => \A i \in S : Abs(v[i] - m) * 50 <= m + 100 ]
=============================================================================
