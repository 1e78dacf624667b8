-------------------------------- MODULE RadarZ --------------------------------
(* Composition of radar reflectivities in one subcolumn cell.  Linear values *)
(* share a scale per cell; a value in decibels is in 1e-5 dB; Nan = none.    *)
EXTENDS Num
Tol == 60
Lin(s) == SumSeq([i \in 1..Len(s) |-> IF s[i] = Nan THEN 0 ELSE s[i]])
NoneOf(s) == \A i \in 1..Len(s) : s[i] = Nan

\* c: classes cls, total tot (both linear), ze / zatt in dB, hyd: two-way loss in dB
CloudOK(c, gas) == [
  type_total_is_class_sum |-> IF NoneOf(c.cls) THEN c.tot = Nan ELSE Near(c.tot, Lin(c.cls), Tol),
  attenuated_type         |-> IF c.ze = Nan THEN c.zatt = Nan ELSE Near(c.zatt, c.ze + c.hyd + gas, 5)]
TotalOK(conv, s, c, t, gas) == LET parts == IF conv THEN <<s.tot, c.tot>> ELSE <<s.tot>> IN [
  total_is_both_clouds |-> IF NoneOf(parts) THEN t.tot = Nan ELSE Near(t.tot, Lin(parts), Tol),
  attenuated_total     |-> IF t.ze = Nan THEN t.zatt = Nan
                           ELSE Near(t.zatt, t.ze + s.hyd + (IF conv THEN c.hyd ELSE 0) + gas, 6)]
\* detectability: masked exactly where the minimum detectable reflectivity is not below the signal
MaskOK(zmin, t) == [
  detectability_mask |-> IF t.zatt = Nan THEN t.mask = 0
                         ELSE \/ Abs(zmin - t.zatt) <= 2 \/ t.mask = (IF zmin >= t.zatt THEN 1 ELSE 0)]
\* range squared law from the reference range
RangeOK(zmin, zmin1, l20, lref) == [minimum_follows_range |-> Near(zmin, zmin1 + l20 - lref, 3)]
\* a lidar with the same tables: reflectivity is backscatter times a constant of the radar
TwinOK(lz, lb, const) == [reflectivity_follows_backscatter |->
   IF lb = Zero THEN lz = Zero \/ lz = Nan ELSE Near(lz, lb + const, 30)]
=============================================================================
