------------------------------- MODULE LidarSum -------------------------------
(* What a lidar receives from one cell of one subcolumn: backscatter b,      *)
(* extinction a and the depth o behind it, per class, cloud type and total.  *)
EXTENDS Num
Def(v) == IF v = Missing THEN 0 ELSE v               \* undefined contributes nothing
RECURSIVE Tot(_)
Tot(s) == IF s = <<>> THEN 0 ELSE Def(Head(s)) + Tot(Tail(s))
Ok(s, t) == t # Missing /\ Near(t, Tot(s), 1 + Len(s))

CloudOK(c) == [class_backscatter_adds_up |-> Ok(c.b, c.tb),
               class_extinction_adds_up  |-> Ok(c.a, c.ta),
               class_depth_adds_up       |-> Ok(c.o, c.to)]
\* clouds that count towards the overall totals
TotalOK(conv, st, cv, t) ==
  LET w(f, g) == IF conv THEN <<f, g>> ELSE <<f>>
  IN [total_backscatter_is_both_clouds |-> Ok(w(st.tb, cv.tb), t.b),
      total_extinction_is_both_clouds  |-> Ok(w(st.ta, cv.ta), t.a),
      total_depth_is_both_clouds       |-> Ok(w(st.to, cv.to), t.o)]
=============================================================================
