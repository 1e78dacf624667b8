----------------------------- MODULE FigureTrace -----------------------------
(* Figures of the statistics (all subcolumns of one grid column, frequencies  *)
(* by altitude) and saved statistics, read back from the figures and files.   *)
EXTENDS Picture, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad
vars == <<tid, k, bad>>
T == Traces[tid]
E == T.ev[k]
NT == Len(T.times)
NH == Len(T.z[1][1])
Cols == NT * T.ns
Own(i) == ((i - 1) \div T.ns) + 1
Nth(i) == ((i - 1) % T.ns) + 1
Z(h, i) == T.z[E.col + 1][Own(i)][h]
\* the time of column i in 1/100 minutes: the columns of a step lie between the step before and its own time
Origin == IF NT = 1 THEN 0 ELSE T.times[2] - T.times[1]
At(i) == LET s == Own(i)
             step == IF NT = 1 THEN 60 ELSE IF s = 1 THEN T.times[2] - T.times[1] ELSE T.times[s] - T.times[s - 1]
         IN 100 * T.times[s] - (100 * step * (T.ns - Nth(i))) \div T.ns
V(f, i, h) == T.fields[f][E.col + 1][Nth(i)][Own(i)][h]
Value(p, i, h) ==
  LET q == [j \in 1..Len(p.of) |-> V(p.of[j], i, h)]
      s == SumSeq(q)
  IN CASE \E j \in 1..Len(q) : ~IsNum(q[j]) -> Nan
       [] p.how = "positive" -> IF q[1] <= 0 THEN Nan ELSE q[1] * p.mult
       [] p.how = "sum" -> IF s < 0 THEN Nan ELSE s * p.mult
       [] OTHER -> q[1]
\* the ratio of two signals in 1/64
RatioOk(p, i, h) == LET a == V(p.of[1], i, h)
                        b == V(p.of[2], i, h)
                    IN IF ~IsNum(a) \/ ~IsNum(b) THEN p.grid[h][i] = Nan ELSE IsNum(p.grid[h][i]) /\ Abs(p.grid[h][i] * b - a * 4096) <= b
Shape(w, nx, ny) == Len(w) = ny /\ \A y \in 1..ny : Len(w[y]) = nx
Scale(p) == /\ p.log = p.wlog
            /\ p.lim.want = <<>> \/ \A j \in 1..2 : p.lim.want[j] = Nan \/ p.lim.got[j] = p.lim.want[j]
Columns(p) ==
  [cells_show_the_field |-> /\ Shape(p.grid, Cols, NH)
                            /\ \A i \in 1..Cols : \A h \in 1..NH : IF p.how = "ratio" THEN RatioOk(p, i, h) ELSE p.grid[h][i] = Value(p, i, h),
   \* edges are half way between neighbouring columns
   cells_at_their_time  |-> /\ Len(p.xe) = Cols + 1
                            /\ \A i \in 1..(Cols - 1) : Near(2 * p.xe[i + 1], At(i) + At(i + 1), 6),
   \* corners in quarters of a metre: half way between the heights of the four cells about them
   cells_at_their_level |-> /\ Len(p.ye) = NH + 1 /\ \A h \in 1..(NH + 1) : Len(p.ye[h]) = Cols + 1
                            /\ \A h \in 2..NH : IF Cols = 1 THEN Near(p.ye[h][1], 2 * (Z(h - 1, 1) + Z(h, 1)), 1)
                                 ELSE \A i \in 2..Cols : Near(p.ye[h][i], Z(h - 1, i - 1) + Z(h, i - 1) + Z(h - 1, i) + Z(h, i), 1),
   colour_scale_as_asked |-> Scale(p)]
Frequencies(p) ==
  [cells_show_the_field |-> p.grid = E.arr,
   cells_at_their_bin   |-> p.xe = E.bins,
   cells_at_their_level |-> Placed(p.ye, E.lev, Len(E.lev) = 1),
   colour_scale_as_asked |-> Scale(p)]
Rest == [data_left_alone |-> E.same,
         saved_as_asked  |-> E.saved = E.wsaved,
         panels          |-> Len(E.panels) = E.npanels]
Saved == [saved_fields   |-> E.own,
          saved_cfad     |-> E.cfad.got = E.cfad.want /\ E.sr.got = E.sr.want,
          saved_bins     |-> E.bins.got = E.bins.want,
          saved_fraction |-> E.cf.got = E.cf.want,
          data_left_alone |-> E.same]
Clauses == IF E.err # "" THEN {"call_completes"}
           ELSE IF E.op = "file" THEN Broken(Saved)
           ELSE Broken(Rest) \cup UNION {IF E.op = "cfad" THEN Broken(Frequencies(E.panels[j])) ELSE Broken(Columns(E.panels[j])) : j \in 1..Len(E.panels)}
Init == tid \in 1..Len(Traces) /\ k = 1 /\ bad = {}
Step == k >= 1 /\ k <= Len(T.ev) /\ k' = k + 1 /\ bad' = bad \cup Clauses /\ UNCHANGED tid
Done == /\ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad>>
        /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
