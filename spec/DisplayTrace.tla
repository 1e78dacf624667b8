----------------------------- MODULE DisplayTrace ----------------------------
(* Recorded sessions with a SubcolumnDisplay: opened for one of the models,   *)
(* moved to other locations or models, and asked for plots.  Everything drawn *)
(* was read back from the figure.                                             *)
EXTENDS Picture, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, bad, cur, lat, lon, down, axes
vars == <<tid, k, bad, cur, lat, lon, down, axes>>
T == Traces[tid]
E == T.ev[k]
M == T.models[cur]
Place(m, y, x) == (IF m.lat = <<>> THEN 0 ELSE (y - 1) * Max2(1, Len(m.lon))) + (IF m.lon = <<>> THEN 1 ELSE x)
At == Place(M, lat, lon)
Z == IF E.press THEN M.p[At] ELSE M.z[At]                           \* vertical coordinate, time by time
NT == Len(M.times)
NH == Len(M.z[1][1])
\* the field: subcolumn (or 1 if there is none), time, level
Field(v) == M.fields[v][At]
Masked(t, h) == E.mask # <<>> /\ E.mask[t][h] > 0
Blank(v, t, h) == v = Nan \/ (Masked(t, h) /\ ~E.hatch)
Heights(ts) == [h \in 1..NH |-> MeanOf([i \in 1..Len(ts) |-> Z[ts[i]][h]], 100)]
All == [i \in 1..NT |-> i]
Src == IF E.op \in {"inst", "imean"} THEN T.inst[E.inst] ELSE M
Name == Src.name
Nearest(ts, t) == CHOOSE i \in 1..Len(ts) : \A j \in 1..Len(ts) : Dist(ts[i], t) <= Dist(ts[j], t)
First == IF E.op = "single" THEN E.at ELSE Src.times[1]
Decor == [
  title_as_documented    |-> CASE E.title.k = "given" -> E.title.got = E.title.want
                               [] E.title.k = "default" -> E.title.name = Name /\ Near(E.title.t, 100 * First, 1)
                               [] OTHER -> TRUE,
  colour_bar_as_asked    |-> E.bars = (IF E.bar THEN 1 ELSE 0) /\ (E.barlabel.want = "" \/ E.barlabel.got = E.barlabel.want),
  colour_scale_as_asked  |-> E.lognorm = E.log /\ (E.lim.want = <<>> \/ E.lim.want = E.lim.got),
  \* a range asked for may turn the axis
  pressure_axis_down     |-> IF E.press /\ (E.op # "mean" \/ E.yr.want = <<>>) THEN E.inv ELSE E.yr.want # <<>> \/ down[E.ax] \/ ~E.inv,
  labelled_with_quantity |-> E.lab => /\ E.unit = Src.units[E.var]
                                      /\ (Src.cls[E.var] = "" \/ E.cls = Src.cls[E.var]),
  range_as_asked         |-> (E.xr.want = <<>> \/ E.xr.want = E.xr.got) /\ (E.yr.want = <<>> \/ E.yr.want = E.yr.got),
  drawn_where_asked      |-> E.only,
  dates_as_asked         |-> E.when.got = E.when.want,
  data_left_alone        |-> E.same,
  figure_handles         |-> E.ret]
Grid(w, nx, ny, val(_, _)) == /\ Len(w) = ny /\ \A y \in 1..ny : Len(w[y]) = nx /\ \A x \in 1..nx : w[y][x] = val(x, y)
Mult == IF E.op = "input" THEN 1000 ELSE 1
Scaled(v) == IF IsNum(v) THEN v * Mult ELSE v
HatchOk(nx, ny, m(_, _)) == IF E.hatch /\ E.mask # <<>> THEN Grid(E.hatched, nx, ny, LAMBDA x, y : IF m(x, y) THEN 1 ELSE 0) ELSE E.hatched = <<>>
Curtain ==
  LET F == Field(E.var)[IF M.subs[E.var] THEN E.sub + 1 ELSE 1]
  IN [cells_show_the_field |-> Grid(E.grid, NT, NH, LAMBDA t, h : IF Blank(F[t][h], t, h) THEN Nan ELSE Scaled(F[t][h])),
      cells_at_their_time  |-> Placed(E.xe, [t \in 1..NT |-> 100 * M.times[t]], NT = 1),
      cells_at_their_level |-> Placed(E.ye, IF E.press THEN [h \in 1..NH |-> 100 * M.lev[h]] ELSE Heights(All), FALSE),
      masked_cells_hatched |-> HatchOk(NT, NH, LAMBDA t, h : Masked(t, h))]
Single ==
  LET F == Field(E.var)
      t == Nearest(M.times, E.at)
  IN [cells_show_the_field |-> Grid(E.grid, Len(F), NH, LAMBDA s, h : IF Blank(F[s][t][h], s, h) THEN Nan ELSE F[s][t][h]),
      columns_numbered     |-> Placed(E.xe, Count(Len(F), 100), Len(F) = 1),
      cells_at_their_level |-> Placed(E.ye, IF E.press THEN [h \in 1..NH |-> 100 * M.lev[h]] ELSE [h \in 1..NH |-> 100 * Z[t][h]], FALSE),
      masked_cells_hatched |-> HatchOk(Len(F), NH, LAMBDA s, h : Masked(s, h))]
I == T.inst[E.inst]
Instrument ==
  LET F == I.fields[E.var]
  IN [cells_show_the_field |-> Grid(E.grid, Len(I.times), Len(I.lev),
                                    LAMBDA t, h : IF Blank(F[t][h], t, h) THEN Nan ELSE F[t][h]),
      cells_at_their_time  |-> Placed(E.xe, [t \in 1..Len(I.times) |-> 100 * I.times[t]], Len(I.times) = 1),
      cells_at_their_level |-> Placed(E.ye, [h \in 1..Len(I.lev) |-> 100 * I.lev[h]], FALSE),
      masked_cells_hatched |-> HatchOk(Len(I.times), Len(I.lev), LAMBDA t, h : Masked(t, h))]
\* arrays on a grid of their own: time x level (already the requested column), zeros (for fractions also less) blank
Regridded ==
  [cells_show_the_field |-> Grid(E.grid, NT, Len(E.lev), LAMBDA t, h :
      LET v == E.arr[E.sub + 1][t][h][E.col + 1] IN IF v = Nan \/ v = 0 \/ (E.op = "cf" /\ v < 0) THEN Nan ELSE v),
   cells_at_their_time  |-> Placed(E.xe, [t \in 1..NT |-> 100 * M.times[t]], NT = 1),
   cells_at_their_level |-> Placed(E.ye, [h \in 1..Len(E.lev) |-> 100 * E.lev[h]], Len(E.lev) = 1)]
\* ---- profiles of means: fields hold powers of two, given by their exponents (-1: zero, -2: -4, left out of geometric means) ----
Times(ts, t0, t1) == SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i : t0 <= ts[i] /\ ts[i] < t1)
Vals(F, sel, h, ns) == \* valid values of level h over all subcolumns and selected times
  LET pairs == [j \in 1..(ns * Len(sel)) |-> <<((j - 1) \div Len(sel)) + 1, sel[((j - 1) % Len(sel)) + 1], ((j - 1) % Len(sel)) + 1>>]
      ok == SelectSeq(pairs, LAMBDA q : F[q[1]][q[2]][h] # Nan /\ ~(E.mask # <<>> /\ E.mask[q[1]][q[3]][h] > 0))
  IN [i \in 1..Len(ok) |-> F[ok[i][1]][ok[i][2]][h]]
RECURSIVE Pow(_)
Pow(x) == IF x = -1 THEN 0 ELSE IF x = -2 THEN -4 ELSE IF x = 0 THEN 1 ELSE 2 * Pow(x - 1)
Geom == E.geom = "yes" \/ (E.geom = "auto" /\ Src.auto[E.var])
ProfileOk(F, sel, ns, hs) ==
  LET v(h) == LET w == Vals(F, sel, h, ns) IN IF Geom THEN SelectSeq(w, LAMBDA x : x >= 0) ELSE w
      lin(h) == LET w == v(h) IN [i \in 1..Len(w) |-> Pow(w[i])]
      nh == Len(hs)
      n2(h) == Len(v(h)) * Len(v(h))
  IN [mean_of_the_values |-> /\ Len(E.line) = nh
                             /\ \A h \in 1..nh : Near(IF Geom THEN E.line[h].l ELSE E.line[h].v, MeanOf(IF Geom THEN v(h) ELSE lin(h), 10000), 3),
      at_their_level     |-> Len(E.line) = nh /\ \A h \in 1..nh : Near(E.line[h].y, hs[h], 2),
      range_is_one_deviation |-> IF E.sd
        THEN \A h \in 1..nh : v(h) # <<>> =>
               IF Geom THEN /\ Near(E.fill[h].dl * n2(h), 10000 * Spread(v(h)), 10 * n2(h))
                            /\ Near(E.fill[h].ul * n2(h), 10000 * Spread(v(h)), 10 * n2(h))
               ELSE /\ Near(E.fill[h].u * n2(h), 100 * Spread(lin(h)), n2(h))
                    /\ IF E.fill[h].cut THEN Spread(lin(h)) >= SumSeq(lin(h)) * SumSeq(lin(h))
                       ELSE Near(E.fill[h].d * n2(h), 100 * Spread(lin(h)), n2(h))
        ELSE E.fill = <<>>,
      fits_in_the_plot   |-> E.fits]
Mean ==
  LET sel == CASE E.win.k = "all" -> All [] E.win.k = "one" -> <<Nearest(M.times, E.win.t0)>> [] OTHER -> Times(M.times, E.win.t0, E.win.t1)
      F == Field(E.var)
  IN ProfileOk(F, sel, Len(F), Heights(sel))
IMean ==
  LET sel == IF E.win.k = "all" THEN [i \in 1..Len(I.times) |-> i] ELSE Times(I.times, E.win.t0, E.win.t1)
  IN ProfileOk(<<I.fields[E.var]>>, sel, 1, [h \in 1..Len(I.lev) |-> 100 * I.lev[h]])
\* a picture of classes: one name and one colour of its own for every class
Vals0 == IF E.zeros THEN 1..Len(E.legend) ELSE 0..Len(E.legend)
Classes == [
  classes_named      |-> /\ Len(E.ticks) = Cardinality(Vals0)
                         /\ \A v \in Vals0 : \E j \in 1..Len(E.ticks) :
                               E.ticks[j].at = 100 * v /\ E.ticks[j].label = (IF v = 0 THEN "clear" ELSE E.legend[v]),
  classes_coloured   |-> \A v, w \in Vals0 : v # w => E.colours[v + 1] # E.colours[w + 1],
  colour_bar_as_asked |-> E.label.got = E.label.want,
  figure_handles     |-> E.ret,
  data_left_alone    |-> E.same]
Ranges == [range_as_asked |-> E.got = E.want, drawn_where_asked |-> E.only]
Clauses == IF E.err # "" THEN {"call_completes"}
           ELSE CASE E.op \in {"open", "latlon", "model"} -> IF E.same THEN {} ELSE {"data_left_alone"}
                  [] E.op \in {"curtain", "input"} -> Broken(Curtain) \cup Broken(Decor)
                  [] E.op = "class" -> Broken(Classes)
                  [] E.op = "range" -> Broken(Ranges)
                  [] E.op = "single" -> Broken(Single) \cup Broken(Decor)
                  [] E.op = "inst" -> Broken(Instrument) \cup Broken(Decor)
                  [] E.op \in {"cf", "sr"} -> Broken(Regridded) \cup Broken(Decor)
                  [] E.op = "mean" -> Broken(Mean) \cup Broken(Decor)
                  [] OTHER -> Broken(IMean) \cup Broken(Decor)
Init == /\ tid \in 1..Len(Traces) /\ k = 1 /\ bad = {} /\ cur = 1 /\ lat = 1 /\ lon = 1 /\ axes = 0
        /\ down = [a \in 1..8 |-> FALSE]
Step == /\ k >= 1 /\ k <= Len(T.ev) /\ k' = k + 1 /\ bad' = bad \cup Clauses /\ UNCHANGED <<tid, axes>>
        /\ cur' = (IF E.op \in {"open", "latlon", "model"} THEN E.m ELSE cur)
        /\ IF E.op \in {"open", "latlon"} /\ E.err = ""
           THEN LET m == T.models[E.m] IN /\ lat' = (IF m.lat = <<>> THEN 1 ELSE Entry(E.lat, m.lat))
                                          /\ lon' = (IF m.lon = <<>> THEN 1 ELSE Entry(E.lon, m.lon))
           ELSE UNCHANGED <<lat, lon>>
        /\ down' = (IF E.op = "open" THEN [a \in 1..8 |-> FALSE]
                    ELSE IF E.op = "range" THEN [down EXCEPT ![E.ax] = @ \/ E.yax]
                    ELSE IF "press" \in DOMAIN E THEN [down EXCEPT ![E.ax] = @ \/ E.press \/ E.yr.want # <<>>] ELSE down)
Done == /\ k = Len(T.ev) + 1 /\ k' = 0 /\ UNCHANGED <<tid, bad, cur, lat, lon, down, axes>>
        /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(bad))
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
