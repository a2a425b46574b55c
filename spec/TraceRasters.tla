---------------------------- MODULE TraceRasters ----------------------------
(* Model starts of the real code on written raster files.  files[k].v: the   *)
(* values row by row from the north (value x 100, NaN: no data).             *)
EXTENDS Integers, Sequences, FiniteSets, Fixed, Rasters, TraceBase
VARIABLES l
Ev == Trace[l]
TInit == l = 1
F == Ev.files
R == F.dem.rows
C == F.dem.cols
Cells == (1..R) \X (1..C)
At(f, r, q) == f.v[((r - 1) * f.cols) + q]
G(field, r, q) == field[((r - 1) * C) + q]
Dem(r, q) == IF F.extdem.here THEN At(F.extdem, ExtRow(F, r), ExtCol(F, q)) ELSE At(F.dem, r, q)
\* stations: positions in tenths of a metre
RowOf(s) == IF s.y > F.dem.top THEN 0 ELSE 1 + ((F.dem.top - s.y) \div F.dem.dx)
ColOf(s) == IF s.x < F.dem.x THEN 0 ELSE 1 + ((s.x - F.dem.x) \div F.dem.dx)
StationCells == {<<RowOf(s), ColOf(s)>> : s \in {Ev.stations[i] : i \in DOMAIN Ev.stations}}
Marked(r, q) == IF F.roi.here THEN IsNum(At(F.roi, r, q)) /\ At(F.roi, r, q) # 0 ELSE TRUE
Roi(r, q) == (Marked(r, q) /\ IsNum(Dem(r, q))) \/ (Ev.extend /\ <<r, q>> \in StationCells)
Class(x) == IF IsNum(x) THEN x ELSE 0
Placed == [
  dem |-> \A p \in Cells : Same(G(Ev.dem, p[1], p[2]), Dem(p[1], p[2]), 1),
  roi |-> \A p \in Cells : G(Ev.roi, p[1], p[2]) = Roi(p[1], p[2]),
  roi_cells_listed |-> Len(Ev.points) = Cardinality({p \in Cells : Roi(p[1], p[2])})
      /\ {<<Ev.points[i][1], Ev.points[i][2]>> : i \in DOMAIN Ev.points} =
         {<<F.dem.x + (((2 * p[2]) - 1) * (F.dem.dx \div 2)), F.dem.top - (((2 * p[1]) - 1) * (F.dem.dx \div 2))>> : p \in {z \in Cells : Roi(z[1], z[2])}},
  coordinates |-> Len(Ev.xs) = C /\ Len(Ev.ys) = R /\ \A p \in Cells :
      Ev.xs[p[2]] = F.dem.x + (((2 * p[2]) - 1) * (F.dem.dx \div 2)) /\ Ev.ys[p[1]] = F.dem.top - (((2 * p[1]) - 1) * (F.dem.dx \div 2)),
  svf |-> \A p \in Cells : LET x == G(Ev.svf, p[1], p[2]) IN
      CASE F.extdem.here /\ F.extsvf.here -> Same(x, At(F.extsvf, ExtRow(F, p[1]), ExtCol(F, p[2])), 1)
        [] ~F.extdem.here /\ F.svf.here -> Same(x, At(F.svf, p[1], p[2]), 1)
        [] OTHER -> IsNaN(x) \/ x \in 0..100,
  srf |-> Ev.conf.srf => \A p \in Cells : Same(G(Ev.srf, p[1], p[2]), At(F.srf, p[1], p[2]), 1),
  land_cover |-> Ev.conf.lc \/ Ev.conf.soil => \A p \in Cells : G(Ev.lc, p[1], p[2]) * 100 = Class(At(F.lc, p[1], p[2])),
  soil |-> Ev.conf.soil => \A p \in Cells : G(Ev.soil, p[1], p[2]) * 100 = Class(At(F.soil, p[1], p[2])),
  glaciers |-> Ev.conf.glaciers => \A p \in Cells : LET g == G(Ev.glaciers, p[1], p[2]) IN
      IF Class(At(F.glaciers, p[1], p[2])) > 0 THEN g * 100 = At(F.glaciers, p[1], p[2]) ELSE g <= 0,
  station_cells |-> \A i \in DOMAIN Ev.stations : LET s == Ev.stations[i]  inside == RowOf(s) \in 1..R /\ ColOf(s) \in 1..C IN
      /\ s.ingrid = inside
      /\ inside => s.row + 1 = RowOf(s) /\ s.col + 1 = ColOf(s) /\ s.inroi = Roi(RowOf(s), ColOf(s)),
  step_fills_region |-> Ev.stepped = "" /\ \A p \in Cells : /\ G(Ev.temp, p[1], p[2]) => Roi(p[1], p[2])
      /\ Roi(p[1], p[2]) /\ IsNum(Dem(p[1], p[2])) => G(Ev.temp, p[1], p[2])]
TNext == /\ l <= TraceLen /\ l' = l + 1
         /\ LET faults == Faults(Ev.conf, F) IN
            IF faults # {} THEN Report(l, Ev.case, [refused |-> Ev.outcome # "ready", right_error |-> Ev.outcome \in faults \union {"ready"}, no_results |-> ~Ev.wrote])
            ELSE IF Ev.outcome # "ready" THEN Report(l, Ev.case, [accepted |-> FALSE])
            ELSE Report(l, Ev.case, Placed)
TSpec == TInit /\ [][TNext]_l
=============================================================================
