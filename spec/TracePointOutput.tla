-------------------------- MODULE TracePointOutput --------------------------
(* Validates recorded runs: the state of the requested variables after every *)
(* step (whole grid), then the time series found in the output.              *)
EXTENDS PointOutput, Calendar, TraceBase
VARIABLES l, su, states         \* current setup; states[i][column] = grid of values after step i
TInit == /\ l = 1 /\ states = <<>>
         /\ su = [case |-> ""]
         /\ n = 0 /\ W = {} /\ cur = 0 /\ buffer = <<>> /\ file = <<>> /\ flushed = 0
Ev == Trace[l]
Axis == [i \in 1..n |-> DateAt(su.start, su.step, i)]

TSetup == /\ Ev.ev = "setup"
          /\ su' = Ev /\ states' = <<>> /\ n' = NumDates(Ev.start, Ev.end, Ev.step)
          /\ cur' = 0 /\ UNCHANGED <<W, buffer, file, flushed>>
          /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TStep == /\ Ev.ev = "step"
         /\ states' = Append(states, Ev.vals)
         /\ cur' = cur + 1 /\ UNCHANGED <<su, n, W, buffer, file, flushed>>
         /\ Report(l, Ev.case, [step_completed |-> Ev.error = ""])
\* the output as a whole: time axis, point names, columns
TOutput == /\ Ev.ev = "output"
           /\ UNCHANGED <<su, states, pvars>>
           /\ Report(l, Ev.case, [
                readable |-> Ev.error = "",
                one_record_per_date |-> Ev.times = Axis,
                all_points |-> Ev.points = [i \in DOMAIN su.points |-> su.points[i].name],
                all_columns |-> {Ev.columns[i] : i \in DOMAIN Ev.columns} = {su.columns[i] : i \in DOMAIN su.columns}])
\* one series: point p (index into the requested points), column k
TSeries == /\ Ev.ev = "series"
           /\ UNCHANGED <<su, states, pvars>>
           /\ LET p == su.points[Ev.p]
                  cell == CellOf(p.x, p.y, su.res, su.rows, su.cols)
              IN Report(l, Ev.case, [values_equal_state |-> Ev.vals = SeriesOf(states, Ev.k, cell)])
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep \/ TOutput \/ TSeries)
TSpec == TInit /\ [][TNext]_<<l, su, states, pvars>>
=============================================================================
