--------------------------- MODULE TraceGridOutput --------------------------
(* Recorded runs: state of the written variables after every step, then the  *)
(* gridded output found (time axes, bounds, every grid).                     *)
EXTENDS GridOutput, Fixed, TraceBase
VARIABLES l, su, states
TInit == /\ l = 1 /\ states = <<>> /\ su = [case |-> ""] /\ gcur = 0 /\ acc = <<>> /\ recs = <<>>
Ev == Trace[l]
\* the schedules are computed once per case
Sched(e) == [i \in DOMAIN e.fields |-> Schedule(e.fields[i], e.start, e.end, e.step)]
Keep(e) == \E i \in DOMAIN e.fields : Refused(e.fields[i], e.step)
TSetup == /\ Ev.ev = "setup" /\ su' = Ev @@ [sch |-> Sched(Ev)] /\ states' = <<>> /\ UNCHANGED gvars
          /\ Report(l, Ev.case, [
               initialized |-> ~Keep(Ev) => Ev.error = "",
               incompatible_frequency_refused |-> Keep(Ev) => Ev.error # ""])
TStep == /\ Ev.ev = "step" /\ states' = Append(states, Ev.vals) /\ UNCHANGED <<su, gvars>>
         /\ Report(l, Ev.case, [step_completed |-> Ev.error = ""])
\* what was found for field k: its time axis, its bounds, its windows (files: start/end in the name)
TField == /\ Ev.ev = "field" /\ UNCHANGED <<su, states, gvars>>
          /\ LET f == su.fields[Ev.k]
                 sch == su.sch[Ev.k] IN
             Report(l, Ev.case, [
               readable |-> Ev.error = "",
               dropped_iff_no_dates |-> Ev.present = (sch # <<>>),
               output_times |-> Ev.times = sch,
               time_bounds |-> Has(Ev, "bounds") /\ f.agg # "none" => Ev.bounds = Bounds(sch, su.start),
               file_windows |-> Has(Ev, "starts") /\ f.agg # "none" =>
                  Ev.starts = [i \in DOMAIN sch |-> WindowStart(sch, i, su.start, su.step)]])
\* one grid: field k, i-th output time, layer la (1 for two-dimensional fields)
Val(k, s, la, c) == states[s][k][la][c]
Expected(f, k, i, la, c) ==
  LET S == StepsOf(f, su.sch[k], i, su.start, su.step)
      lo == CHOOSE x \in S : \A y \in S : x <= y
      seq == [j \in 1..Cardinality(S) |-> Val(k, lo + j - 1, la, c)]
  IN CASE f.agg = "none" -> seq[1]
       [] \E j \in DOMAIN seq : IsNaN(seq[j]) -> NaNV
       [] f.agg = "sum" -> SumSeq(seq)
       [] OTHER -> SumSeq(seq) \div Len(seq)
Tol(f, n) == IF f.agg = "none" THEN 0 ELSE IF f.int \/ f.exact THEN IF f.agg = "mean" THEN 1 ELSE 0
             ELSE IF f.agg = "sum" THEN n \div 2 + 3 ELSE 3
RelTol(f, v) == IF f.agg = "none" \/ f.int THEN 0 ELSE AbsF(v) \div 4000000
TGrid == /\ Ev.ev = "grid" /\ UNCHANGED <<su, states, gvars>>
         /\ LET f == su.fields[Ev.k]
                sch == su.sch[Ev.k]
                ok == Ev.i <= Len(sch) /\ Len(Ev.vals) = su.cells
                n == Cardinality(StepsOf(f, sch, Ev.i, su.start, su.step))
            IN Report(l, Ev.case, [
                 shape |-> ok,
                 no_data_outside_roi |-> ok /\ ~f.int => \A c \in 1..su.cells : ~su.roi[c] => IsNaN(Ev.vals[c]),
                 values_of_state |-> ok => \A c \in 1..su.cells : su.roi[c] =>
                    LET x == Expected(f, Ev.k, Ev.i, Ev.la, c) IN Same(Ev.vals[c], x, Tol(f, n) + RelTol(f, x))])
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep \/ TField \/ TGrid)
TSpec == TInit /\ [][TNext]_<<l, su, states, gvars>>
=============================================================================
