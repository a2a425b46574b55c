--------------------------- MODULE TraceLifecycle ---------------------------
(* Validates recorded call histories of real models against Lifecycle and    *)
(* the time axis of Calendar.                                                *)
EXTENDS Lifecycle, Calendar, TraceBase
VARIABLES l, ax            \* position, time axis of the current case
tvars == <<lvars, l, ax>>

TInit == /\ n = 1 /\ pos = 0 /\ mode = "none" /\ visited = <<>> /\ last = "init"
         /\ l = 1 /\ ax = [start |-> 0, step |-> 60]

Ev == Trace[l]
DatesFromTo(a, b) == [i \in 1..(b - a) |-> DateAt(ax.start, ax.step, a + i)]

\* a model has been set up with a valid configuration
TSetup ==
  /\ Ev.ev = "setup"
  /\ LET e == EffectiveEnd(Ev.end, Ev.dateonly, Ev.step)
         N == NumDates(Ev.start, e, Ev.step)
     IN /\ n' = N
        /\ ax' = [start |-> Ev.start, step |-> Ev.step]
        /\ Report(l, Ev.case, [
             initialized |-> Ev.error = "",
             num_dates |-> Ev.error = "" => Ev.ndates = N,
             axis_dates |-> Ev.error = "" => Ev.dates = [i \in 1..N |-> DateAt(Ev.start, Ev.step, i)],
             no_premature_step |-> Ev.error = "" => Ev.idx = 0 /\ Ev.seen = <<>>])
  /\ pos' = 0 /\ mode' = "none" /\ visited' = <<>> /\ last' = "init"

\* the specification is deterministic: compute the outcome of the call, then compare
TCall ==
  /\ Ev.ev = "call"
  /\ (Ev.op = "step" /\ Step) \/ (Ev.op = "run" /\ Run)
  /\ UNCHANGED ax
  /\ Report(l, Ev.case, [
       outcome |-> Ev.outcome = last',
       runtime_error_class |-> last' = "refused" => Ev.outcome = "refused",
       position |-> Ev.idx = pos',
       current_date |-> Ev.date = IF pos' = 0 THEN -1 ELSE DateAt(ax.start, ax.step, pos'),
       forcing_requests |-> Ev.seen = DatesFromTo(pos, pos'),
       refused_call_changes_nothing |-> last' = "refused" => Ev.unchanged,
       point_records |-> last' = "ok" => Ev.npoint = pos',
       grid_records |-> last' = "ok" => Ev.ngrid = pos'])

TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TCall)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
