----------------------------- MODULE TraceFlags -----------------------------
(* Validates the calendar flags recorded at every step of real runs.         *)
EXTENDS Calendar, TraceBase
VARIABLES l, run
TInit == l = 1 /\ run = [start |-> 0, step |-> 60, n |-> 1, pos |-> 0]
Ev == Trace[l]
TSetup == /\ Ev.ev = "setup"
          /\ run' = [start |-> Ev.start, step |-> Ev.step, n |-> NumDates(Ev.start, Ev.end, Ev.step), pos |-> 0]
TFlags == /\ Ev.ev = "flags"
          /\ run' = [run EXCEPT !.pos = @ + 1]
          /\ LET t == DateAt(run.start, run.step, run.pos + 1)
                 x == Flags(t, run.step, run.pos + 1, run.n)
             IN Report(l, Ev.case, [f \in DOMAIN x |-> f \in DOMAIN Ev.flags /\ Ev.flags[f] = x[f]]
                                   @@ [date |-> Ev.date = t])
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TFlags)
TSpec == TInit /\ [][TNext]_<<l, run>>
=============================================================================
