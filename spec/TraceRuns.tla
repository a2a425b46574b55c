------------------------------ MODULE TraceRuns -----------------------------
(* Instances of the same simulation, driven in different ways in one         *)
(* process; states and outputs as digests.                                   *)
EXTENDS Integers, Sequences, FiniteSets, Runs, TraceBase
VARIABLES l, seen, outs
Ev == Trace[l]
TInit == l = 1 /\ seen = {} /\ outs = {}
TBegin == Ev.ev = "begin" /\ seen' = {} /\ outs' = {}
TObs == /\ Ev.ev = "obs"
        /\ LET o == [sim |-> Ev.sim, pos |-> Ev.pos, state |-> Ev.state]
               q == [sim |-> Ev.osim, pos |-> Ev.pos, state |-> Ev.outputs] IN
           /\ Report(l, Ev.case, [completed |-> Ev.error = "", same_state |-> Ev.error # "" \/ Agrees(seen, o),
                                  same_outputs |-> Ev.error # "" \/ Ev.outputs = "" \/ Agrees(outs, q)])
           /\ seen' = (IF Ev.error # "" THEN seen ELSE seen \union {o})
           /\ outs' = (IF Ev.error # "" \/ Ev.outputs = "" THEN outs ELSE outs \union {q})
TNext == l <= TraceLen /\ l' = l + 1 /\ (TBegin \/ TObs)
TSpec == TInit /\ [][TNext]_<<l, seen, outs>>
=============================================================================
