----------------------------- MODULE Lifecycle -----------------------------
(* Life cycle of one simulation: the calls a user can make and what each of  *)
(* them does to the time axis.  One action per public call.                  *)
EXTENDS Integers, Sequences

VARIABLES n,        \* number of dates of the run
          pos,      \* number of dates processed so far (0 = none yet)
          mode,     \* how the model has been driven: "none", "run", "single"
          visited,  \* dates (1..n) processed so far, in order
          last      \* outcome of the last call: "init", "ok", "refused"
lvars == <<n, pos, mode, visited, last>>

LInit(N) == /\ n \in N
            /\ pos = 0 /\ mode = "none" /\ visited = <<>> /\ last = "init"

\* one step is processed
StepOk == /\ pos < n
          /\ pos' = pos + 1
          /\ visited' = Append(visited, pos + 1)
          /\ mode' = IF mode = "none" THEN "single" ELSE mode
          /\ last' = "ok"
          /\ UNCHANGED n
\* past the end of the run
StepRefused == /\ pos = n
               /\ last' = "refused"
               /\ UNCHANGED <<n, pos, mode, visited>>
Step == StepOk \/ StepRefused

RunOk == /\ mode = "none"
         /\ pos' = n
         /\ visited' = visited \o [i \in 1..(n - pos) |-> pos + i]
         /\ mode' = "run"
         /\ last' = "ok"
         /\ UNCHANGED n
RunRefused == /\ mode # "none"
              /\ last' = "refused"
              /\ UNCHANGED <<n, pos, mode, visited>>
Run == RunOk \/ RunRefused

LNext == Step \/ Run

TypeOK == /\ pos \in 0..n /\ n >= 1
          /\ mode \in {"none", "run", "single"}
          /\ last \in {"init", "ok", "refused"}
\* every processed date once, in order, without a gap
InOrder == visited = [i \in 1..pos |-> i]
\* a whole-run call is only ever accepted on a fresh model, and then completes it
RunCompletes == mode = "run" => pos = n
RefusalIsNoOp == [][last' = "refused" => UNCHANGED <<n, pos, mode, visited>>]_lvars
Monotone == [][pos' >= pos]_lvars
=============================================================================
