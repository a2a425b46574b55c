----------------------------- MODULE TraceBase -----------------------------
(* Reading of recorded traces and total verdicts: every line of a trace is   *)
(* consumed; a line that the specification does not allow is reported with   *)
(* the names of the clauses that fail, and validation carries on behind it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)

\* A clause record maps clause names to truth values.
Fails(cl) == {c \in DOMAIN cl : ~cl[c]}
Report(i, case, cl) == \A c \in Fails(cl) : PrintT(<<"BAD", i, case, c>>)
Has(e, f) == f \in DOMAIN e

TraceDone == /\ TLCGet("stats").diameter - 1 = TraceLen
             /\ PrintT(<<"DONE", TraceLen>>)
=============================================================================
