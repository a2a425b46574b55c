---------------------------- MODULE MCLifecycle ----------------------------
(* Exhaustive check of Lifecycle, and every call sequence of length K as a   *)
(* behaviour to be replayed into the real code.                              *)
EXTENDS Lifecycle, TLC, Json
CONSTANTS MaxN, K
VARIABLE calls
MCInit == LInit(1..MaxN) /\ calls = <<>>
Call(op, A) == /\ Len(calls) < K /\ A
               /\ calls' = Append(calls, [op |-> op, outcome |-> last', pos |-> pos'])
MCNext == Call("step", Step) \/ Call("run", Run)
MCSpec == MCInit /\ [][MCNext]_<<lvars, calls>>
Emit == Len(calls) = K => PrintT(<<"EMIT", ToJson([n |-> n, calls |-> calls])>>)
=============================================================================
