-------------------------------- MODULE Runs --------------------------------
(* Several instances of simulations in one process.  The state of an         *)
(* instance is what it has consumed: the pair (simulation, dates processed). *)
(* Results are a function of that pair, however the instance was driven.     *)
EXTENDS Integers, Sequences, FiniteSets
\* observations o: [sim, pos, state]; equal pairs have equal states
Functional(O) == \A p, q \in O : p.sim = q.sim /\ p.pos = q.pos => p.state = q.state
Agrees(O, o) == \A p \in O : p.sim = o.sim /\ p.pos = o.pos => p.state = o.state
=============================================================================
