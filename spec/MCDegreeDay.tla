---------------------------- MODULE MCDegreeDay -----------------------------
(* A pack melting under sequences of temperatures: monotone in temperature,  *)
(* additive over the splitting of a day, never more than the pack.           *)
EXTENDS DegreeDay, TLC
CONSTANTS Depth, Temps, StepSet
VARIABLES pack, c, k, melted
MCInit == /\ k = 0 /\ melted = 0
          /\ c \in {[ddf |-> 6000, af |-> 2000, thr |-> 273150, enhanced |-> e, step |-> s] : e \in BOOLEAN, s \in StepSet}
          /\ pack \in {<<[ice |-> 30000, liq |-> 0], [ice |-> 400000, liq |-> 0]>>, <<[ice |-> 5, liq |-> 0]>>, <<>>}
MCNext == /\ k < Depth /\ k' = k + 1 /\ UNCHANGED c
          /\ \E t \in Temps, sw \in {0, 5000} :
               LET m == DDMelt(c, t, 6000, sw, Ice(pack)) IN pack' = MeltFrom(pack, m) /\ melted' = melted + m
MCSpec == MCInit /\ [][MCNext]_<<pack, c, k, melted>>
Balance == Liq(pack) = melted /\ \A i \in DOMAIN pack : pack[i].ice >= 0
\* a lower layer melts only when the layers above are gone
TopFirst == Len(pack) = 2 /\ pack[2].liq > 0 => pack[1].ice = 0
ZeroBelow == \A t \in Temps : t <= c.thr => Potential(c, t, 6000, 5000) = 0
Monotone == \A t, u \in Temps : t <= u => Potential(c, t, 6000, 1000) <= Potential(c, u, 6000, 1000)
Splits == \A t \in Temps : Near(2 * Potential(c, t, 6000, 2000), Potential([c EXCEPT !.step = 2 * c.step], t, 6000, 2000), 4)
=============================================================================
