------------------------------- MODULE MCCryo -------------------------------
(* Years of a cell: snowfall, densification, melt and the transitions.  One  *)
(* step per 10 days; densities in abstract units.                            *)
EXTENDS CryoLayers, TLC
CONSTANTS MaxSteps, FirnMonth
VARIABLES p, t, k, inn, outt, old
vars == <<p, t, k, inn, outt, old>>
Step10 == 14400
ThrNew == 3
ThrIce == 6
Tot(q) == We(q[1]) + We(q[2]) + We(q[3]) + We(q[4])
MCInit == /\ p = <<EmptyLayer, EmptyLayer, EmptyLayer, [ice |-> 5, liq |-> 0, dens |-> 9]>>
          /\ t = DaysFromCivil(2019, 8, 15) * 1440 /\ k = 1 /\ inn = 5 /\ outt = 0
          /\ old = p
Snow(q, s) == IF s = 0 THEN q ELSE [q EXCEPT ![1] = IF We(@) = 0 THEN [ice |-> s, liq |-> 0, dens |-> 1] ELSE [@ EXCEPT !.ice = @ + s]]
Dens(q, d) == [i \in 1..4 |-> IF We(q[i]) > 0 /\ i < 4 THEN [q[i] EXCEPT !.dens = @ + d] ELSE q[i]]
RECURSIVE Take(_, _, _)
Take(q, i, m) == IF i > 4 \/ m = 0 THEN q
                 ELSE LET d == MinF(m, q[i].ice) IN
                      Take([q EXCEPT ![i] = IF q[i].ice = d THEN EmptyLayer ELSE [@ EXCEPT !.ice = @ - d]], i + 1, m - d)
MCNext == /\ k < MaxSteps
          /\ \E s \in 0..2, d \in 0..1, m \in 0..2 :
               LET a == Take(Dens(Snow(p, s), d), 1, m)
                   nu == a[1].dens >= ThrNew
                   b == AfterFirn(AfterNew(a, nu), FirnStep(t, Step10, k = 1, FirnMonth))
                   q == AfterIce(b, b[3].dens >= ThrIce)
               IN /\ p' = q /\ inn' = inn + s /\ outt' = outt + (Tot(p) + s - Tot(a)) /\ old' = a
          /\ t' = t + Step10 /\ k' = k + 1
MCSpec == MCInit /\ [][MCNext]_vars
Conserved == Tot(p) = inn - outt
NewIsLight == We(p[1]) > 0 => p[1].dens < ThrNew
FirnIsLight == We(p[3]) > 0 => p[3].dens < ThrIce
\* firn grows only in the transition step, ice only together with vanishing firn, ice never shrinks by a transition
FirnGrowsOnlyThen == k > 1 /\ We(p[3]) > We(old[3]) => FirnStep(t - Step10, Step10, k = 2, FirnMonth)
IceOnlyGrows == k > 1 => We(p[4]) >= We(old[4]) /\ (We(p[4]) > We(old[4]) => We(p[3]) = 0)
OldGoneAfterFirnStep == k > 1 /\ FirnStep(t - Step10, Step10, k = 2, FirnMonth) => We(p[2]) = 0
View == <<p, t, k, old>>
=============================================================================
