------------------------------ MODULE MCRefET -------------------------------
(* The atmosphere's demand under all combinations of weather: more energy,   *)
(* drier air take more; a sealed surface gives no more than it holds.        *)
EXTENDS RefET, TLC
CONSTANTS Temps, Rads, Vpds, Winds, Gammas, Stores, Heights
VARIABLES t, av, vpd, u, gam, st, h, go
vars == <<t, av, vpd, u, gam, st, h, go>>
\* Rads are offset by 20000 (configurations hold no negative numbers)
MCInit == t \in Temps /\ av \in {r - 20000 : r \in Rads} /\ vpd = 0 /\ u = 0 /\ gam = 65000 /\ st = 0 /\ h = 0 /\ go = FALSE
MCNext == ~go /\ go' = TRUE /\ vpd' \in Vpds /\ u' \in Winds /\ gam' \in Gammas /\ st' \in Stores /\ h' \in Heights /\ UNCHANGED <<t, av>>
MCSpec == MCInit /\ [][MCNext]_vars
D == Slope(t)
U2(x) == TwoMetres(x, 10000)
Ref(a, v, x) == Reference(D, a, gam, t, U2(x), v, 60)
Grain(x) == 3 + x \div 300
Demand(a, v) == SealedDemand(SealedFlux(D, a, gam, t, v, Conduct1(h, 10000, 2000, u)), 60)
NeverNegative == go => Ref(av, vpd, u) >= 0 /\ Demand(av, vpd) >= 0
SunnierMore == go => Ref(av + 5000, vpd, u) + Grain(Ref(av, vpd, u)) >= Ref(av, vpd, u) /\ Demand(av + 5000, vpd) + Grain(Demand(av, vpd)) >= Demand(av, vpd)
DrierMore == go => Ref(av, vpd + 10000, u) + Grain(Ref(av, vpd, u)) >= Ref(av, vpd, u) /\ Demand(av, vpd + 10000) + Grain(Demand(av, vpd)) >= Demand(av, vpd)
NothingToDrive == go => (vpd = 0 /\ av <= 0 => Ref(av, vpd, u) = 0 /\ Demand(av, vpd) = 0)
\* latent heat never exceeds energy by more than what the dry air brings in
EnergyLimit == go => (vpd = 0 /\ av > 0 => Demand(av, vpd) <= SealedDemand(av, 60) + 2)
GroundTakesPart == go => LET a == Available(av, TRUE)
                             b == Available(av, FALSE)
                         IN IF av >= 0 THEN b <= a /\ a <= av ELSE b >= a /\ a >= av
WithinStore == go => Sealed(Demand(av, vpd), st) <= st /\ Sealed(Demand(av, vpd), st) >= 0
WindierMore == go => (av = 0 => Ref(av, vpd, u + 1000) + Grain(Ref(av, vpd, u)) >= Ref(av, vpd, u))
LongerMore == go => Reference(D, av, gam, t, U2(u), vpd, 30) <= Ref(av, vpd, u)
SlopeRises == go => Slope(t + 1000) > D
ProfileFalls == go => U2(u) <= u
=============================================================================
