------------------------------- MODULE MCHumid -------------------------------
(* The laws of moist air on a grid of weather and elevations: what a user    *)
(* relies on them to imply.  One state per combination; each is emitted as   *)
(* a word for the implementation.                                            *)
EXTENDS Humid, FiniteSets, TLC, Json, Fixed
CONSTANTS NT, NR, NZ
VARIABLES t, rh, z, go
Temp(i) == Freeze - 45000 + ((85000 \div NT) * i)
Rh(i) == <<5, 25, 60, 90, 100>>[i]
Elev(i) == -40000 + (i * (600000 \div NZ))
Init == t \in 0..NT /\ rh = 1 /\ z = 0 /\ go = FALSE
Next == ~go /\ go' = TRUE /\ t' = t /\ rh' \in 1..NR /\ z' \in 0..NZ
Spec == Init /\ [][Next]_<<t, rh, z, go>>
T == Temp(t)
P == Pressure(Elev(z))
E == MulDiv(SatVap(T), Rh(rh), 100)
Q == SpecHum(E, P)
Psy == Psych(P, CpMoist(Q), LatVap(T))
\* the wet-bulb temperature by bisection
RECURSIVE Bisect(_, _)
Bisect(lo, hi) == IF hi - lo <= 2 THEN hi ELSE LET m == (lo + hi) \div 2 IN IF WetBalance(T, m, E, Psy) >= 0 THEN Bisect(lo, m) ELSE Bisect(m, hi)
Wet == Bisect(T - 40000, T)
RECURSIVE DewB(_, _)
DewB(lo, hi) == IF hi - lo <= 2 THEN hi ELSE LET m == (lo + hi) \div 2 IN IF OverWater(m) >= MulDiv(OverWater(T), Rh(rh), 100) THEN DewB(lo, m) ELSE DewB(m, hi)
Dew == DewB(T - 60000, T)
\* warmer air holds more, water more than ice below freezing
Saturation == /\ SatVap(T + 500) > SatVap(T) /\ T < Freeze => OverIce(T) < OverWater(T)
\* the wet-bulb balance changes sign between a bound below and the air temperature, and is strictly increasing
WetBulb == /\ WetBalance(T, T, E, Psy) >= 0 /\ WetBalance(T, T - 40000, E, Psy) < 0
           /\ \A k \in 0..8 : WetBalance(T, T - 500 * k, E, Psy) > WetBalance(T, T - 500 * (k + 1), E, Psy)
           /\ Dew <= Wet + 5 /\ Wet <= T /\ (rh = 5 => Wet >= T - 30)
\* drier or higher air: less vapour, more evaporative cooling
Order == /\ rh > 1 => MulDiv(SatVap(T), Rh(rh - 1), 100) < E
         /\ Pressure(Elev(z) + 1000) < P
         /\ Q < 1100000 /\ (z < NZ => SpecHum(E, Pressure(Elev(z + 1))) >= Q)
         /\ AirDensity(P, T) > AirDensity(P, T + 1000)
Circle == \A k \in 0..24 : Near(MulDiv(AbsF(Sin15(k)), AbsF(Sin15(k)), 1000000) + MulDiv(AbsF(Cos15(k)), AbsF(Cos15(k)), 1000000), 1000000, 3)
SeaLevel == Near(Pressure(0), 101325, 1) /\ Near(Pressure(100000), 89810, 3) /\ Near(Pressure(300000), 69630, 3)
Logs == Near(LogOf(2000), 693147, 8) /\ Near(LogOf(20000000), 9903488, 20) /\ Near(Ln1p(250000), 223144, 5) /\ Near(LnInv(250000), 287682, 5)
Emit == go => PrintT(<<"EMIT", ToJson([t |-> T, rh |-> Rh(rh), z |-> Elev(z)])>>)
=============================================================================
