--------------------------- MODULE MCCanopySub ------------------------------
(* The sublimation law of the canopy: what dries more, loses more.           *)
EXTENDS CanopySub, TLC
CONSTANTS Temps, Hums, Winds, Albs, Sws, Loads
VARIABLES t, h, u, alb, sw, ld, go
vars == <<t, h, u, alb, sw, ld, go>>
MCInit == t \in Temps /\ h \in Hums /\ u = 0 /\ alb = 0 /\ sw = 0 /\ ld = 0 /\ go = FALSE
MCNext == ~go /\ go' = TRUE /\ u' \in Winds /\ alb' \in Albs /\ sw' \in Sws /\ ld' \in Loads /\ UNCHANGED <<t, h>>
MCSpec == MCInit /\ [][MCNext]_vars
Es == SatVap(t)
Rate(hh, uu, a, s) == LossRate(500, t, hh, uu, Es, a, s)
R == Rate(h, u, alb, sw)
Sub(l, dt) == Sublimated(200000, l, LossShare(R, 10, dt))
\* fixed-point grains of the rate
Grain == 3 + R \div 500
NeverNegative == go => R >= 0
SaturatedDark == go => (h = 100000 /\ (sw = 0 \/ alb = One) => R = 0)
DrierMore == go => (h >= 10000 => Rate(h - 10000, u, alb, sw) + Grain >= R)
SunnierMore == go => Rate(h, u, alb, sw + 1000000) + Grain >= R
DarkerMore == go => (alb >= 100000 => Rate(h, u, alb - 100000, sw) + Grain >= R)
\* wind carries vapour away: as long as the air dries
WindierMore == go => (sw = 0 => Rate(h, u + 5000, alb, sw) + Grain >= R)
WithinLoad == go => \A dt \in {10, 60, 1440} : Sub(ld, dt) >= 0 /\ Sub(ld, dt) <= ld
LongerMore == go => Sub(ld, 10) <= Sub(ld, 60) + 1 /\ Sub(ld, 60) <= Sub(ld, 1440) + 1
MoreLoadMore == go => Sub(ld, 60) <= Sub(ld + 10000, 60) + 2
\* a smaller load loses a larger share of itself
ExposedShare == go => (ld >= 10000 => Sub(2 * ld, 60) <= 2 * Sub(ld, 60) + 3)
=============================================================================
