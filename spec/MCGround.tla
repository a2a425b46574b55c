------------------------------ MODULE MCGround ------------------------------
(* Soils of every texture and wetness while they freeze and thaw, and snow of *)
(* growing depth on top.                                                      *)
EXTENDS Ground, TLC
CONSTANTS Sands, Clays, Wets, Deltas, Depths, Scales
VARIABLES sand, clay, wet, delta, depth, scale, go
vars == <<sand, clay, wet, delta, depth, scale, go>>
MCInit == sand \in Sands /\ clay \in Clays /\ sand + clay <= 10000 /\ sand + clay > 0 /\ wet \in Wets /\ delta = 0 /\ depth = 0 /\ scale = 0 /\ go = FALSE
MCNext == ~go /\ go' = TRUE /\ delta' \in Deltas /\ depth' \in Depths /\ scale' \in Scales /\ UNCHANGED <<sand, clay, wet>>
MCSpec == MCInit /\ [][MCNext]_vars
B == Exponent(sand, clay)
Psi == Suction(sand, clay)
Vs == Saturated(sand, clay)
Th == MulDiv(Vs, wet, 100)
Kd == DryConduct(Vs, clay)
Dry == DryHeat(sand, clay)
U(d) == Unfrozen(Th, Vs, Psi, B, d)
Cap(d) == LET u == U(d) IN HeatVol(Dry, Th, u, IF Below(Th, Vs, Psi, B, d) THEN PerKelvin(u, B, d) ELSE 0, d)
K(d) == Conductivity(Kd, Vs, Th, U(d))
Textures == Vs > 250000 /\ Vs <= 505000 /\ B >= 28000 /\ Psi > 0 /\ Psi < 1500000 /\ Kd > 100000 /\ Kd < 500000
            /\ Critical(Vs, Psi, B) > 0 /\ Critical(Vs, Psi, B) < Vs
SandDries == sand >= 1000 => Suction(sand - 1000, clay) > Psi /\ Saturated(sand - 1000, clay) > Vs
ColderLessLiquid == go => U(delta + 1000000) <= U(delta) /\ U(delta) > 0 /\ U(delta) <= Th
ThawedAllLiquid == go => U(0) = Th
\* the capacity is what the content of heat takes up per degree
HeatIsStored == go /\ delta > 100000 =>
   LET h == ClipF(delta \div 50, 20000, 400000)
       a == HeatStore(Dry, Th, U(delta - h), delta - h) b == HeatStore(Dry, Th, U(delta + h), delta + h)
       c == MulDiv(Cap(delta), 2 * h, 1000000)
   IN Below(Th, Vs, Psi, B, delta - h) => AbsF((a - b) - c) <= 8 + (c \div 100)
FreezingDelays == go => (Below(Th, Vs, Psi, B, delta) => Cap(delta) > Dry + MulDiv(Th, 2100, 1000000))
Conducts == go => K(delta) >= Kd - 1 /\ K(delta + 1000000) + 20 >= K(delta)
Covering == go => LET f == Cover(depth, scale) IN f >= 0 /\ f <= 1000000 /\ Cover(depth + 10000, scale) >= f
                  /\ Mixed(f, 800000, 150000) >= 149999 /\ Mixed(f, 800000, 150000) <= 800000
                  /\ Rough(f, 10000, 100000) >= 9990 /\ Rough(f, 10000, 100000) <= 100010
Opens == go => Opening(10000, U(delta), Critical(Vs, Psi, B)) >= 10000
LayerBetween == go => LET d == MinF(depth, 5000000) IN
   /\ LayerThick(d, 100000) >= 100000
   /\ LayerTemp(d, 100000, -80000, 10000) >= -80000 /\ LayerTemp(d, 100000, -80000, 10000) <= 10000
   /\ LayerConduct(d, 100000, 240000, 900000) >= 240000 - 200 /\ LayerConduct(d, 100000, 240000, 900000) <= 900000 + 200
=============================================================================
