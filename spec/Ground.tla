------------------------------- MODULE Ground -------------------------------
(* Soil that freezes (Cox et al. 1999) and the layer that takes part in the   *)
(* exchange of heat with the air.  Volumetric water, fractions, conductivity, *)
(* suction head (m): 1e-6; exponent b 1e-4; temperature below freezing 1e-6 K *)
(* (delta, positive if colder); volumetric heat capacity 1e3 J m-3 K-1.       *)
EXTENDS Sun
LnKappa == 4739173                                  \* 0.917 * 334000 / (273.15 * 9.80665) = 114.34 m K-1
\* ---- texture (1e-4) -----------------------------------------------------------
DryHeat(sand, clay) == MulDiv(2128, sand, sand + clay) + MulDiv(2385, clay, sand + clay)
Exponent(sand, clay) == (31000 + MulDiv(clay, 157, 10)) - MulDiv(sand, 3, 10)
Suction(sand, clay) == Exp6(MulDiv((1700 - MulDiv(clay, 63, 100)) - MulDiv(sand, 158, 100) + 30000, 230259, 1000) - 6907755)
Saturated(sand, clay) == (505000 - MulDiv(clay, 37, 10)) - MulDiv(sand, 142, 10)
Critical(vs, psi, b) == MulDiv(vs, Exp6(SMulDiv(Ln6(psi) - 1213130, 10000, b)), 1000000)
Minerals(clay) == Exp6(MulDiv(clay, 148420, 10000) + MulDiv(10000 - clay, 451076, 10000))
DryConduct(vs, clay) == Exp6(SMulDiv(Ln6(Minerals(clay)), 1000000 - vs, 1000000) - MulDiv(vs, 368888, 100000))
\* ---- water that stays liquid ---------------------------------------------------
Capacity(vs, psi, b, delta) == MulDiv(vs, Exp6(-MulDiv(MaxF(0, (LnKappa + Ln6(delta)) - Ln6(psi)), 10000, b)), 1000000)
\* Below(...) : the soil is cold enough for ice
Below(th, vs, psi, b, delta) == delta > 0 /\ Capacity(vs, psi, b, delta) < th
Unfrozen(th, vs, psi, b, delta) == IF Below(th, vs, psi, b, delta) THEN Capacity(vs, psi, b, delta) ELSE th
\* how it changes with temperature (1e-6 K-1)
PerKelvin(u, b, delta) ==
  LET q == MulDiv(u, 10000, b) IN IF delta < 1000000 THEN MulDiv(q, 1000000, delta) ELSE MulDiv(q, 10000, delta \div 100)
\* latent heat of fusion at the temperature, J per gram ... 1e3 J m-3 per 1e-3
Fusion(delta) == 334000 - MulDiv(delta, 208, 100000)
HeatVol(dry, th, u, slope, delta) ==
  dry + MulDiv(u, 4180, 1000000) + MulDiv(th - u, 2100, 1000000) + MulDiv(slope, Fusion(delta), 1000000)
\* heat content per volume (1e3 J m-3) counted from liquid water... frozen at 0 degrees C
HeatStore(dry, th, u, delta) ==
  (MulDiv(u, 334000, 1000000) - MulDiv(delta, dry, 1000000)) - MulDiv(delta, MulDiv(u, 4180, 1000000) + MulDiv(th - u, 2100, 1000000), 1000000)
SatConduct(kd, vs, th, u) ==
  LET ul == MulDiv(vs, u, th)
  IN MulDiv(Exp6((MulDiv(vs, 368888, 100000) - MulDiv(ul, 579818, 1000000)) + MulDiv(vs - ul, 806476, 1000000)), kd, 1000000)
Conductivity(kd, vs, th, u) == kd + SMulDiv(SatConduct(kd, vs, th, u) - kd, th, vs)
\* ---- surface ----------------------------------------------------------------------
\* share of the ground under snow of a depth (1e-6 m), 1e-6
Cover(depth, scale) == IF scale = 0 THEN IF depth > 0 THEN 1000000 ELSE 0
                       ELSE LET x == Frac(depth, scale)
                            IN IF x > 8000000 THEN 1000000 ELSE LET e == Exp6(-2 * x) IN MulDiv(1000000, 1000000 - e, 1000000 + e)
Mixed(f, snow, bare) == MulDiv(snow, f, 1000000) + MulDiv(bare, 1000000 - f, 1000000)
Rough(f, snow, bare) == Exp6(SMulDiv(Ln6(snow), f, 1000000) + SMulDiv(Ln6(bare), 1000000 - f, 1000000))
Opening(gsat, u, vc) == LET r == MinF(Frac(u, vc) \div 10, 1000000) IN MaxF(gsat, MulDiv(MulDiv(gsat, r, 100000), r, 100000))
LayerThick(ds, dg) == MaxF(ds, dg)
\* temperatures 1e-4 degrees C; lengths 1e-6 m
LayerTemp(ds, dg, ts, tg) == IF ds > dg THEN ts ELSE tg + SMulDiv(ts - tg, ds \div 2, dg \div 2)
LayerConduct(ds, dg, ks, kg) ==
  IF 2 * ds > dg THEN ks
  ELSE LET r == MulDiv(2 * ds, 100000, ks \div 10) + MulDiv(dg - (2 * ds), 100000, kg \div 10) IN Frac(dg, r)
=============================================================================
