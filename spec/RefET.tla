------------------------------- MODULE RefET --------------------------------
(* The atmosphere's demand for water: reference evapotranspiration and       *)
(* evaporation from sealed surfaces after Penman and Monteith (FAO-56).      *)
(* Radiation 1e-2 W m-2, temperature 1e-3 K, wind 1e-3 m s-1, psychrometric  *)
(* constant 1e-3 Pa K-1, vapour pressure 1e-2 Pa, water 1e-5 kg m-2,         *)
(* heights 1e-3 m.                                                           *)
EXTENDS Sun
NetRad(alb, emis, sw, lw, t) == MulDiv(sw, 1000000 - alb, 1000000) + lw - MulDiv(Black(t), emis, 1000000)
\* conducted into the ground: a tenth by day, half by night
GroundHeat(rn, up) == IF up THEN SMulDiv(rn, 1, 10) ELSE SMulDiv(rn, 1, 2)
Available(rn, up) == rn - GroundHeat(rn, up)
\* slope of saturation vapour pressure, 1e-6 kPa K-1
Slope(t) == LET x == t - 273150
                y == x + 237300
                e == MulDiv(Exp6(SMulDiv(SMulDiv(x, 1000000, y), 17270, 1000)), 6108, 10000)
            IN MulDiv(MulDiv(e, 409800, y), 10000, y)
\* logarithmic profile: wind at 2 m over grass from a measurement at height h
TwoMetres(u, h) == MulDiv(u, Ln6(Frac(2000, 30)) \div 10, Ln6(Frac(h, 30)) \div 10)
\* (slope * available radiation), 1e-4 W m-2 kPa K-1
Radiative(d, av) == SMulDiv(100 * av, d, 1000000)
\* reference evapotranspiration in mm h-1 (1e-6), may be negative
AeroTerm(gam, t, u2, vpd) == MulDiv(MulDiv(MulDiv(37 * gam, 10000, t - 150), u2, 1000), vpd, 100000)
RefDen(d, gam, u2) == d + gam + MulDiv(gam, (34 * u2) \div 10, 10000)
RefRate(d, av, gam, t, u2, vpd) ==
  LET n == SMulDiv(Radiative(d, av), 14688, 10000)
      q == AeroTerm(gam, t, u2, vpd)
  IN SMulDiv(n + q, 100000, RefDen(d, gam, u2))
Reference(d, av, gam, t, u2, vpd, step) == MulDiv(MaxF(RefRate(d, av, gam, t, u2, vpd), 0), step, 600)
\* ---- sealed surfaces ---------------------------------------------------------------
Displaced(h) == (2 * h) \div 3
\* aerodynamic conductance (1e-6 m s-1) of a surface of height h, wind and temperature measured at zw, zt
Conduct1(h, zw, zt, u) ==
  LET a == (Ln6(1000 * (zw - Displaced(h))) - Ln6(123 * h)) \div 100
      b == (Ln6(1000 * (zt - Displaced(h))) - Ln6((123 * h) \div 10)) \div 100
  IN MulDiv(16 * u, 100000, MulDiv(a, b, 10000))
\* volumetric heat capacity of the air (1e-2 J m-3 K-1)
HeatCap(gam, t) == MulDiv(gam, 536540, t)
\* latent heat flux (1e-2 W m-2)
SealedFlux(d, av, gam, t, vpd, ga) ==
  LET q == MulDiv(MulDiv(10 * HeatCap(gam, t), ga, 1000000), vpd, 10000)
  IN SMulDiv(Radiative(d, av) + q, 10000, d + gam)
SealedDemand(flux, step) == MulDiv(MaxF(flux, 0), (step * 23990) \div 100, 10000)
Sealed(demand, store) == MinF(demand, store)
=============================================================================
