----------------------------- MODULE DegreeDay ------------------------------
(* Temperature-index melt.  Temperatures 1e-3 K, masses 1e-4 kg m-2,         *)
(* degree-day factor 1e-3 kg m-2 d-1 K-1, albedo factor 1e-4, albedo 1e-4,   *)
(* radiation 0.1 W m-2, step in minutes.                                     *)
EXTENDS Snowpack
\* amount per day in 1e-5 kg m-2
PerDayTemp(c, t) == (c.ddf * (t - c.thr)) \div 10
PerDayRad(c, alb, sw) == LET x == (c.af * (10000 - alb)) \div 100      \* 1e-6 per W
                         IN (sw \div 100) * x + ((sw % 100) * x) \div 100
Potential(c, t, alb, sw) ==
  IF t <= c.thr THEN 0
  ELSE LET d == PerDayTemp(c, t) + (IF c.enhanced THEN PerDayRad(c, alb, sw) ELSE 0)
       IN ((d \div 1440) * c.step + ((d % 1440) * c.step) \div 1440) \div 10
\* limited by the ice present
DDMelt(c, t, alb, sw, ice) == MinF(MaxF(0, Potential(c, t, alb, sw)), ice)
=============================================================================
