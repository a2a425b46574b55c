------------------------------- MODULE Clouds -------------------------------
(* Where cloudiness comes from, and what it does to radiation.               *)
(* A station offers observed cloud cover, measured radiation (usable by day  *)
(* where the clear-sky radiation of its cell is known), temperature and      *)
(* humidity.  c: [method, night, fallback].                                  *)
EXTENDS Integers
Source(c, sun, ncover, nrad, nhum) ==
  LET a == IF c.method = "prescribed" /\ ncover = 0 /\ c.fallback THEN "clear_sky_fraction" ELSE c.method
      b == IF a # "clear_sky_fraction" THEN a
           ELSE IF ~sun THEN c.night
           ELSE IF nrad = 0 /\ c.fallback THEN "humidity" ELSE a
  IN IF b = "humidity" /\ nhum = 0 /\ c.fallback THEN "constant" ELSE b
\* number of stations that supply the chosen source
Supply(src, ncover, nrad, nhum) ==
  CASE src = "prescribed" -> ncover [] src = "clear_sky_fraction" -> nrad [] src = "humidity" -> nhum [] OTHER -> 0
\* the parametrisations; 1e-4
FactorOf(n) == LET f == 10000 - ((2330 * n) \div 10000) - ((((n * n) \div 10000) * 4150) \div 10000) IN IF f < 0 THEN 0 ELSE IF f > 10000 THEN 10000 ELSE f
Clip01(x) == IF x < 0 THEN 0 ELSE IF x > 10000 THEN 10000 ELSE x
Overcast == 3520    \* cloud factors up to this mean complete cloud cover
Default == 7500
\* certain day and night by local clock time (minutes) near 47 N, 10 E, UTC+1
DayWindow == [winter |-> <<525, 960>>, equinox |-> <<435, 1050>>, summer |-> <<310, 1170>>]
NightWindow == [winter |-> <<435, 1050>>, equinox |-> <<330, 1155>>, summer |-> <<230, 1250>>]
SurelyDay(season, t) == t >= DayWindow[season][1] /\ t <= DayWindow[season][2]
SurelyNight(season, t) == t < NightWindow[season][1] \/ t > NightWindow[season][2]
\* black-body radiation (1e-2 W m-2) of a temperature in cK
BlackBody(t) == LET k2 == (t * t) \div 100000
                    k4 == k2 * k2      \* (K^2 / 10)^2 = K^4 / 100
                IN IF k2 > 12000 THEN 0 ELSE (((k4 \div 1000) * 5670) \div 1000000) * 100 + ((((k4 \div 1000) * 5670) % 1000000) \div 10000)
\* sky emissivity (1e-4) with cloud fraction n: squared weighting of the overcast part
SkyEmissivity(clear, cloud, n) == LET q == (n * n) \div 10000 IN ((clear * (10000 - q)) \div 10000) + ((cloud * q) \div 10000)
=============================================================================
