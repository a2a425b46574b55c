------------------------------- MODULE Canopy -------------------------------
(* Snow in the forest canopy and the weather below it.  Masses 1e-4 kg m-2,  *)
(* leaf area index 1e-4, temperatures 1e-3 K, fractions 1e-6.                *)
EXTENDS Integers, Sequences, Fixed, Precip
Melting0 == 273150
\* ---- growing season: p = [min, max, add, plant, cycles (sequence of 4-tuples of days)] ----
RECURSIVE LaiIn(_, _, _)
LaiIn(p, k, d) ==              \* d: day (1-based) since the start of cycle k
  IF k > Len(p.cycles) THEN p.min
  ELSE LET c == p.cycles[k]
           rise == c[1] + c[2]
           full == rise + c[3]
           last == full + c[4]
       IN IF d <= 0 THEN p.min
          ELSE IF d <= rise THEN p.min + (d * (p.max - p.min)) \div rise
          ELSE IF d <= full THEN p.max
          ELSE IF d <= last THEN p.max - ((d - full) * (p.max - p.min)) \div c[4]
          ELSE LaiIn(p, k + 1, d - last)
Lai(p, doy) == LaiIn(p, 1, doy - p.plant + 1)
LaiEff(p, doy) == Lai(p, doy) + p.add

\* ---- interception, sublimation, melt unload ----
Capacity(coef, lai) == (lai * coef) \div 10                   \* coef 1e-1 kg m-2 per unit leaf area
OneMinusExp(a, b) == IF a \div b >= 14 THEN One ELSE One - ExpNeg(Ratio(a, b))
Intercepted(cap, load, snow) ==
  IF cap <= load \/ IsNaN(snow) \/ snow <= 0 THEN 0
  ELSE MulDiv(((cap - load) * 7) \div 10, OneMinusExp(snow, cap), One)
\* ddf 1e-1 kg m-2 d-1 K-1, step minutes
MeltPotential(ddf, t, step) == IF IsNaN(t) \/ t <= Melting0 THEN 0 ELSE Times(t - Melting0, ddf * step, 1440)
MeltUnload(pot, load) == MinF(pot, load)

\* ---- weather below the canopy ----
CanopyFraction(lai) == IF lai <= 0 THEN 0 ELSE ClipF(550000 + (29 * Ln(lai \div 10)) \div 100, 0, One)
\* t: air temperature above, mean: mean of the last 24 h
InsideTemp(frac, t, mean, rc) ==
  IF IsNaN(t) \/ IsNaN(mean) THEN t
  ELSE LET d == ClipF((mean - Melting0) \div 3, -2000, 2000)
           in == (rc * (t - mean)) \div 10 + mean - d
       IN t - SMulDiv(t - in, frac, One)
InsideHum(frac, h) == IF IsNaN(h) THEN h ELSE ClipF(h + MulDiv(h, frac \div 10, One), 0, 100000)
Attenuated(x, k, lai) == IF IsNaN(x) THEN x ELSE MulDiv(x, ExpNeg((k * lai) \div 10), One)   \* k 1e-3
=============================================================================
