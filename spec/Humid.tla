-------------------------------- MODULE Humid --------------------------------
(* Moist air.  Temperatures 1e-3 K, vapour pressure 1e-2 Pa, pressure Pa,    *)
(* specific humidity 1e-7.  ExpNeg comes from the albedo law's module.       *)
EXTENDS Integers, Sequences, Albedo
Freeze == 273150
\* exponent of the Magnus formula (1e-6), b 1e-2
MagnusX(b, cc, d) == MulDiv(b * 10000, d, cc)
\* saturation vapour pressure over water / ice
OverWater(t) == LET d == t - Freeze IN
  IF d >= 0 THEN MulDiv(61078, 1000000, ExpNeg(MagnusX(1708, 234180 + d, d)))
  ELSE MulDiv(61078, ExpNeg(MagnusX(1708, 234180 + d, -d)), 1000000)
OverIce(t) == LET d == t - Freeze IN
  IF d >= 0 THEN MulDiv(61071, 1000000, ExpNeg(MagnusX(2244, 272440 + d, d)))
  ELSE MulDiv(61071, ExpNeg(MagnusX(2244, 272440 + d, -d)), 1000000)
SatVap(t) == IF t >= Freeze THEN OverWater(t) ELSE OverIce(t)
SpecHum(e, p) == MulDiv(e, 62200, p - ((e * 378) \div 100000))
SatHum(t, p) == SpecHum(SatVap(t), p)
\* natural logarithm (1e-6) of x (1e-3) >= 1
RECURSIVE Ln(_)
Ln(x) == IF x >= 2000 THEN 693147 + Ln(x \div 2)
         ELSE LET s == MulDiv(1000000, x - 1000, x + 1000)
                  s2 == MulDiv(s, s, 1000000)
                  s3 == MulDiv(s, s2, 1000000)
                  s5 == MulDiv(s3, s2, 1000000)
                  s7 == MulDiv(s5, s2, 1000000)
                  s9 == MulDiv(s7, s2, 1000000)
              IN 2 * (s + s3 \div 3 + s5 \div 5 + s7 \div 7 + s9 \div 9)
\* ---- the laws of moist air ---------------------------------------------------
\* latent heat of vaporization (J kg-1), heat capacity of moist air (1e-3 J kg-1 K-1)
LatVap(t) == 2501000 - ((2361 * (t - Freeze)) \div 1000)
CpMoist(q) == 1004685 + (MulDiv(q, 843935, 1000000) \div 10)
\* psychrometric constant (1e-4 Pa K-1) from pressure (Pa), cp (1e-3) and latent heat
Psych(p, cp, lat) == MulDiv(100000, MulDiv(p * 10, cp \div 10, 100000), MulDiv(lat \div 10, 622, 1000))
\* absolute humidity (1e-7 kg m-3), dry air density (1e-5 kg m-3), precipitable water (1e-4 kg m-2)
AbsHum(e, t) == MulDiv(216675, e, t)
AirDensity(p, t) == MulDiv(348362, p, t)
PrecWater(e, t) == MulDiv(465000, e, t)
\* natural logarithm (1e-6) of 1 + y, y (1e-6) >= 0, from the inverse hyperbolic tangent
Ln1p(y) == LET s == MulDiv(500000, y, 1000000 + (y \div 2))
               s2 == MulDiv(s, s, 1000000) s3 == MulDiv(s, s2, 1000000)
               s5 == MulDiv(s3, s2, 1000000) s7 == MulDiv(s5, s2, 1000000)
               s9 == MulDiv(s7, s2, 1000000) s11 == MulDiv(s9, s2, 1000000)
           IN 2 * (s + (s3 \div 3) + (s5 \div 5) + (s7 \div 7) + (s9 \div 9) + (s11 \div 11))
\* - ln(1 - y)
LnInv(y) == LET s == MulDiv(500000, y, 1000000 - (y \div 2))
                s2 == MulDiv(s, s, 1000000) s3 == MulDiv(s, s2, 1000000)
                s5 == MulDiv(s3, s2, 1000000) s7 == MulDiv(s5, s2, 1000000)
            IN 2 * (s + (s3 \div 3) + (s5 \div 5) + (s7 \div 7))
\* natural logarithm of x (1e-3), precise for large x
RECURSIVE Ln6(_)
Ln6(x) == IF x >= 2000000 THEN 693147 + Ln6(x \div 2) ELSE IF x < 1000000 THEN Ln6(2 * x) - 693147 ELSE Ln1p(x - 1000000)
LogOf(x) == Ln6(x) + 6907755
\* barometric formula: pressure (Pa) at elevation z (1e-2 m)
Drop(z) == MulDiv(z, 338744, 1000000)
Pressure(z) == IF z >= 0 THEN MulDiv(101325, ExpNeg(MulDiv(LnInv(Drop(z)), 350058, 100000)), 1000000)
               ELSE MulDiv(101325, 1000000, ExpNeg(MulDiv(Ln1p(Drop(-z)), 350058, 100000)))
\* psychrometric balance of a wet surface (1e-2 Pa): rises with its temperature; zero at the wet-bulb temperature
WetBalance(t, tw, e, psy) == SatVap(tw) - e - SMulDiv(t - tw, psy, 100000)
\* sine (1e-6) of multiples of 15 degrees
RECURSIVE Sin15(_)
Sin15(k) == LET q == k % 24 IN IF q >= 12 THEN -Sin15(q - 12) ELSE IF q > 6 THEN Sin15(12 - q)
            ELSE <<0, 258819, 500000, 707107, 866025, 965926, 1000000>>[q + 1]
Cos15(k) == Sin15(k + 6)
=============================================================================
