--------------------------------- MODULE Sun ---------------------------------
(* The sun's place in the sky and what a cloudless sky lets through.         *)
(* Angles 1e-3 degrees; numbers 1e-6; fluxes 1e-3 W m-2; pressure Pa.        *)
EXTENDS Trig, Energy
\* ---- arithmetic ---------------------------------------------------------------------
Mul6(a, b) == MulDiv(a, b, 1000000)
Dot6(a, b) == SMulDiv(IF b < 0 THEN -a ELSE a, AbsF(b), 1000000)
RECURSIVE Digits(_, _, _)
Digits(r, b, n) == IF n = 0 THEN 0 ELSE ((10 * r) \div b) * (10 ^ (n - 1)) + Digits((10 * r) % b, b, n - 1)
RECURSIVE Frac(_, _)
Frac(a, b) == IF b > 200000000 THEN Frac(a \div 2, b \div 2) ELSE ((a \div b) * 1000000) + Digits(a % b, b, 6)
RECURSIVE Twice(_, _)
Twice(x, n) == IF n = 0 THEN x ELSE Twice(2 * x, n - 1)
Exp6(y) == IF y <= 0 THEN ExpNeg(-y) ELSE LET n == (y \div 693147) + 1 IN Twice(ExpNeg((n * 693147) - y), n)
\* x to the power of p (1e-4)
Pow(x, p) == Exp6(SMulDiv(Ln6(x), p, 10000))
PowNeg(x, p) == Exp6(-SMulDiv(Ln6(x), p, 10000))
\* ---- astronomy ------------------------------------------------------------------------
DayAngle(doy) == MulDiv(doy - 1, 985626, 1000)
\* 1e-4 minutes
EqTime(doy) == LET a == DayAngle(doy)
                   r == (75 + SMulDiv(CosD(a), 18680, 1000000)) - SMulDiv(SinD(a), 320770, 1000000)
                        - SMulDiv(CosD(2 * a), 146150, 1000000) - SMulDiv(SinD(2 * a), 408490, 1000000)    \* 1e-7 rad
               IN SMulDiv(r, 229183, 1000000)
\* 1e-4 degrees
Declination(doy) == LET n == SMulDiv((1000 * doy) - 79346, 985626, 1000000) IN
  ((3723 + SMulDiv(SinD(n), 232567, 1000000)) - SMulDiv(CosD(n), 7580, 1000000)) + SMulDiv(SinD(2 * n), 1149, 1000000)
  + SMulDiv(CosD(2 * n), 3656, 1000000) - SMulDiv(SinD(3 * n), 1712, 1000000) + SMulDiv(CosD(3 * n), 201, 1000000)
\* minute: of the day on the clock of meridian lstm
HourAngle(doy, minute, lon, lstm) == ((250 * minute) - 180000) + (lon - lstm) + (EqTime(doy) \div 40)
\* towards east, south and the zenith
SunVec(lat, ha, dec) ==
  LET cd == CosD(dec) sd == SinD(dec) ch == CosD(ha) IN
  [x |-> -Dot6(SinD(ha), cd),
   y |-> Dot6(Dot6(ch, cd), SinD(lat)) - Dot6(sd, CosD(lat)),
   z |-> Dot6(Dot6(ch, cd), CosD(lat)) + Dot6(sd, SinD(lat))]
Distance(doy) == LET a == DayAngle(doy) IN
  1000110 + SMulDiv(CosD(a), 34221, 1000000) + SMulDiv(SinD(a), 1280, 1000000)
  + SMulDiv(CosD(2 * a), 719, 1000000) + SMulDiv(SinD(2 * a), 77, 1000000)
\* ---- atmosphere -----------------------------------------------------------------------
AirMassMax == 14195200
AirMass(th) == LET d == CosD(th) + MulDiv(PowNeg(1000 * (93885 - th), 12530), 15, 100) IN MinF(AirMassMax, MulDiv(1000000, 1000000, d))
AtPressure(m, p) == MulDiv(m, p, 101325)
TRayleigh(ma) == ExpNeg(MulDiv(Mul6(Pow(ma, 8400), (1000000 + ma) - Pow(ma, 10100)), 903, 10000))
\* oz: layer 1e-6 m
TOzone(m, oz) == LET lm == Mul6(m, 100 * oz)
                     a == MulDiv(MulDiv(lm, 1611, 10000), PowNeg(1000000 + MulDiv(lm, 13948, 100), 3035), 1000000)
                     l2 == (lm \div 1000) * (lm \div 1000)
                     b == Frac(MulDiv(lm, 2715, 1000000), 1000000 + MulDiv(lm, 44, 1000) + MulDiv(l2, 3, 10000))
                 IN (1000000 - a) + b
TGases(ma) == ExpNeg(MulDiv(Pow(ma, 2600), 127, 10000))
\* w: precipitable water 1e-4 kg m-2
TVapour(m, w) == LET wm == MulDiv(m, w, 100000)
                     ln == IF wm < 20000000 THEN Ln6(1000000 + MulDiv(wm, 79034, 1000)) ELSE LogOf(1000 + MulDiv(wm, 79034, 1000000))
                 IN 1000000 - Frac(MulDiv(wm, 24959, 10000), Exp6(MulDiv(ln, 6828, 10000)) + MulDiv(wm, 6385, 1000))
\* vis: visibility m
TAerosol(ma, vis) == ExpNeg(Mul6(Pow(ma, 9000), -Ln6(970000 - MulDiv(PowNeg(1000 * vis, 6600), 1265, 1000))))
\* ssa: single scattering albedo 1e-4
TAbsorb(ma, ta, ssa) == 1000000 - Mul6(MulDiv((1000000 - ma) + Pow(ma, 10600), 10000 - ssa, 10000), 1000000 - ta)
\* higher places see less air: z 1e-1 m
Height(z) == (22 * MinF(z, 30000)) \div 10
\* everything the sky does to the sun's rays at zenith angle th; a: [p, w, z, oz, vis, ssa, csa]
Sky(th, a) ==
  LET m == AirMass(th) ma == AtPressure(m, a.p)
      r == TRayleigh(ma) o == TOzone(m, a.oz) g == TGases(ma) v == TVapour(m, a.w) e == TAerosol(ma, a.vis) b == TAbsorb(ma, e, a.ssa)
      q == Frac(e, b)
      t2 == (Rad(th) \div 100) * (Rad(th) \div 100)
      fc == (906700 + MulDiv(Rad(th), 1409, 10000)) - MulDiv(t2 \div 100, 2562, 10000)
      ogv == Mul6(Mul6(o, g), v)
      den == ((1000000 - ma) + Pow(ma, 10200)) \div 2
  IN [trans |-> ClipF(Mul6(Mul6(Mul6(ogv, r), 1000000), e) + Height(a.z), 0, 1000000),
      rayleigh |-> MulDiv(Mul6(Mul6(ogv, b), (1000000 - r) \div 2), 500000, den),
      aerosol |-> MulDiv(Mul6(Mul6(Mul6(ogv, b), fc), 1000000 - q), 500000, den),
      glow |-> (100 * a.csa) + Mul6(1000000 - fc, 1000000 - q)]
\* cosine of the angle between the sun and the normal of a surface (east, north, up)
Incidence(s, n) == MaxF(0, (Dot6(s.x, n.x) - Dot6(s.y, n.y)) + Dot6(s.z, n.z))
Solar(doy) == MulDiv(1366100, Distance(doy), 1000000)
Direct(s0, inc, sky) == MulDiv(Mul6(Mul6(s0, inc), sky.trans), 9751, 10000)
\* diffuse radiation of an open sky; ga: mean albedo of the ground (1e-6)
Diffuse(s0, cz, sky, ga, dir) ==
  LET top == MulDiv(Mul6(s0, cz), 79, 100)
      one == Mul6(top, sky.rayleigh) + Mul6(top, sky.aerosol)
      x == Mul6(ga, sky.glow)
  IN one + MulDiv(Mul6(dir, cz) + one, x, 1000000 - x)
\* the part of it seen between slopes, and what the slopes reflect; svf 1e-6
Terrain(dif, svf, ga, s0, inc, sky, lit, facing) ==
  Mul6(dif, svf) + Mul6(Mul6(Mul6(Mul6(Mul6(Mul6(s0, inc), sky.trans), lit), facing) + dif, 1000000 - svf), ga)
\* ---- longwave (1e-2 W m-2) ---------------------------------------------------------------
ClearEmis(w) == LET c == 10 * w IN 1000000 - Mul6(ExpNeg(1000 * ISqrt(1200000 + (3 * c))), 1000000) - Mul6(c, ExpNeg(1000 * ISqrt(1200000 + (3 * c))))
\* cl: cloud fraction, ec: emissivity of clouds, svf, rock: 1e-6; ta, ts, tr (rocks): 1e-3 K
LongIn(ta, w, cl, ec, svf, rock, tr, ts) ==
  LET n2 == Mul6(cl, cl)
      e == Mul6(ClearEmis(w), 1000000 - n2) + Mul6(n2, ec)
  IN Mul6(Mul6(Black(ta), e), svf) + Mul6(Mul6(Black(tr), rock) + Mul6(Black(ts), 1000000 - rock), 1000000 - svf)
=============================================================================
