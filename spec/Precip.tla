------------------------------- MODULE Precip -------------------------------
(* Phase of precipitation and its corrections.  Temperatures 1e-3 K, amounts *)
(* 1e-4 kg m-2, factors 1e-3, catch ratios 1e-6, wind 1e-3 m s-1.            *)
EXTENDS Integers, Sequences, FiniteSets, Fixed, Albedo
Zero0 == 273150
\* a * b / c for b, c >= 1 and a quotient in range
Times(a, b, c) == (b \div c) * a + MulDiv(a, b % c, c)

\* ---- phase: snow part of an amount p at temperature t ----
\* numerator of the snow fraction over 2*range (range > 0)
Num(c, t) == ClipF(2 * c.thr + c.range - 2 * t, 0, 2 * c.range)
AllRain(c, t) == IF c.range = 0 THEN t >= c.thr ELSE Num(c, t) = 0
AllSnow(c, t) == IF c.range = 0 THEN t < c.thr ELSE Num(c, t) = 2 * c.range
SnowPart(c, t, p) == IF AllRain(c, t) THEN 0 ELSE IF AllSnow(c, t) THEN p ELSE MulDiv(p, Num(c, t), 2 * c.range)
\* the cells of a field: temperatures ts, elevations zs
RainElevs(c, ts, zs) == {zs[i] : i \in {j \in DOMAIN ts : AllRain(c, ts[j])}}
Cut(c, ts, zs, i) == c.enforce /\ \E z \in RainElevs(c, ts, zs) : zs[i] <= z
Snow0(c, ts, zs, ps, i) == IF Cut(c, ts, zs, i) THEN 0 ELSE SnowPart(c, ts[i], ps[i])
Rain0(c, ts, zs, ps, i) == ps[i] - Snow0(c, ts, zs, ps, i)
SnowOf(c, ts, zs, ps, srf, i) == Times(Snow0(c, ts, zs, ps, i), srf[i], 1000)

\* ---- station corrections ----
Ln2 == 693147
RECURSIVE Ln(_)                              \* natural logarithm, argument 1e-3, result 1e-6
Ln(x) == IF x >= 2000 THEN Ln2 + Ln(x \div 2)
         ELSE IF x < 1000 THEN Ln(2 * x) - Ln2
         ELSE LET z == Ratio(x - 1000, x + 1000)
                  z2 == MulDiv(z, z, One)
                  z3 == MulDiv(z2, z, One)
                  z5 == MulDiv(z3, z2, One)
                  z7 == MulDiv(z5, z2, One)
              IN 2 * (z + z3 \div 3 + z5 \div 5 + z7 \div 7)
\* x^(e/100), x 1e-3 in (0, 20), result 1e-3, up to e^4
Pow(x, e) == IF x <= 0 THEN 0
             ELSE LET y == (Ln(x) \div 100) * e IN Times(ExpNeg(4 * One - y), 54598, One)
\* arctangent, argument and result 1e-4 (polynomial, 1e-5 accurate)
RECURSIVE Atan(_)
Atan(x) == IF x < 0 THEN -Atan(-x)
           ELSE IF x > 10000 THEN 15708 - Atan(100000000 \div x)
           ELSE LET q == (x * x) \div 10000
                    p == 9999 + (q * (-3303 + (q * (1801 + (q * (-851 + (q * 208) \div 10000)) \div 10000)) \div 10000)) \div 10000
                IN (x * p) \div 10000
\* catch ratios (1e-4); w wind at gauge height (1e-3), tc temperature in 1e-3 deg C
WmoW(w) == MinF(w, 7000)
Sq(w) == (w * w) \div 1000                   \* 1e-3
WmoSnow(g, w0, tc) ==
  LET w == WmoW(w0) IN
  CASE g = "nipher"    -> 10000 - (44 * Sq(w) + 198 * w) \div 1000
    [] g = "tretyakov" -> 10311 - (867 * w - 30 * tc) \div 1000
    [] g = "us_sh"     -> Times(10048, ExpNeg(40 * Pow(w, 175)), One)
    [] g = "us_unsh"   -> Times(10048, ExpNeg(160 * Pow(w, 128)), One)
    [] OTHER           -> 10000 + (113 * Sq(w) - 1945 * w) \div 1000
WmoMixed(g, w0, tc) ==
  LET w == WmoW(w0) IN
  CASE g = "nipher"    -> 9729 - (318 * w + 9 * tc) \div 1000
    [] g = "tretyakov" -> 9699 - (446 * w - 110 * tc) \div 1000
    [] g = "us_sh"     -> 10104 - (562 * w) \div 1000
    [] g = "us_unsh"   -> 10077 - (834 * w) \div 1000
    [] OTHER           -> 9663 + (41 * Sq(w) - 984 * w + 595 * tc) \div 1000
Koch == [us_un    |-> <<450, 1210, 660, 8000>>,  all_sa |-> <<300, 1040, 570, 12000>>,
         nor_sa   |-> <<500, 660, 230, 12000>>,  us_sa  |-> <<300, 1060, 630, 12000>>,
         us_da    |-> <<210, 740, 660, 8000>>,   us_bda |-> <<100, 480, 510, 8000>>,
         us_sdfir |-> <<40, 0, 0, 8000>>]
\* exponent (1e-6) of the Kochendorfer catch ratio exp(-x)
KochX(g, w0, tc) ==
  LET k == Koch[g]
      w == MinF(w0, k[4])
      f == 10000 - Atan((k[2] * tc) \div 100) + 10 * k[3]        \* 1e-4
  IN (((k[1] * w) \div 1000) * f) \div 100                       \* (1e-4 * 1) * 1e-4 -> 1e-6
\* amount after one correction of method m (record), given phase temperature tp, air temperature t, wind w (raw), wg (gauge height)
Corrected(c, m, p, tp, t, w, wg) ==
  CASE m.m = "scf"  -> LET s == IF IsNaN(tp) THEN 0 ELSE SnowPart(c, tp, p) IN (p - s) + Times(s, m.scf, 1000)
    [] m.m = "wmo"  -> IF IsNaN(tp) \/ IsNaN(wg) \/ AllRain(c, tp) THEN p
                       ELSE Times(p, 10000, IF AllSnow(c, tp) THEN WmoSnow(m.g, wg, t - Zero0) ELSE WmoMixed(m.g, wg, t - Zero0))
    [] m.m = "koch" -> IF IsNaN(t) \/ IsNaN(w) THEN p
                       ELSE LET x == KochX(m.g, w, t - Zero0)
                            IN IF x >= 0 THEN Times(p, One, ExpNeg(x)) ELSE Times(p, ExpNeg(-x), One)
    [] OTHER        -> p
RECURSIVE CorrectAll(_, _, _, _, _, _, _)
CorrectAll(c, ms, p, tp, t, w, wg) ==
  IF ms = <<>> THEN p ELSE CorrectAll(c, Tail(ms), Corrected(c, Head(ms), p, tp, t, w, wg), tp, t, w, wg)
=============================================================================
