------------------------------ MODULE SoilWater -----------------------------
(* Evapotranspiration and soil water after FAO-56.  Water 1e-5 kg m-2,       *)
(* coefficients 1e-6, heights and depths 1e-3 m, soil contents 1e-4.         *)
EXTENDS Integers, Sequences, Fixed, Precip
Field    == <<1200, 1500, 2300, 2500, 2900, 3200, 3350, 3600, 3600>>
Wilting  == <<450, 650, 1100, 1200, 1500, 1700, 2050, 2300, 2200>>
Readily  == <<450000, 600000, 800000, 900000, 950000, 950000, 950000, 1000000, 1000000>>
FracAdj  == <<1100, 1075, 1050, 1025, 1000, 975, 950, 925, 900>>
RECURSIVE Quot(_, _)
Quot(a, b) == IF b > 500000 THEN Quot(a \div 16, b \div 16) ELSE Ratio(a, b)       \* a/b in 1e-6
TotalEvaporable(t, ze) == (2 * Field[t] - Wilting[t]) * ze * 5
TotalAvailable(t, depth) == (Field[t] - Wilting[t]) * depth * 10
ReadilyAvailable(t, depth, p) == Times(TotalAvailable(t, depth), p * FracAdj[t], One)

RECURSIVE NegLn(_)                                    \* -ln(x), 0 < x <= 1
NegLn(x) == IF x < 500000 THEN Ln2 + NegLn(2 * x)
            ELSE LET z == Quot(One - x, One + x)
                     z2 == MulDiv(z, z, One)
                     z3 == MulDiv(z2, z, One)
                     z5 == MulDiv(z3, z2, One)
                     z7 == MulDiv(z5, z2, One)
                     z9 == MulDiv(z7, z2, One)
                 IN 2 * (z + z3 \div 3 + z5 \div 5 + z7 \div 7 + z9 \div 9)

\* ---- crop coefficient curve: p = [plant, cycles, ini, mid, end], kmin ----
RECURSIVE KcIn(_, _, _, _)
KcIn(p, kmin, k, d) ==
  IF k > Len(p.cycles) \/ d <= 0 THEN [k |-> kmin, low |-> 0]
  ELSE LET c == p.cycles[k]
           b == c[1] + c[2]
           m == b + c[3]
           e == m + c[4]
       IN IF d <= c[1] THEN [k |-> p.ini, low |-> kmin]
          ELSE IF d <= b THEN [k |-> p.ini + ((d - c[1]) * (p.mid - p.ini)) \div c[2], low |-> p.ini]
          ELSE IF d <= m THEN [k |-> p.mid, low |-> p.mid]
          ELSE IF d <= e THEN [k |-> p.mid + ((d - m) * (p.end - p.mid)) \div c[4], low |-> p.mid]
          ELSE KcIn(p, kmin, k + 1, d - e)
\* wind in m s-1, humidity in %
ClimCorr(u, rh, height) ==
  LET h == ClipF(height, 100, 10000)
      y == IF h <= 3000 THEN -((3 * NegLn(Quot(h, 3000))) \div 10) ELSE (3 * NegLn(Quot(3000, h))) \div 10
      f == Times(ExpNeg(500000 - y), 1648721, One)
  IN ((40 * (ClipF(u, 1, 6) - 2) - 4 * (ClipF(rh, 20, 80) - 45)) * f) \div 1000
Corr(k, cc) == IF k >= 450000 THEN k + cc ELSE k
Crop(p, kmin, cc, doy) == KcIn([p EXCEPT !.mid = Corr(@, cc), !.end = Corr(@, cc)], kmin, 1, doy - p.plant + 1)
Height(p, kmin, cc, doy) ==
  IF ~p.scale THEN p.height
  ELSE LET c == Crop(p, kmin, cc, doy) IN Times(p.height, Quot(MaxF(c.k, c.low), Corr(p.mid, cc)), One)

KcMax(kcb, cc) == MaxF(1200000 + cc, kcb + 50000)
VegFrac(p, kcb, cc, kmin, h) ==
  IF p.sparse > 0 THEN p.sparse
  ELSE LET x == MinF(One, Quot(MaxF(kcb - kmin, 10000), KcMax(kcb, cc) - kmin)) IN ExpNeg(Times(NegLn(x), 2000 + h, 2000))
Exposed(p, kcb, cc, kmin, h) == ClipF(One - VegFrac(p, kcb, cc, kmin, h), 10000, One)
Kr(de, tew, rew) == IF de <= rew THEN One ELSE Quot(MaxF(tew - de, 0), tew - rew)
Ke(kr, kcb, kmax, few) == MinF(Times(kr, kmax - kcb, One), Times(kmax, few, One))
Ks(dr, taw, raw) == ClipF(Quot(MaxF(taw - dr, 0), taw - raw), 0, One)

\* ---- stores ----
Percolation(dep, rain, et) == MaxF(0, rain - et - dep)
Depleted(dep, total, rain, et, perc) == MinF(total, MaxF(0, dep - rain + et + perc))
\* part of the demand the store could not cover
Short(dep, total, rain, et, perc) == MaxF(0, dep - rain + et + perc - total)
=============================================================================
