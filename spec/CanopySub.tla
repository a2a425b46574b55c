----------------------------- MODULE CanopySub ------------------------------
(* Snow that sublimates from the canopy, and longwave radiation below it.    *)
(* Masses 1e-4 kg m-2, temperatures 1e-3 K, humidity 1e-3 %, wind 1e-4 m s-1,*)
(* shortwave 1e-4 W m-2, longwave 1e-2 W m-2, vapour pressure 1e-2 Pa,       *)
(* albedo 1e-6, particle radius 1e-6 m, exposure coefficient 1e-3.           *)
EXTENDS Sun
\* radiation (1e-4) absorbed per projected area
Absorbable(alb, sw) == MulDiv(sw, One - alb, One)
Reynolds(r, u) == ClipF(MulDiv(u, 2 * r, 130), 700, 10000)                        \* 1e-3
Nusselt(r, u) == 17900 + (606 * ISqrt(Reynolds(r, u) * 100000)) \div 1000         \* 1e-4
\* warming of the particle per unit of vapour flux, 1e-4
Omega(t, nu) == MulDiv(MulDiv(6142715, 10000, t) - 10000, 1000, MulDiv(t, nu, 10000) \div 40)
VapDens(es, t) == MulDiv(10 * es, 216675, t)                                      \* 1e-8 kg m-3
Diffusivity(t) == MulDiv(206000, Pow(MulDiv(t, One, 273000), 17500), One)         \* 1e-10 m2 s-1
\* share of a particle that is lost, 1e-9 s-1
LossRate(r, t, hum, u, es, alb, sw) ==
  LET nu == Nusselt(r, u)
      om == Omega(t, nu)
      dryness == MulDiv(100000 - hum, (r * 62832) \div 1000, 1000)
      warming == MulDiv(MulDiv(Absorbable(alb, sw) \div 100, om, 10000), (((r * r) \div 100) * 3142) \div 1000, 1000)
      dif == MulDiv(MulDiv(VapDens(es, t), Diffusivity(t), One), nu, 10000)
      den == MulDiv(28350, om, 10000) + ((2000000000 \div MaxF(dif, 100)) * 5)
      k == ((1301705000 \div (r * r)) * 2000) \div r
      n == dryness + warming
  IN IF dif < 100 \/ den > 10000000 THEN 0
     ELSE IF den > 1000000 THEN MulDiv(n, k \div 10, den \div 10) ELSE MulDiv(n, k, den)
\* part of the load lost in a step if all of it was exposed alike, 1e-6
LossShare(rate, ex, step) == MulDiv(rate * ex, 6 * step, 100000)
\* what the load loses: the less there is relative to the capacity, the more exposed it is
Exposed(cap, load) == IF load <= 0 \/ cap <= 0 THEN 0
  ELSE LET x == Frac(load, cap)
       IN IF x <= One THEN MulDiv(cap, Pow(MaxF(x, 1), 6000), One)
          ELSE MulDiv(load, PowNeg(x, 4000), One)
Sublimated(cap, load, share) == ClipF(IF share < One THEN MulDiv(Exposed(cap, load), share, One)
                                        ELSE MulDiv(Exposed(cap, load), MinF(share, 20000000) \div 20, 50000), 0, load)
\* ---- longwave ---------------------------------------------------------------
LongBelow(frac, lw, t) == IF IsNaN(lw) \/ IsNaN(t) THEN NaNV
  ELSE MulDiv(lw, One - frac, One) + MulDiv(Black(t), frac, One)
=============================================================================
