------------------------------- MODULE Settle -------------------------------
(* How deep the snow lies: settling of layers by age, load and temperature   *)
(* (Anderson 1976, or towards a greatest density), the density of what falls *)
(* and depth lost with what melts and sublimates.  Mass 1e-4 kg m-2,         *)
(* thickness 1e-6 m, density 1e-3 kg m-3, temperature 1e-3 K, rates 1e-6.    *)
EXTENDS Sun
Dens(m, th) == IF th < 1000000 THEN MulDiv(m, 100000, th) ELSE MulDiv(m, 10000, th \div 10)
Thick(m, rho) == IF rho < 1000000 THEN MulDiv(m, 100000, rho) ELSE MulDiv(m, 10000, rho \div 10)
\* ---- new snow: colder than 15 below freezing it is no lighter -----------------------------
FreshDens(twb) == IF IsNaN(twb) THEN 100000
                  ELSE LET x == MaxF(0, twb - 258150) r == IF x <= 20000 THEN ISqrt(x * 100000) ELSE 10 * ISqrt(x * 1000)
                       IN 50000 + MulDiv(MulDiv(x, r, 10000), 17, 10)
\* ---- settling per hour (1e-8): under the load, and by the decay of crystals
ByLoad(load, rho, cold) ==      \* cold: 1e-3 K below freezing (negative if warmer)
  LET e == Exp6(-((80 * cold) + (21 * rho)))
  IN IF e <= 1000000 THEN MulDiv(10 * load, e, 1000000) ELSE MulDiv(10 * load, e \div 10, 100000)
ByAge(rho, cold, wet) == MulDiv(Exp6(-(40 * cold)) * (IF wet THEN 2 ELSE 1), IF rho > 150000 THEN ExpNeg(46 * (rho - 150000)) ELSE 1000000, 1000000)
\* part by which the density grows in a step (1e-6)
Growth(load, rho, ta, wet, step) ==
  IF IsNaN(ta) THEN 0 ELSE MulDiv(ByLoad(load, rho, 273150 - ta) + ByAge(rho, 273150 - ta, wet), step, 6000)
Shrunk(th, f) == IF f < 1000000 THEN MulDiv(th, 500000, 500000 + (f \div 2)) ELSE MulDiv(th, 50000, 50000 + (f \div 20))
\* towards a greatest density
Towards(rho, max, step, scale) == IF rho >= max THEN rho ELSE max - MulDiv(max - rho, ExpNeg(Frac(step, 60 * scale)), 1000000)
\* layers are records [ice, liq, th, wet, cold]; top first
RECURSIVE Anderson(_, _, _, _)
Anderson(q, above, ta, step) ==
  IF q = <<>> THEN <<>>
  ELSE LET y == Head(q) m == y.ice + y.liq
           f == IF y.th <= 0 THEN 0 ELSE Growth(above + (m \div 2), Dens(m, y.th), ta, y.wet, step)
       IN <<[y EXCEPT !.th = IF y.th <= 0 THEN y.th ELSE Shrunk(y.th, f)]>> \o Anderson(Tail(q), above + m, ta, step)
Empirical(q, maxcold, maxwarm, step, scale) ==
  [k \in 1..Len(q) |-> LET y == q[k] m == y.ice + y.liq r == Dens(m, y.th) x == IF y.cold THEN maxcold ELSE maxwarm
                       IN IF y.th <= 0 \/ r >= x THEN y ELSE [y EXCEPT !.th = Thick(m, Towards(r, x, step, scale))]]
\* ---- mass that comes and goes -----------------------------------------------------------------
Snowed(q, m, rho) == [q EXCEPT ![1] = [@ EXCEPT !.ice = @ + m, !.th = @ + Thick(m, rho)]]
Less(y, m) == IF m >= y.ice THEN [y EXCEPT !.ice = 0, !.th = 0]
              ELSE [y EXCEPT !.ice = @ - m, !.th = IF @ < 1000000 THEN MulDiv(@, 1000000 - Frac(m, y.ice), 1000000)
                                                                  ELSE MulDiv(@, (1000000 - Frac(m, y.ice)) \div 10, 100000)]
\* from the top down
RECURSIVE Taken(_, _)
Taken(q, m) == IF q = <<>> \/ m <= 0 THEN q
               ELSE <<Less(Head(q), m)>> \o Taken(Tail(q), m - MinF(m, Head(q).ice))
RECURSIVE Deep(_)
Deep(q) == IF q = <<>> THEN 0 ELSE Head(q).th + Deep(Tail(q))
RECURSIVE IceOf(_)
IceOf(q) == IF q = <<>> THEN 0 ELSE Head(q).ice + IceOf(Tail(q))
\* firn becomes ice in ten years
FirnDens(rho, ice, step) == rho + (MulDiv(ice - 500000, step, 52596) \div 100)
=============================================================================
