------------------------------- MODULE Albedo -------------------------------
(* Snow albedo (1e-6) as a function of age, temperature and snowfall.        *)
EXTENDS Integers, Sequences, Fixed
One == 1000000
\* exp(-x), x and result in 1e-6: Taylor series for x <= 1, halving above
RECURSIVE ExpNeg(_)
ExpNeg(x) ==
  IF x <= 0 THEN One
  ELSE IF x > 14 * One THEN 0
  ELSE IF x > One \div 2 THEN LET h == ExpNeg(x \div 2) IN MulDiv(h, h, One)
  ELSE LET x2 == MulDiv(x, x, One)
           x3 == MulDiv(x2, x, One)
           x4 == MulDiv(x3, x, One)
           x5 == MulDiv(x4, x, One)
           x6 == MulDiv(x5, x, One)
       IN One - x + x2 \div 2 - x3 \div 6 + x4 \div 24 - x5 \div 120 + x6 \div 720
\* c: [min, max, cold, melting (time scales, hours), refresh (1e-4 kg m-2 h-1), method, step (minutes)]
Tau(c, melting) == IF melting THEN c.melting ELSE c.cold
\* a / b in 1e-6
Ratio(a, b) == (a \div b) * One + MulDiv(One, a % b, b)
Aged(c, a, melting) == LET tau == 60 * Tau(c, melting)
                       IN c.min + SMulDiv(a - c.min, ExpNeg(IF c.step \div tau >= 15 THEN 15 * One ELSE Ratio(c.step, tau)), One)
\* snowfall (1e-4 kg m-2 in this step) that refreshes completely
RefreshAmount(c) == (c.refresh * c.step) \div 60
Refreshed(c, a, sf) ==
  IF c.method = "binary" THEN IF sf >= RefreshAmount(c) THEN c.max ELSE a
  ELSE a + SMulDiv(c.max - a, IF sf >= RefreshAmount(c) THEN One ELSE Ratio(sf, RefreshAmount(c)), One)
Next1(c, a, melting, sf) == Refreshed(c, Aged(c, a, melting), sf)
=============================================================================
