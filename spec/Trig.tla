-------------------------------- MODULE Trig ---------------------------------
(* Sine, cosine and tangent of angles in 1e-3 degrees; results 1e-6.         *)
EXTENDS Integers, Fixed
Rad(x) == MulDiv(x, 174533, 10000)                     \* 1e-6 rad, 0 <= x <= 90000
SinR(r) == LET r2 == MulDiv(r, r, 1000000) r3 == MulDiv(r2, r, 1000000) r5 == MulDiv(r3, r2, 1000000) r7 == MulDiv(r5, r2, 1000000)
           IN r - (r3 \div 6) + (r5 \div 120) - (r7 \div 5040)
CosR(r) == LET r2 == MulDiv(r, r, 1000000) r4 == MulDiv(r2, r2, 1000000) r6 == MulDiv(r4, r2, 1000000)
           IN 1000000 - (r2 \div 2) + (r4 \div 24) - (r6 \div 720)
RECURSIVE SinD(_)
SinD(x) == LET y == x % 360000 IN
  IF y >= 180000 THEN -SinD(y - 180000) ELSE IF y > 90000 THEN SinD(180000 - y)
  ELSE IF y <= 45000 THEN SinR(Rad(y)) ELSE CosR(Rad(90000 - y))
CosD(x) == SinD(x + 90000)
\* tangent (1e-6) up to 60 degrees and a bit
TanD(x) == LET s == SinD(x) c == CosD(x) IN (1000000 * (s \div c)) + MulDiv(1000000, s % c, c)
=============================================================================
