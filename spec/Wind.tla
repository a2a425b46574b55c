--------------------------------- MODULE Wind ---------------------------------
(* Wind over terrain (Liston and Elder 2006): the interpolated wind is       *)
(* strengthened on slopes that face it and on ridges, weakened in the lee    *)
(* and in valleys, and diverted around slopes.                               *)
(* Angles 1e-3 degrees, factors and scaled quantities 1e-6, slopes 1e-6 rad. *)
EXTENDS Integers, Sequences, Trig
WindSlope(slope, aspect, dir) == SMulDiv(CosD(dir - aspect), Rad(slope), 1000000)
\* scaled to [-0.5, 0.5] over the range [lo, hi] found in the region
ScaledTo(x, lo, hi) == IF hi = lo THEN 0 ELSE MulDiv(1000000, x - lo, hi - lo) - 500000
\* weights sw, cw in 1e-4
Weight(sw, cw, scaled, curv) == 1000000 + SMulDiv(scaled, sw, 10000) + SMulDiv(curv, cw, 10000)
\* diversion (1e-3 degrees): half the scaled slope times the sine of twice the angle, from radians
Divert(scaled, aspect, dir) == (SMulDiv(scaled, AbsF(SinD(2 * (dir - aspect))), 1000000) * (IF SinD(2 * (dir - aspect)) < 0 THEN -1 ELSE 1) * 573) \div 20000
Turn(dir, by) == (dir + by) % 360000
=============================================================================
