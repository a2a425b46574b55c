------------------------------- MODULE Interp -------------------------------
(* Interpolation of station values to grid cells: elevation trend plus       *)
(* inverse-squared-distance mean of the residuals.                           *)
(* Positions 10 m, elevations 10 m (stations and cells), station values      *)
(* 1e-2, interpolated values 1e-3, lapse rates 1e-5 per metre.               *)
(* A station is [x, y, z, d]; a missing value is NaNV.                       *)
EXTENDS Integers, Sequences, FiniteSets, Fixed

Mega == 1000000
Avail(st) == {i \in DOMAIN st : IsNum(st[i].d)}
Low(S, f) == CHOOSE v \in {f[i] : i \in S} : \A j \in S : v <= f[j]
High(S, f) == CHOOSE v \in {f[i] : i \in S} : \A j \in S : v >= f[j]
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + Sum(S \ {i}, f)

\* ---- inverse-distance weights (1e-6) of the stations S at a position; a station at the very place takes it all ----
D2(s, x, y) == (s.x - x) * (s.x - x) + (s.y - y) * (s.y - y)
Weights(st, S, x, y) ==
  LET d == [i \in S |-> D2(st[i], x, y)]
      here == {i \in S : d[i] = 0}
      first == CHOOSE i \in here : \A j \in here : i <= j
      dm == Low(S, d)
      w == [i \in S |-> MulDiv(Mega, dm, d[i])]
      t == Sum(S, w)
  IN IF here # {} THEN [i \in S |-> IF i = first THEN Mega ELSE 0]
     ELSE [i \in S |-> MulDiv(Mega, w[i] \div 8, t \div 8)]
\* weighted mean of values v (any sign)
Mean(S, w, v) == LET b == Low(S, v) IN b + Sum(S, [i \in S |-> MulDiv(v[i] - b, w[i], Mega)])

\* ---- trend: rise of the field (1e-3) over dz (10 m) ----
Ratio3(a, b, k) == \* k * a / b, b >= 1
  LET s == IF (a < 0) # (k < 0) THEN -1 ELSE 1 IN s * ((AbsF(a) \div b) * AbsF(k) + MulDiv(AbsF(k), AbsF(a) % b, b))
RegressionRise(st, S, dz) ==
  LET n == Cardinality(S)
      z0 == Low(S, [i \in S |-> st[i].z])
      d0 == Low(S, [i \in S |-> st[i].d])
      z == [i \in S |-> st[i].z - z0]
      d == [i \in S |-> st[i].d - d0]
      sxx == n * Sum(S, [i \in S |-> z[i] * z[i]]) - Sum(S, z) * Sum(S, z)
      sxy == n * Sum(S, [i \in S |-> z[i] * d[i]]) - Sum(S, z) * Sum(S, d)
  IN IF sxx = 0 THEN 0 ELSE Ratio3(sxy, sxx, 10 * dz)   \* fewer than two elevations: no trend
\* fixed: lapse * 1e-5 per m over dz * 10 m, in 1e-3
FixedRise(lapse, dz) == IF lapse * dz < 0 THEN -((-(lapse * dz)) \div 10) ELSE (lapse * dz) \div 10
\* fractional: the lapse rate times the mean of the station values
FractionalRise(st, S, lapse, dz) ==
  LET n == Cardinality(S)
      q == lapse * dz
      t == Sum(S, [i \in S |-> st[i].d])
  IN Ratio3(t, n * 1000, q)
Rise(c, st, S, dz) == CASE c.method = "regression" -> RegressionRise(st, S, dz)
                        [] c.method = "fixed" -> FixedRise(c.lapse, dz)
                        [] OTHER -> FractionalRise(st, S, c.lapse, dz)
\* interpolated value before any limits
Plain(c, st, S, t) ==
  LET w == Weights(st, S, t.x, t.y) IN
  IF c.method = "adjustment_factor"
  THEN LET v == Mean(S, w, [i \in S |-> 10 * st[i].d])
           dz == 100 * t.z - Mean(S, w, [i \in S |-> 100 * st[i].z])    \* 0.1 m
           q == (c.lapse * dz) \div 10                                     \* 1e-5
           hi == 100000 + q  lo == 100000 - q
       IN IF hi <= 0 THEN -1 ELSE IF lo <= 0 THEN NaNV ELSE (hi \div lo) * v + MulDiv(v, hi % lo, lo)
  ELSE Mean(S, w, [i \in S |-> 10 * st[i].d + Rise(c, st, S, t.z - st[i].z)])
\* range of the available station values (1e-3)
RLow(st, S) == 10 * Low(S, [i \in S |-> st[i].d])
RHigh(st, S) == 10 * High(S, [i \in S |-> st[i].d])
Limit(c, st, S, v) == LET u == IF c.extrapolate THEN v ELSE ClipF(v, RLow(st, S), RHigh(st, S))
                      IN ClipF(u, c.lo, c.hi)
Field(c, st, t) == LET S == Avail(st) IN
  IF S = {} THEN IF c.param = "precip" THEN 0 ELSE NaNV
  ELSE Limit(c, st, S, Plain(c, st, S, t))
=============================================================================
