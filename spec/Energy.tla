------------------------------- MODULE Energy -------------------------------
(* Exchange of energy at the surface and within snow and soil.               *)
(* Fluxes 1e-2 W m-2 towards the surface (conduction: into the ground),      *)
(* temperatures 1e-3 K, masses 1e-4 kg m-2, energies J m-2.                  *)
EXTENDS Integers, Sequences, Fixed, Humid
T0 == 273150
Lfus == 334000            \* J kg-1
Lvap == 2501000
\* black body radiation sigma T^4
Sq(t) == MulDiv(t, t, 100000)                         \* 0.1 K2
Black(t) == MulDiv(MulDiv(Sq(t), Sq(t), 1000000), 56704, 1000000)
\* 4 sigma T^3, 1e-4 W m-2 K-1
Black1(t) == MulDiv(MulDiv(Sq(t), t, 1000000), 226815, 1000000)
Emitted(emis, t) == MulDiv(Black(t), emis, 1000000)
\* mass of air exchanged, 1e-9 kg m-2 s-1: rho 1e-5 kg m-3, ch 1e-9, u 1e-3 m s-1
Exchange(rho, ch, u) == MulDiv(MulDiv(ch, rho, 100000), u, 1000)
\* heat exchanged per K, 1e-4 W m-2 K-1 (specific heat 1004.685 J kg-1 K-1)
ExchangeHeat(x) == MulDiv(x, 10047, 1000000)
Sensible(x, ta, ts) == SMulDiv(ExchangeHeat(x) * (IF ta < ts THEN -1 ELSE 1), AbsF(ta - ts), 100000)
\* latent heat (J kg-1) at air temperature ta over (frozen) or liquid water
Latent(ta, frozen) == Lvap - SMulDiv(2361 * (IF ta < T0 THEN -1 ELSE 1), AbsF(ta - T0), 1000) + (IF frozen THEN Lfus ELSE 0)
\* moisture flux, 1e-10 kg m-2 s-1: x, availability 1e-6, difference of specific humidities 1e-7
Moisture(x, av, dq) == SMulDiv(MulDiv(x, av, 1000000) * (IF dq < 0 THEN -1 ELSE 1), AbsF(dq), 1000000)
LatentFlux(lat, e) == SMulDiv(e, lat \div 100, 1000000)
\* change of saturation humidity with temperature, 1e-8 K-1: qs 1e-7, lat J kg-1
SatSlope(qs, lat, t) == MulDiv(qs, MulDiv(MulDiv(lat, 1000, 46152), 1000000, MinF(Sq(t), 1040000)) \div 10, 10000)
Advected(ta, twb, ts, rain, snow, dt) ==
  LET f(d, m, ch) == SMulDiv(MulDiv(AbsF(d), MinF(m, 900000), 1000) * (IF d < 0 THEN -1 ELSE 1), ch, dt)   \* 1e-4 kg K * J/(kg K)
  IN (f(ta - ts, rain, 4180) + f(twb - ts, snow, 2100)) \div 100
\* conduction between the surface and the middle of its layer: k 1e-6 W m-1 K-1, d 1e-5 m
Conduct(k, d, ts, tl) == LET g == MulDiv(2 * k, 1000, d) IN SMulDiv(g * (IF ts < tl THEN -1 ELSE 1), AbsF(ts - tl), 100000)
\* melting m in dt seconds, as a flux
MeltFlux(m, dt) == MulDiv(m, Lfus \div 100, dt)
\* mass melted by flux f in dt
MeltMass(f, dt) == SMulDiv(f, dt, Lfus \div 100)
\* conductance between the middles of two layers, 1e-4 W m-2 K-1 (k 1e-6 W m-1 K-1, d 1e-5 m)
Resist(d, k) == MulDiv(10 * d, 1000000, k)                 \* 1e-6 m2 K W-1
Conductance(d1, k1, d2, k2) == 2000000000 \div ((Resist(d1, k1) + Resist(d2, k2)) \div 10)
\* flux (1e-3 W m-2) through conductance g from temperature a to b (1e-4 K)
Flow(g, a, b) == SMulDiv(g * (IF a < b THEN -1 ELSE 1), AbsF(a - b), 100000)
\* heat (J m-2) stored in capacity cap (J m-2 K-1) by the temperature difference t (1e-4 K)
Heat(cap, t) == SMulDiv(cap * (IF t < 0 THEN -1 ELSE 1), AbsF(t), 10000)
\* ---- atmospheric stability ------------------------------------------------
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, MinF(n, 46340))
\* bulk Richardson number (its magnitude, 1e-3): heights 1e-3 m, u 1e-3 m s-1
Richardson(dt, ta, zw, zt, u) ==
  LET a == MulDiv(MulDiv(dt, 9807, 1000), 1000000, ta)                \* g dT / T, 1e-6
      b == MulDiv(a, (zw * zw) \div zt, 1000)
  IN b \div MaxF((u * u) \div 1000, 1)
\* coefficient n adjusted for stable / unstable air (adjustment parameter 5)
Stable(n, ri) == LET r == ISqrt((1000 + (5 * ri)) * 1000)
                     q == 1000 + MulDiv(15 * ri, r, 1000)
                 IN IF q < 1000000 THEN MulDiv(n, 1000, q) ELSE n \div (q \div 1000)
Unstable(n, ri, zw, z0) ==
  LET l == Ln(MulDiv(zw, 1000000, z0)) \div 1000                       \* 1e-3
      c == MulDiv(12 * ISqrt(MulDiv(zw, 1000000, z0) * 1000), 1000, (l * l) \div 1000)      \* 1e-3
      f == MulDiv(15 * ri, 1000, 1000 + MulDiv(c, ISqrt(ri * 1000), 1000))       \* 1e-3
  IN n + MulDiv(n, f, 1000)
=============================================================================
