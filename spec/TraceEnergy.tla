---------------------------- MODULE TraceEnergy -----------------------------
(* Recorded energy exchange at the surface.                                  *)
EXTENDS Energy, TraceBase
VARIABLES l, su, prev
TInit == l = 1 /\ su = [case |-> ""] /\ prev = [ev |-> ""]
Ev == Trace[l]
RECURSIVE SumL(_, _)
SumL(q, c) == IF q = <<>> THEN 0 ELSE (IF IsNaN(Head(q)[c]) THEN 0 ELSE Head(q)[c]) + SumL(Tail(q), c)
N0(x) == IF IsNaN(x) THEN 0 ELSE x
Fields(c) == {Ev.swin[c], Ev.swout[c], Ev.lwin[c], Ev.lwout[c], Ev.net[c], Ev.ts[c], Ev.ta[c], Ev.twb[c], Ev.H[c], Ev.LE[c], Ev.adv[c],
              Ev.G[c], Ev.E[c], Ev.lat[c], Ev.rho[c], Ev.ch[c], Ev.u[c], Ev.q[c], Ev.qs[c], Ev.av[c], Ev.alb[c]}
\* explicit coupling of the ground to the surface may oscillate when steps are very long
Tame(c) == Finite(Ev.ts[c]) /\ AbsF(Ev.ts[c] - T0) <= 120000
Whole == {c \in 1..su.cells : Tame(c) /\ \A x \in Fields(c) : Finite(x)}       \* cells with a complete balance
RadCells == {c \in 1..su.cells : Tame(c) /\ \A x \in {Ev.swin[c], Ev.swout[c], Ev.lwin[c], Ev.lwout[c], Ev.net[c], Ev.ts[c], Ev.alb[c]} : Finite(x)}
Mass0(c) == SumL(prev.ice, c) + SumL(prev.liq, c) + N0(Ev.snowf[c])      \* on the ground before melt and sublimation
Ice0(c) == SumL(prev.ice, c) + N0(Ev.snowf[c])
IceNow(c) == SumL(Ev.ice, c)
Snowy(c) == Ice0(c) > 5
Bare(c) == Mass0(c) = 0 /\ N0(Ev.snowf[c]) = 0
X(c) == Exchange(Ev.rho[c], Ev.ch[c], Ev.u[c])
Mags(c) == AbsF(Ev.net[c]) + AbsF(Ev.swin[c]) + AbsF(Ev.H[c]) + AbsF(Ev.LE[c]) + AbsF(Ev.adv[c]) + AbsF(Ev.G[c])
FTol(c) == 15 + (Mags(c) \div 1500)
R(c) == Ev.net[c] + Ev.H[c] + Ev.LE[c] + Ev.adv[c] - Ev.G[c]
NearT(a, b, tol) == AbsF(a - b) <= tol + (AbsF(a) \div 1000)
\* at the melting point (within rounding) both phases are possible
AtT0(c) == AbsF(Ev.ts[c] - T0) <= 1
Frozen(c, b) == b = (Snowy(c) \/ Ev.ts[c] < T0)
CHN(c) == LET z == IF Snowy(c) THEN su.zsnow ELSE su.zsoil                                     \* heights 1e-3 m, lengths 1e-6 m
              lw == Ln(MulDiv(su.zw, 1000000, z)) \div 1000
              lt == Ln(MulDiv(su.zt, 1000000, z \div 10)) \div 1000
          IN MulDiv(160000000, 1000, (lw * lt) \div 1000)
Ri(c, d) == Richardson(AbsF(d), Ev.ta[c], su.zw, su.zt, IF Ev.u[c] = 0 THEN 500 ELSE Ev.u[c])
CHs(c, d) == IF d > 0 THEN Stable(CHN(c), Ri(c, d)) ELSE Unstable(CHN(c), Ri(c, d), su.zw, IF Snowy(c) THEN su.zsnow ELSE su.zsoil)
SatOK(c, t) == NearT(Ev.qs[c], SatHum(t, Ev.p[c]), 15)
\* evaporation at the surface temperature, and linearised about t
EAt(c, t) == Moisture(X(c), Ev.av[c], Ev.q[c] - SatHum(t, Ev.p[c]))
ETan(c, t, b) == LET qs == SatHum(t, Ev.p[c])
                  d == SMulDiv(SatSlope(qs, Latent(Ev.ta[c], b), t) * (IF Ev.ts[c] < t THEN -1 ELSE 1), AbsF(Ev.ts[c] - t), 10000)
              IN Moisture(X(c), Ev.av[c], Ev.q[c] - qs - d)
ETol(c) == 300 + MulDiv(X(c), 40, 1000000) + (AbsF(Ev.E[c]) \div 300)
Between(x, a, b, tol) == x >= MinF(a, b) - tol /\ x <= MaxF(a, b) + tol

Common == [
  completed |-> Ev.error = "",
  bounded |-> su.dt > 10800 \/ \A c \in 1..su.cells : Tame(c),
  reflected |-> \A c \in RadCells : NearT(Ev.swout[c], MulDiv(Ev.swin[c], Ev.alb[c], 1000000), 3),
  emitted |-> \A c \in RadCells : NearT(Ev.lwout[c], Emitted(su.emis, Ev.ts[c]), 4),
  net_radiation |-> \A c \in RadCells : Near(Ev.net[c], Ev.swin[c] - Ev.swout[c] + Ev.lwin[c] - Ev.lwout[c], 3),
  sensible |-> \A c \in Whole : NearT(Ev.H[c], Sensible(X(c), Ev.ta[c], Ev.ts[c]), 8 + (ExchangeHeat(X(c)) \div 50000)),
  latent |-> \A c \in Whole : NearT(Ev.LE[c], LatentFlux(Ev.lat[c], Ev.E[c]), 5),
  latent_heat |-> Ev.first \/ \A c \in Whole : \E b \in BOOLEAN : /\ Frozen(c, b) \/ (AtT0(c) /\ ~Snowy(c)) \/ (~Snowy(c) /\ ~Bare(c))
                                                       /\ Near(Ev.lat[c], Latent(Ev.ta[c], b), 30)]
PrevOK(c) == Finite(prev.ts[c])
Ts0(c) == prev.ts[c]
Judged == IF Ev.first THEN {} ELSE {c \in Whole : PrevOK(c) /\ (Snowy(c) \/ Bare(c)) /\ Ev.ts[c] <= 315000 /\ Ts0(c) <= 315000}
Exchanged == [
  \* neutral exchange by the logarithmic profiles, less in stable and more in unstable air
  exchange |-> ~su.plain \/ \A c \in Judged :
      LET n == CHN(c) d == Ev.ta[c] - Ts0(c) IN
      IF ~su.stab THEN AbsF(Ev.ch[c] - n) <= 2000 + (n \div 500)
      ELSE Ri(c, d) > 250000 \/ (LET hi == CHs(c, d - 1) lo == CHs(c, d + 1)
                                IN Ev.ch[c] >= lo - 3000 - (lo \div 50) /\ Ev.ch[c] <= hi + 3000 + (hi \div 50))]
Adv(c, t) == Advected(Ev.ta[c], Ev.twb[c], t, N0(Ev.rain[c]), N0(Ev.snowf[c]), su.dt)
\* ---- multi-layer model ---------------------------------------------------
\* bare ground limits evaporation; conductance 1e-9 m s-1
Avail(c) == LET g == Ev.cond[c] \div 1000 IN MulDiv(1000000, g, g + (MulDiv(Ev.ch[c], Ev.u[c], 1000) \div 1000) + 1)
Froz0(c) == Snowy(c) \/ Ts0(c) < T0
\* the radiation emitted is not linear in the surface temperature
Lin(c) == LET d == Ev.ts[c] - Ts0(c)
          IN AbsF(Ev.lwout[c] - Emitted(su.emis, Ts0(c)) - SMulDiv(Black1(Ts0(c)) * (IF d < 0 THEN -1 ELSE 1), AbsF(d), 100000))
             \* where melt holds the surface at the melting point, the balance may turn out negative there
             + (IF Snowy(c) /\ AtT0(c) THEN AbsF(LatentFlux(Ev.lat[c], EAt(c, Ev.ts[c]) - ETan(c, Ts0(c), Froz0(c))))
                                            + AbsF(Adv(c, Ts0(c)) - Adv(c, Ev.ts[c])) ELSE 0)
Switch(c) == IF ~Snowy(c) /\ ((Ev.ts[c] < T0) # (Ts0(c) < T0) \/ AtT0(c) \/ AbsF(Ts0(c) - T0) <= 1) THEN AbsF(Ev.LE[c]) \div 7 ELSE 0
Allow(c) == FTol(c) + Lin(c) + Switch(c)
Multi == [
  conduction |-> \A c \in Whole : NearT(Ev.G[c], Conduct(Ev.k[c], Ev.d[c], Ev.ts[c], Ev.tl[c]), 10),
  moisture |-> \A c \in Judged : \E b \in {Froz0(c), Froz0(c) \/ AbsF(Ts0(c) - T0) <= 1} : Between(Ev.E[c], EAt(c, Ev.ts[c]), ETan(c, Ts0(c), b), ETol(c)),
  availability |-> \A c \in Judged : IF Snowy(c) \/ Ev.q[c] > SatHum(Ts0(c), Ev.p[c]) + 20 THEN Ev.av[c] = 1000000
                                     ELSE AbsF(Ev.av[c] - Avail(c)) <= 300 \/ (Ev.av[c] = 1000000 /\ Ev.q[c] >= SatHum(Ts0(c), Ev.p[c]) - 20),
  advected |-> \A c \in Judged : \E t \in (IF Snowy(c) /\ Ev.at0[c] THEN {T0} ELSE {Ts0(c), Ev.ts[c]}) : NearT(Ev.adv[c], Adv(c, t), 6),
  closes |-> \A c \in Judged : /\ R(c) >= -Allow(c)
                               /\ R(c) <= MeltFlux(N0(Ev.melt[c]), su.dt) + Allow(c),
  bare_closes |-> \A c \in Judged : Bare(c) => AbsF(R(c)) <= Allow(c),
  snow_not_above_melting |-> \A c \in Judged : Snowy(c) /\ Ev.melt[c] < Ice0(c) - 20 => Ev.ts[c] <= T0 + 1]
\* ---- cryospheric layers --------------------------------------------------
Slope(c) == MulDiv(Black1(Ev.ts[c]), su.emis, 1000000) + ExchangeHeat(X(c))
            + MulDiv(MulDiv(X(c), SatSlope(Ev.qs[c], Ev.lat[c], Ev.ts[c]), 1000000), Ev.lat[c] \div 1000, 10000)
            + MulDiv(N0(Ev.rain[c]), 4180, su.dt) + MulDiv(N0(Ev.snowf[c]), 2100, su.dt)
Frost(c) == Snowy(c) /\ Ev.ta[c] < T0 - 1
Melts(c) == Snowy(c) /\ Ev.ta[c] > T0 + 1
STol(c) == FTol(c) + (Slope(c) \div 9000)                 \* 0.011 K
CC(e, c) == SumL(e.cc, c)
Gone(c) == IF Ev.nl[c] < prev.nl[c] THEN CC(prev, c) ELSE 0
MTol(c) == 8 + MeltMass(FTol(c), su.dt)
\* balance with the surface at the melting point
R0(c) == Ev.swin[c] - Ev.swout[c] + Ev.lwin[c] - Emitted(su.emis, T0) + Sensible(X(c), Ev.ta[c], T0)
         + LatentFlux(Ev.lat[c], EAt(c, T0)) + Adv(c, T0) - Ev.G[c]
Cold(c) == MulDiv(MeltMass(MaxF(-R0(c), 0), su.dt), su.fac, 1000000)
Stored(c) == N0(Ev.refr[c]) + CC(Ev, c) - CC(prev, c)
Snow12(q, c) == N0(q[1][c]) + N0(q[2][c])
\* the cold content that the two snow layers can hold
Full(c) == Snow12(Ev.liq, c) <= 1 /\ Snow12(Ev.cc, c) >= MulDiv(MaxF(Snow12(Ev.ice, c) - MaxF(-Ev.subl[c], 0), 0), su.hold, 1000000) - 5   \* before hoar formed on it
LegacyFloor(c) == \E k \in Judged : Frost(k) /\ Ev.ts[c] <= Ev.ta[k] - 2700
Cryo == [
  heat_flux |-> \A c \in Judged : Snowy(c) => Ev.G[c] = su.flux,
  saturated_at_surface_temperature |-> \A c \in Judged : Snowy(c) => SatOK(c, Ev.ts[c]),
  moisture |-> \A c \in Judged : Snowy(c) => AbsF(Ev.E[c] - EAt(c, Ev.ts[c])) <= ETol(c) /\ Ev.av[c] = 1000000,
  advected |-> \A c \in Judged : Snowy(c) => NearT(Ev.adv[c], Adv(c, Ev.ts[c]), 6),
  surface_temperature |-> \A c \in Judged : /\ Snowy(c) => Ev.ts[c] <= T0
                                            /\ Melts(c) => Ev.ts[c] = T0
                                            /\ Bare(c) => Ev.ts[c] = Ev.ta[c],
  frost_closes |-> \A c \in Judged : Frost(c) =>
      IF Ev.ts[c] = T0 THEN R(c) >= -STol(c)
      ELSE IF su.meth = "secant" THEN AbsF(R(c)) <= STol(c)
      ELSE (R(c) >= -STol(c) \/ LegacyFloor(c)) /\ R(c) <= STol(c) + (Slope(c) \div 390),
  melt_energy |-> \A c \in Judged : Melts(c) =>
      LET e == MeltMass(MaxF(R(c), 0), su.dt) used == Ev.melt[c] + CC(prev, c) - CC(Ev, c) IN
      IF Ev.melt[c] < Ice0(c) - 20 THEN used <= e + MTol(c) + Gone(c) /\ used >= e - MTol(c)
      ELSE Ev.melt[c] <= e + MTol(c),
  melt_needs_warmth |-> \A c \in Judged : Ev.ta[c] < T0 - 1 => Ev.melt[c] <= 1,
  no_refreezing_in_warmth |-> \A c \in Judged : Ev.ta[c] > T0 + 1 => Ev.refr[c] <= 1 /\ CC(Ev, c) <= CC(prev, c) + 1,
  cold_stored |-> \A c \in Judged : Frost(c) => Stored(c) <= Cold(c) + MTol(c),
  cold_not_lost |-> \A c \in Judged : Frost(c) /\ N0(Ev.rain[c]) = 0 /\ Ev.nl[c] >= prev.nl[c] /\ Stored(c) < Cold(c) - MTol(c) => Full(c)]
Subl == [
  sublimation |-> \A c \in Judged : Snowy(c) /\ IceNow(c) > 10000 /\ Ice0(c) - Ev.melt[c] > 10000 =>
      NearT(Ev.subl[c], SMulDiv(-Ev.E[c], su.dt, 1000000), 5)]
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ prev' = Ev /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su /\ prev' = Ev
         /\ Report(l, Ev.case, Common)
         /\ IF Ev.first THEN TRUE
            ELSE /\ Report(l, Ev.case, Exchanged) /\ Report(l, Ev.case, Subl)
                 /\ IF su.model = "multilayer" THEN Report(l, Ev.case, Multi) ELSE Report(l, Ev.case, Cryo)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, prev>>
=============================================================================
