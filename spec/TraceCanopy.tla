---------------------------- MODULE TraceCanopy -----------------------------
(* Recorded runs with canopy: cell pairs of a forest cell and an open cell    *)
(* with the same terrain and weather.                                        *)
EXTENDS Canopy, TraceBase
VARIABLES l, su, load, hist
Su == INSTANCE CanopySub
TInit == l = 1 /\ su = [case |-> ""] /\ load = <<>> /\ hist = <<>>
Ev == Trace[l]
P == 1..su.pairs
PerDay == MaxF(1440 \div su.step, 1)
NumsOf(s) == SelectSeq(s, IsNum)
Mean(s) == IF s = <<>> THEN NaNV ELSE SumSeq([i \in 1..Len(s) |-> s[i] - Melting0]) \div Len(s) + Melting0
\* temperatures of the last 24 hours including this step
Hist(c) == LET h == Append(hist[c], Ev.top.temp[c]) IN IF Len(h) > PerDay THEN Tail(h) ELSE h
Par(c) == su.params[su.cls[c]]
Cap(c) == Capacity(su.coef, Ev.lai[c])
Ic(c) == Intercepted(Cap(c), load[c], Ev.open.snowf[c])
TolI(c) == 6 + Cap(c) \div 60000
SnowIn(c) == Ev.open.snowf[c]
Frac(c) == CanopyFraction(Ev.lai[c])
Rest(c) == load[c] + Ev.icpt[c] - Ev.subl[c]
Pot(c) == MeltPotential(su.ddf, Ev.f.temp[c], su.step)
Whole(c) == load[c] + Ev.icpt[c]
Weather(c) == <<Ev.f.temp[c], Ev.f.hum[c], Ev.f.wind[c], Ev.sat[c], Ev.alb[c], Ev.top.sw[c]>>
Share(c) == IF \E i \in 1..6 : IsNaN(Weather(c)[i]) THEN 0
            ELSE Su!LossShare(Su!LossRate(su.radius, Ev.f.temp[c], Ev.f.hum[c], Ev.f.wind[c], Ev.sat[c], Ev.alb[c], Ev.top.sw[c]), su.exposure, su.step)
Subl(c, d, sh) == Su!Sublimated(Cap(c), Whole(c) + d, sh)
SublOK(c) == LET sh == Share(c)
                 x == Subl(c, 0, sh)
             IN Near(Ev.subl[c], x, 4 + x \div 250 + Subl(c, 2, sh) - x)
MassClauses == [
  sublimation |-> \A c \in P : SublOK(c),
  leaf_area |-> \A c \in P : Near(Ev.lai[c], LaiEff(Par(c), Ev.doy), 3),
  interception |-> \A c \in P : Near(Ev.icpt[c], Ic(c), TolI(c)),
  balance |-> \A c \in P : Near(Ev.load[c], load[c] + Ev.icpt[c] - Ev.subl[c] - Ev.melt[c], 3),
  never_negative |-> \A c \in P : Ev.load[c] >= 0 /\ Ev.icpt[c] >= 0 /\ Ev.subl[c] >= 0 /\ Ev.melt[c] >= 0,
  capacity |-> \A c \in P : Ev.load[c] <= MaxF(Cap(c), load[c]) + 2,
  sublimation_bounded |-> \A c \in P : Ev.subl[c] <= load[c] + Ev.icpt[c] + 2,
  no_sublimation_without_weather |-> \A c \in P : IsNaN(Ev.f.temp[c]) => Ev.subl[c] = 0,
  no_sublimation_saturated_dark |-> \A c \in P :
      Ev.f.hum[c] >= 100000 /\ Ev.top.sw[c] = 0 => Ev.subl[c] <= 1,
  melt_unload |-> \A c \in P : Near(Ev.melt[c], MeltUnload(Pot(c), Rest(c)), 4 + Pot(c) \div 20000 + (su.ddf * su.step) \div 1440),
  ground_snowfall |-> \A c \in P : IF IsNaN(SnowIn(c)) THEN TRUE ELSE
      Near(Ev.f.snowf[c], SnowIn(c) - Ev.icpt[c] + Ev.melt[c], 3),
  rain_unchanged |-> \A c \in P : Same(Ev.f.rain[c], Ev.open.rain[c], 2),
  ground_precip |-> \A c \in P : Same(Ev.f.precip[c], IF IsNaN(Ev.f.snowf[c]) \/ IsNaN(Ev.f.rain[c]) THEN NaNV
                                                       ELSE Ev.f.snowf[c] + Ev.f.rain[c], 3),
  snowfall_not_negative |-> \A c \in P : IsNum(Ev.f.snowf[c]) => Ev.f.snowf[c] >= -2]
WeatherClauses == [
  above_is_unmodified |-> \A c \in P : /\ Same(Ev.top.temp[c], Ev.open.temp[c], 1) /\ Same(Ev.top.hum[c], Ev.open.hum[c], 1)
                                       /\ Same(Ev.top.wind[c], Ev.open.wind[c], 1) /\ Same(Ev.top.sw[c], Ev.open.sw[c], 2 + AbsF(Ev.open.sw[c]) \div 200000),
  temperature_below |-> \A c \in P : Same(Ev.f.temp[c], InsideTemp(Frac(c), Ev.top.temp[c], Mean(NumsOf(Hist(c))), su.rc), 6),
  longwave_below |-> \A c \in P : Same(Ev.f.lw[c], Su!LongBelow(Frac(c), Ev.top.lw[c], Ev.f.temp[c]), 12),
  humidity_below |-> \A c \in P : Same(Ev.f.hum[c], InsideHum(Frac(c), Ev.top.hum[c]), 8),
  wind_below |-> \A c \in P : Same(Ev.f.wind[c], Attenuated(Ev.top.wind[c], (4 * su.flow) \div 10, Ev.lai[c]), 2),
  radiation_below |-> \A c \in P : Same(Ev.f.sw[c], Attenuated(Ev.top.sw[c], su.ext, Ev.lai[c]), 10 + Ev.top.sw[c] \div 50000)]
OpenClauses == [
  open_weather |-> \A c \in P : /\ Same(Ev.open.temp[c], Ev.open.itemp[c], 1) /\ Same(Ev.open.hum[c], Ev.open.ihum[c], 1)
                                /\ Same(Ev.open.wind[c], Ev.open.iwind[c], 1) /\ Same(Ev.open.precip[c], Ev.open.iprecip[c], 1),
  open_as_without_canopy |-> Ev.opensame,
  open_no_load |-> Ev.openload]
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
          /\ load' = [c \in 1..Ev.pairs |-> 0] /\ hist' = [c \in 1..Ev.pairs |-> <<>>]
TStep == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ IF Ev.error # "" THEN UNCHANGED <<load, hist>> /\ Report(l, Ev.case, [completed |-> FALSE])
            ELSE /\ load' = Ev.load /\ hist' = [c \in P |-> Hist(c)]
                 /\ Report(l, Ev.case, MassClauses) /\ Report(l, Ev.case, WeatherClauses) /\ Report(l, Ev.case, OpenClauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, load, hist>>
=============================================================================
