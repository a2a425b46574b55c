---------------------------- MODULE TracePrecip -----------------------------
EXTENDS Precip, TraceBase
VARIABLES l, su
TInit == l = 1 /\ su = [case |-> ""]
Ev == Trace[l]
Wet == su.method = "wet_bulb_temp"
Ts == IF Wet THEN Ev.wet ELSE Ev.temp
\* a wet-bulb temperature within rounding of where the phase changes class
Edge(t) == \/ AbsF(2 * t - 2 * su.thr - su.range) <= 4 \/ AbsF(2 * t - 2 * su.thr + su.range) <= 4
Amb == Wet /\ \E i \in DOMAIN Ts : Edge(Ts[i])
Cells == DOMAIN Ev.temp
TolS(i) == 6 + Ev.pin[i] \div (IF Wet THEN IF su.range = 0 THEN 10000 ELSE MaxF(1, su.range \div 3) ELSE 20000)
Tol(i) == Times(TolS(i), MaxF(1000, su.srf[i]), 1000) + 3
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TGrid == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ Report(l, Ev.case, [
              completed |-> Ev.error = "",
              non_negative |-> \A i \in Cells : Ev.snow[i] >= 0 /\ Ev.rain[i] >= 0,
              adds_up |-> \A i \in Cells : Near(Ev.snow[i] + Ev.rain[i], Ev.prec[i], 3),
              wet_bulb_bounds |-> \A i \in Cells : Ev.dew[i] - 200 <= Ev.wet[i] /\ Ev.wet[i] <= Ev.temp[i] + 50,
              snow_part |-> Amb \/ \A i \in Cells : Near(Ev.snow[i], SnowOf(su, Ts, su.dem, Ev.pin, su.srf, i), Tol(i)),
              rain_part |-> Amb \/ \A i \in Cells : Near(Ev.rain[i], Rain0(su, Ts, su.dem, Ev.pin, i), Tol(i))])
StTol(e) == 12 + e \div 400
TSta == /\ Ev.ev = "station" /\ UNCHANGED su
        /\ LET exp == CorrectAll(su, su.corr, Ev.raw, Ev.tp, Ev.t, Ev.w, Ev.wg)
               edge == (IsNum(Ev.tp) /\ Edge(Ev.tp) /\ Wet)
           IN Report(l, Ev.case, [
              completed |-> Ev.error = "",
              missing_stays_missing |-> IsNaN(Ev.raw) => IsNaN(Ev.got),
              corrected_amount |-> edge \/ IsNaN(Ev.raw) \/ (IsNum(Ev.got) /\ Near(Ev.got, exp, StTol(exp))),
              rain_unchanged |-> edge \/ IsNaN(Ev.raw) \/ IsNaN(Ev.tp) \/ ~AllRain(su, Ev.tp) \/ (\E i \in DOMAIN su.corr : su.corr[i].m = "koch")
                                 \/ Near(Ev.got, Ev.raw, 1),
              used_by_the_model |-> IsNaN(Ev.raw) \/ Near(Ev.cell, Ev.got, 2)])
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TGrid \/ TSta)
TSpec == TInit /\ [][TNext]_<<l, su>>
=============================================================================
