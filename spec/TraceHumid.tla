------------------------------ MODULE TraceHumid ------------------------------
(* Derived meteorological variables of the implementation against the laws   *)
(* of moist air.                                                             *)
EXTENDS Humid, Fixed, TraceBase
VARIABLES l
TInit == l = 1
Ev == Trace[l]
Tol(x) == 3 + (AbsF(x) \div 12000)
\* a result is missing exactly where what it is computed from is
Gap(ins, x) == IsNaN(x) <=> \E y \in ins : IsNaN(y)
All(P(_)) == \A k \in 1..Ev.n : P(k)
T(k) == Ev.t[k]
Known(k) == ~IsNaN(Ev.t[k]) /\ ~IsNaN(Ev.rh[k])
TK(k) == ~IsNaN(Ev.t[k])
OK(k, ins, x, b) == Gap(ins, x) /\ (IsNum(x) => b)
Chk(P(_)) == Ev.error = "" => \A k \in 1..Ev.n : P(k)
VapOf(k, sat) == MulDiv(sat, Ev.rh[k], 1000000)
Sat(k) == Gap({T(k)}, Ev.es[k]) /\ (TK(k) => Near(Ev.es[k], SatVap(T(k)), Tol(Ev.es[k])))
Vap(k) == Gap({T(k), Ev.rh[k]}, Ev.e[k]) /\ (Known(k) => Near(Ev.e[k], VapOf(k, SatVap(T(k))), Tol(Ev.e[k])))
Pres(k) == Near(Ev.p[k], Pressure(Ev.z[k]), 3)
Spec_(k) == Gap({Ev.e[k]}, Ev.q[k]) /\ (Known(k) => Near(Ev.q[k], SpecHum(Ev.e[k], Ev.p[k]), 12 + (Ev.q[k] \div 20000)))
CpL(k) == Gap({Ev.q[k]}, Ev.cp[k]) /\ (Known(k) => Near(Ev.cp[k], CpMoist(Ev.q[k]), 3))
LatL(k) == Gap({T(k)}, Ev.lat[k]) /\ (TK(k) => Near(Ev.lat[k], LatVap(T(k)), 4))
PsyL(k) == Gap({T(k), Ev.rh[k]}, Ev.psy[k]) /\ (Known(k) => Near(Ev.psy[k], Psych(Ev.p[k], Ev.cp[k], Ev.lat[k]), 14))
\* the wet-bulb temperature is where the psychrometric balance vanishes, to 0.012 K
Wet(k) == Gap({T(k), Ev.rh[k]}, Ev.twb[k]) /\ (Known(k) =>
   LET t == T(k) w == Ev.twb[k] tol == Tol(Ev.e[k]) IN
   /\ WetBalance(t, w - 12, Ev.e[k], Ev.psy[k]) <= tol /\ WetBalance(t, w + 12, Ev.e[k], Ev.psy[k]) >= -tol
   /\ w <= t + 12 /\ (Ev.rh[k] = 1000000 => w >= t - 12))
Dew(k) == Gap({T(k), Ev.rh[k]}, Ev.td[k]) /\ (Known(k) =>
   LET d == Ev.td[k] v == VapOf(k, OverWater(T(k))) IN
   /\ Near(OverWater(d), v, Tol(v) + (v \div 8000)) /\ d <= T(k) + 1 /\ d <= Ev.twb[k] + 13)
Water(k) == Gap({Ev.e[k]}, Ev.pw[k]) /\ (Known(k) => Near(Ev.pw[k], PrecWater(Ev.e[k], T(k)), 6 + (Ev.pw[k] \div 20000)))
Rho(k) == Gap({T(k)}, Ev.rho[k]) /\ (TK(k) => Near(Ev.rho[k], AirDensity(Ev.p[k], T(k)), 3))
Sum0 == [completed |-> Ev.error = "", inputs_untouched |-> Ev.untouched]
AirClauses == [
  completed |-> Ev.error = "", inputs_untouched |-> Ev.untouched,
  pressure |-> Chk(Pres), saturation |-> Chk(Sat), vapor_pressure |-> Chk(Vap), specific_humidity |-> Chk(Spec_), heat_capacity |-> Chk(CpL),
  latent_heat |-> Chk(LatL), psychrometric_constant |-> Chk(PsyL), wet_bulb |-> Chk(Wet), dew_point |-> Chk(Dew),
  precipitable_water |-> Chk(Water), air_density |-> Chk(Rho)]
\* functions only: both forms of saturation, and the inverse functions
Phases(k) == TK(k) => Near(Ev.esw[k], OverWater(T(k)), Tol(Ev.esw[k])) /\ Near(Ev.esi[k], OverIce(T(k)), Tol(Ev.esi[k]))
Abs_(k) == Gap({Ev.e[k]}, Ev.ah[k]) /\ (Known(k) => Near(Ev.ah[k], AbsHum(Ev.e[k], T(k)), 3 + (Ev.ah[k] \div 20000)))
Back(k) == Gap({T(k), Ev.rh[k]}, Ev.rhb[k]) /\ (Known(k) => Near(Ev.rhb[k], Ev.rh[k], 2))
BackDew(k) == Gap({T(k), Ev.rh[k]}, Ev.rhd[k]) /\ (Known(k) => Near(Ev.rhd[k], Ev.rh[k], 2))
BackZ(k) == Near(Ev.zb[k], Ev.z[k], 1)
FnClauses == [over_water_and_ice |-> Chk(Phases), absolute_humidity |-> Chk(Abs_), humidity_inverse |-> Chk(Back), dew_point_inverse |-> Chk(BackDew),
              altitude_inverse |-> Chk(BackZ)]
\* fraction of precipitation that falls as snow, 1e-6
Frac(t) == IF Ev.width = 0 THEN IF t < Ev.thr THEN 1000000 ELSE 0
           ELSE LET x == (Ev.thr + (Ev.width \div 2)) - t IN IF x <= 0 THEN 0 ELSE IF x >= Ev.width THEN 1000000 ELSE MulDiv(1000000, x, Ev.width)
PhaseClauses == [
  snow_fraction |-> \A k \in 1..Len(Ev.t) : Near(Ev.frac[k], Frac(Ev.t[k]), 4),
  snow_fraction_bounds |-> \A k \in 1..Len(Ev.t) : Ev.frac[k] >= 0 /\ Ev.frac[k] <= 1000000]
W == 1..Len(Ev.k)
Comp(v, s) == -SMulDiv(s, v, 10000)
WindClauses == [
  wind_components |-> \A i \in W : Near(Ev.u[i], Comp(Ev.v[i], Sin15(Ev.k[i])), 3) /\ Near(Ev.w[i], Comp(Ev.v[i], Cos15(Ev.k[i])), 3),
  wind_speed_back |-> \A i \in W : Near(Ev.s[i], Ev.v[i] * 100, 2) /\ Near(Ev.s2[i], Ev.v[i] * 100, 2),
  wind_direction_back |-> \A i \in W : Ev.v[i] > 0 =>
     \A d \in {Ev.d[i], Ev.d2[i]} : d >= 0 /\ d <= 360000 /\ (Near(d, Ev.k[i] * 15000, 1) \/ (Ev.k[i] = 0 /\ d >= 359999)),
  wind_profile |-> \A i \in W : Near(Ev.lw[i], MulDiv(Ev.v[i] * 100, LogOf(Ev.hr[i]) \div 20, LogOf(Ev.rr[i]) \div 20), 6 + (Ev.lw[i] \div 5000))]
TAir == /\ Ev.ev = "air" /\ Report(l, Ev.case, AirClauses) /\ (Ev.own => Report(l, Ev.case, FnClauses))
TPhase == Ev.ev = "phase" /\ Report(l, Ev.case, PhaseClauses)
TWind == Ev.ev = "wind" /\ Report(l, Ev.case, WindClauses)
TNext == /\ l <= TraceLen /\ l' = l + 1 /\ (TAir \/ TPhase \/ TWind)
TSpec == TInit /\ [][TNext]_<<l>>
=============================================================================
