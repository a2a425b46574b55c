----------------------------- MODULE TraceClouds ----------------------------
(* Runs of the real code on stations with gaps.  Station values per step:    *)
(* cover (%, 1e-2), ratio of measured to clear-sky radiation (1e-4; not      *)
(* usable: NaN, usable but unknown: -2), hum: relative humidity at the       *)
(* reference level (1e-2 %), NaN if temperature or humidity is missing.      *)
EXTENDS Integers, Sequences, FiniteSets, Fixed, Clouds, Albedo, TraceBase
VARIABLES l, su, prev
Unknown == -2
TInit == l = 1 /\ su = [case |-> ""] /\ prev = <<>>
Ev == Trace[l]
Cells == 1..su.cells
Idx(s) == {i \in DOMAIN s : IsNum(s[i])}
\* humidity to cloud cover
FromHum(h) ==
  LET d == 10000 - h
      x == (((IF d < 0 THEN -d ELSE d) * 100000) \div (10000 - su.efold)) * 10
      e == ExpNeg(x) \div 100
  IN Clip01(IF d >= 0 THEN (su.sat * e) \div 10000 ELSE IF e < 2000 THEN 10000 ELSE (su.sat * 10000) \div e)
StationFactors(src) ==
  CASE src = "prescribed" -> {FactorOf(Clip01(Ev.cover[i])) : i \in Idx(Ev.cover)}
    [] src = "clear_sky_fraction" -> {MinF(Ev.ratio[i], 200000) : i \in Idx(Ev.ratio)}
    [] src = "humidity" -> {FactorOf(FromHum(MinF(Ev.hum[i], 20000))) : i \in Idx(Ev.hum)}
    [] OTHER -> {}
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : y >= x
Tol(src) == IF src = "humidity" THEN 25 ELSE 8
Expected ==
  LET src == Source(su.conf, Ev.sun, Cardinality(Idx(Ev.cover)), Cardinality(Idx(Ev.ratio)), Cardinality(Idx(Ev.hum)))
      S == StationFactors(src) IN
  \A k \in Cells :
    LET f == Ev.factor[k] IN
    IF src = "constant" THEN IF prev = <<>> \/ IsNaN(prev[k]) THEN Near(f, Default, 1) ELSE Near(f, prev[k], 1)
    ELSE IF S = {} THEN IsNaN(f)
    ELSE IF Unknown \in S THEN IsNum(f)
    ELSE IsNum(f) /\ f >= Clip01(MinS(S)) - Tol(src) /\ f <= Clip01(MaxS(S)) + Tol(src)
\* fraction that belongs to a factor
FractionOK(f, n) == IF IsNaN(f) THEN IsNaN(n)
                    ELSE IsNum(n) /\ n >= 0 /\ n <= 10000 /\ (IF f <= Overcast THEN n >= 9998 ELSE Near(FactorOf(n), f, 8))
InUnit(x) == IsNaN(x) \/ (x >= 0 /\ x <= 10000)
Product(a, b) == MulDiv(MinF(a, 20000000), b, 10000)
Clauses == [
  source |-> su.kind = "stations" => Expected,
  given_kept |-> su.kind = "given" => \A k \in Cells : Same(Ev.factor[k], Ev.given[k], 1),
  factor_range |-> \A k \in Cells : InUnit(Ev.factor[k]) /\ (su.kind = "stations" => InUnit(Ev.fraction[k])),
  fraction_of_factor |-> su.kind = "stations" => \A k \in Cells : FractionOK(Ev.factor[k], Ev.fraction[k]),
  sun_by_clock |-> (SurelyDay(su.season, Ev.clock) => Ev.sun) /\ (SurelyNight(su.season, Ev.clock) => ~Ev.sun),
  dark_without_sun |-> ~Ev.sun => \A k \in Cells : Ev.clear[k] = 0 /\ (IsNaN(Ev.sw[k]) \/ Ev.sw[k] = 0),
  clear_known_with_weather |-> Ev.sun => \A k \in Cells : IsNaN(Ev.clear[k]) = (IsNaN(Ev.temp[k]) \/ IsNaN(Ev.rh[k])),
  parts_not_negative |-> \A k \in Cells : IsNaN(Ev.clear[k]) \/ (Ev.dir[k] >= 0 /\ Ev.diff[k] >= 0 /\ Ev.clear[k] <= 15000000),
  clear_is_sum |-> \A k \in Cells : IsNaN(Ev.clear[k]) \/ Near(Ev.dir[k] + Ev.diff[k], Ev.clear[k], 3),
  actual_is_product |-> \A k \in Cells : IF IsNaN(Ev.clear[k]) \/ IsNaN(Ev.factor[k]) THEN IsNaN(Ev.sw[k])
                                          ELSE Near(Ev.sw[k], Product(Ev.clear[k], Ev.factor[k]), 3 + (Ev.clear[k] \div 10000)),
  longwave_range |-> \A k \in Cells : IsNaN(Ev.lw[k]) \/
     LET b == BlackBody(Ev.temp[k]) IN Ev.lw[k] >= (b * 4) \div 10 /\ Ev.lw[k] <= b + 30,
  longwave_mix |-> \A k \in Cells : IsNaN(Ev.temp[k]) \/ IsNaN(Ev.eclear[k]) \/ IsNaN(Ev.fraction[k]) \/
     (IsNaN(Ev.lw[k]) /\ ~Ev.known[k]) \/   \* the slopes' temperature is unknown after a gap
     (IsNum(Ev.lw[k]) /\ LET b == BlackBody(Ev.temp[k]) IN
        Near(Ev.lw[k], (b * (SkyEmissivity(Ev.eclear[k], su.emis * 10, Ev.fraction[k]) \div 10)) \div 1000, 30 + (b \div 500))),
  overcast_longwave |-> \A k \in Cells : IsNaN(Ev.lw[k]) \/ IsNaN(Ev.fraction[k]) \/ Ev.fraction[k] < 10000 \/
     LET b == BlackBody(Ev.temp[k]) IN Near(Ev.lw[k], (b * su.emis) \div 1000, 30)]
TSetup == Ev.ev = "setup" /\ su' = Ev /\ prev' = <<>> /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ IF Ev.error # "" THEN Report(l, Ev.case, [completed |-> FALSE]) /\ UNCHANGED prev
            ELSE Report(l, Ev.case, Clauses) /\ prev' = Ev.factor
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, prev>>
=============================================================================
