------------------------------- MODULE Config -------------------------------
(* What a configuration means.  Raw configurations carry only what the user  *)
(* wrote ("" or -1: not given); Accept decides whether it is usable and Norm *)
(* gives the effective settings.  Times in minutes, temperatures in mK,      *)
(* albedo time scales in 1/1000 h, decay factors in 1/1000 d-1, snowfall in  *)
(* 1/100 kg m-2 h-1.                                                         *)
EXTENDS Integers
Day == 1440
NotGiven == -1
Or(x, d) == IF x = NotGiven THEN d ELSE x
OrS(x, d) == IF x = "" THEN d ELSE x
Iff(b, x, y) == IF b THEN x ELSE y
\* ------------------------------------------------------------------- dates
EndOf(r) == IF r.dateonly /\ r.step < Day THEN r.end + Day - r.step ELSE r.end
DatesOK(r) == r.start <= EndOf(r) /\ ((EndOf(r) - r.start) % r.step) = 0
\* write_freq: minutes, or 0 for a calendar alias (month end, year end, ...)
WriteFreqOK(r) == r.step <= Day \/ (r.wf > 0 /\ (r.wf % r.step) = 0)
\* ----------------------------------------------------------------- modules
Snow(r) == LET s == OrS(r.snow, "multilayer") IN IF s = "layers" THEN "multilayer" ELSE s
Melt(r) == OrS(r.melt, "energy_balance")
MeltOK(r) == /\ Snow(r) = "multilayer" => Melt(r) = "energy_balance"
             /\ Melt(r) # "energy_balance" => r.ddf # NotGiven
             /\ Melt(r) = "enhanced_temperature_index" => r.af # NotGiven
GlacierOK(r) == r.glaciers => Snow(r) = "cryolayers"
\* -------------------------------------------- deprecated names and units
Both(old, new) == old # "" /\ new # ""
NamesOK(r) == ~Both(r.day_method, r.method) /\ ~Both(r.night_method, r.csf_night_method) /\ ~Both(r.wind_speed, r.wind)
Either(old, new, d) == IF old # "" THEN old ELSE OrS(new, d)
Thresh(r) == LET t == Or(r.thresh, 273650) IN IF t < 20000 /\ t > -20000 THEN t + 273150 ELSE t
\* the two old albedo methods are particular settings of the one there is now
Kneg(r) == Or(r.k_neg, 50)
Kpos(r) == Or(r.k_pos, 120)
Albedo(r) ==
  LET m == OrS(r.albedo, "snow_age") IN
  [method |-> "snow_age",
   cold |-> IF m = "usaco" THEN 24000000 \div Kneg(r) ELSE Or(r.cold, 480000),
   melting |-> IF m = "usaco" THEN 24000000 \div Kpos(r) ELSE Or(r.melting, 200000),
   temp |-> IF m = "usaco" THEN "air" ELSE IF m = "fsm" THEN "surface" ELSE OrS(r.det, "surface"),
   refresh |-> IF m = "usaco" THEN Or(r.sig, 50) ELSE Or(r.refresh, 50),
   how |-> IF m = "usaco" THEN "binary" ELSE IF m = "fsm" THEN "continuous" ELSE OrS(r.how, "binary")]
\* ---------------------------------------------------------------- together
Accept(r) == /\ DatesOK(r) /\ WriteFreqOK(r) /\ r.projected /\ MeltOK(r) /\ GlacierOK(r) /\ NamesOK(r)
Norm(r) ==
  [start |-> r.start, end |-> EndOf(r), step |-> r.step, snow |-> Snow(r), melt |-> Melt(r),
   ddf |-> r.ddf, af |-> r.af, glaciers |-> r.glaciers, thresh |-> Thresh(r), albedo |-> Albedo(r),
   method |-> Either(r.day_method, r.method, "clear_sky_fraction"),
   csf_night_method |-> Either(r.night_method, r.csf_night_method, "humidity"),
   wind |-> Either(r.wind_speed, r.wind, "idw"), wf |-> r.wf]
\* an effective configuration written out in full
Written(e, r) ==
  [r EXCEPT !.end = e.end, !.dateonly = FALSE, !.snow = e.snow, !.melt = e.melt, !.thresh = e.thresh, !.albedo = e.albedo.method,
            !.cold = e.albedo.cold, !.melting = e.albedo.melting, !.det = e.albedo.temp, !.refresh = e.albedo.refresh,
            !.how = e.albedo.how, !.day_method = "", !.method = e.method, !.night_method = "",
            !.csf_night_method = e.csf_night_method, !.wind_speed = "", !.wind = e.wind]
=============================================================================
