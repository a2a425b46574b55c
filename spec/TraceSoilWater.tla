-------------------------- MODULE TraceSoilWater ----------------------------
(* Recorded evapotranspiration and soil water of cells of all kinds.         *)
EXTENDS SoilWater, TraceBase
VARIABLES l, su, prev
TInit == l = 1 /\ su = [case |-> ""] /\ prev = [de |-> <<>>]
Ev == Trace[l]
Cells == 1..su.cells
Par(c) == su.params[su.cls[c]]
Kind(c) == Par(c).kind
Soil(c) == Kind(c) \in {"dual", "single"}
Tx(c) == su.soil[c]
TEW(c) == TotalEvaporable(Tx(c), su.ze)
TAW(c) == TotalAvailable(Tx(c), Par(c).depth)
RAW(c) == ReadilyAvailable(Tx(c), Par(c).depth, Par(c).p)
Free(c) == ~Ev.snow[c]
N0(x) == IF IsNaN(x) THEN 0 ELSE x
Rain(c) == N0(Ev.rain[c])
E0(c) == N0(Ev.et0[c])
CC(c) == ClimCorr(su.u, su.rh, Par(c).height)
Kcb(c) == Ev.kcb[c]
Few(c) == Exposed(Par(c), Kcb(c), CC(c), su.kmin, Ev.height[c])
SpecE(c) == Times(E0(c), Ke(Kr(prev.de[c], TEW(c), Readily[Tx(c)]), Kcb(c), KcMax(Kcb(c), CC(c)), Few(c)), One)
SpecKs(c) == Ks(prev.dr[c], TAW(c), RAW(c))
TolE(c) == 5 + E0(c) \div 15000
Ef(c) == Times(Ev.e[c], One, Few(c))
D2(c) == Kind(c) = "dual"
Wet(c) == IsNum(Ev.rain[c]) /\ Ev.rain[c] > 0
Sky == INSTANCE Sun
\* sparse vegetation: less than the full crop by the ground it shades at noon
Noon == Sky!CosD(AbsF(su.lat - Ev.decl))
Shaded(fc) == IF Noon <= 0 THEN 0 ELSE Sky!Frac(fc, Noon)
SparseFactor(fc, h) == IF Noon <= 0 THEN 0 ELSE
  MinF(MinF(One, 2 * fc), IF Shaded(fc) >= One THEN One ELSE Sky!Exp6(SMulDiv(Sky!Ln6(MaxF(Shaded(fc), 1)), 1000, 1000 + h)))
Adj(c) == LET p == Par(c) IN
  IF p.sparse = 0 THEN p ELSE [p EXCEPT !.mid = su.kmin + SMulDiv(@ - su.kmin, SparseFactor(p.sparse, p.height), One)]
\* (the curve jumps where the climate correction sets in)
AtCorrection(c) == Par(c).sparse > 0 /\ Near(Adj(c).mid, 450000, 30)
Curve == [
  crop_coefficient |-> \A c \in Cells : Kind(c) \in {"dual", "single", "water"} /\ ~AtCorrection(c) =>
      Near(IF D2(c) THEN Kcb(c) ELSE Ev.kc[c], Crop(Adj(c), su.kmin, CC(c), Ev.doy).k, IF Par(c).sparse > 0 THEN 60 ELSE 25),
  plant_height |-> \A c \in Cells : D2(c) /\ ~AtCorrection(c) => Near(Ev.height[c], Height(Adj(c), su.kmin, CC(c), Ev.doy), 3),
  reference_not_negative |-> \A c \in Cells : IsNum(Ev.et0[c]) => Ev.et0[c] >= 0]
Fluxes == [
  evaporation |-> \A c \in Cells : D2(c) /\ Free(c) => Near(Ev.e[c], SpecE(c), TolE(c) + E0(c) \div 5000),
  transpiration |-> \A c \in Cells : D2(c) /\ Free(c) => Near(Ev.t[c], Times(Times(E0(c), Kcb(c), One), SpecKs(c), One), TolE(c)),
  single_coefficient |-> \A c \in Cells : Kind(c) = "single" /\ Free(c) => Near(Ev.et[c], Times(Times(E0(c), Ev.kc[c], One), SpecKs(c), One), TolE(c)),
  water_body |-> \A c \in Cells : Kind(c) = "water" => Near(Ev.et[c], Times(E0(c), Ev.kc[c], One), TolE(c)),
  sum_of_parts |-> \A c \in Cells : Kind(c) \in {"dual", "sealed"} => Near(Ev.et[c], Ev.e[c] + Ev.t[c], 2),
  not_negative |-> \A c \in Cells : Kind(c) # "none" => Ev.et[c] >= 0 /\ (Kind(c) \in {"dual", "sealed"} => Ev.e[c] >= 0 /\ Ev.t[c] >= 0),
  none_under_snow |-> \A c \in Cells : (Soil(c) \/ Kind(c) = "sealed") /\ ~Free(c) => Ev.et[c] = 0]
Stores == [
  root_zone |-> \A c \in Cells : Soil(c) => Near(Ev.dr[c], Depleted(prev.dr[c], TAW(c), Rain(c), Ev.et[c], Ev.dp[c]), 4),
  root_zone_percolation |-> \A c \in Cells : Soil(c) => Near(Ev.dp[c], Percolation(prev.dr[c], Rain(c), Ev.et[c]), 4),
  evaporation_layer |-> \A c \in Cells : D2(c) =>
      IF Free(c) THEN Near(Ev.de[c], Depleted(prev.de[c], TEW(c), Rain(c), Ef(c), Percolation(prev.de[c], Rain(c), 0)), 6 + One \div Few(c) + Ef(c) \div 2000)
      ELSE Near(Ev.de[c], prev.de[c], 1),
  evaporation_layer_percolation |-> \A c \in Cells : D2(c) /\ Free(c) => Near(Ev.dpe[c], Percolation(prev.de[c], Rain(c), 0), 4),
  bounded |-> \A c \in Cells : /\ Soil(c) => Ev.dr[c] >= 0 /\ Ev.dr[c] <= TAW(c) + 4
                               /\ D2(c) => Ev.de[c] >= 0 /\ Ev.de[c] <= TEW(c) + 2]
Sealed == [
  sealed_store |-> \A c \in Cells : Kind(c) = "sealed" =>
      IF ~Free(c) THEN Near(Ev.si[c], prev.si[c], 1) /\ Ev.dp[c] = 0
      ELSE IF Wet(c) THEN /\ Near(Ev.si[c], MinF(Par(c).maxint, prev.si[c] + Rain(c)), 3) /\ Ev.e[c] = 0
                          /\ Near(Ev.dp[c], MaxF(0, prev.si[c] + Rain(c) - Par(c).maxint), 3)
      ELSE Near(Ev.si[c], prev.si[c] - Ev.e[c], 3) /\ Ev.dp[c] = 0,
  sealed_bounded |-> \A c \in Cells : Kind(c) = "sealed" => Ev.si[c] >= 0 /\ Ev.si[c] <= Par(c).maxint + 2]
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ prev' = Ev
          /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
          /\ Ev.error = "" => Report(l, Ev.case, [starts_full |-> \A c \in 1..Ev.cells :
                 Ev.params[Ev.cls[c]].kind \in {"dual", "single"} => Ev.de[c] = 0 /\ Ev.dr[c] = 0])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ IF Ev.error # "" THEN UNCHANGED prev /\ Report(l, Ev.case, [completed |-> FALSE])
            ELSE /\ prev' = Ev /\ Report(l, Ev.case, Curve) /\ Report(l, Ev.case, Fluxes)
                 /\ Report(l, Ev.case, Stores) /\ Report(l, Ev.case, Sealed)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, prev>>
=============================================================================
