----------------------------- MODULE TraceSnow ------------------------------
(* Recorded packs: masses 1e-4 kg m-2, lengths 1e-5 m, temperatures 1e-3 K,  *)
(* densities 0.01 kg m-3.  Part "mass": C10, part "state": C11.              *)
EXTENDS Snowpack, TraceBase
VARIABLES l, su, ice0, liq0
TInit == l = 1 /\ su = [case |-> ""] /\ ice0 = <<>> /\ liq0 = <<>>
Ev == Trace[l]
Cells == 1..su.cells
Part == IOEnv.PART
Col(a, c) == [k \in DOMAIN a |-> a[k][c]]
Sum(a, c) == SumSeq(Col(a, c))
T0 == 273150
IceDens == 91700

TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ ice0' = Ev.ice /\ liq0' = Ev.liq
          /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])

\* ---- mass balance -----------------------------------------------------------
M0(c) == Sum(ice0, c) + Sum(liq0, c)
M1(c) == Sum(Ev.ice, c) + Sum(Ev.liq, c)
\* a pack thinner than 1e-6 m may be removed
Slack(c) == IF M1(c) = 0 THEN 12 ELSE 0
NL(a) == Len(a)
MassClauses == [
  completed |-> Ev.error = "",
  mass_balance |-> \A c \in Cells : LedgerOK(M0(c), M1(c), Ev.snowf[c], Ev.rain[c], Ev.runoff[c], Ev.subl[c],
                                             4 + NL(Ev.ice) + Slack(c)),
  swe_is_mass_of_layers |-> \A c \in Cells : Near(Ev.swe[c], M1(c), 2 + NL(Ev.ice) + Slack(c)),
  no_negative_flux |-> \A c \in Cells : Ev.runoff[c] >= 0 /\ N0(Ev.melt[c]) >= 0 /\ N0(Ev.refr[c]) >= 0
                                        /\ Ev.swe[c] >= 0,
  bare_ground_passes_rain |-> \A c \in Cells : M0(c) = 0 /\ N0(Ev.snowf[c]) = 0 /\ Ev.subl[c] >= 0 =>
                                  Near(Ev.runoff[c], N0(Ev.rain[c]), 1) /\ M1(c) = 0,
  melt_within_pack |-> \A c \in Cells : N0(Ev.melt[c]) <= Sum(ice0, c) + N0(Ev.snowf[c]) + N0(Ev.refr[c]) + 6,
  sublimation_within_pack |-> \A c \in Cells : Ev.subl[c] <= Sum(ice0, c) + N0(Ev.snowf[c]) + N0(Ev.refr[c]) + 6,
  \* ice and liquid water are exchanged only by melt and refreezing
  ice_balance |-> \A c \in Cells : Near(Sum(Ev.ice, c) - Sum(ice0, c),
                     N0(Ev.snowf[c]) - Ev.subl[c] - N0(Ev.melt[c]) + N0(Ev.refr[c]), 5 + NL(Ev.ice) + Slack(c)),
  runoff_within_supply |-> \A c \in Cells : Ev.runoff[c] <= Sum(liq0, c) + N0(Ev.rain[c]) + N0(Ev.melt[c]) + 8]

\* ---- state consistency --------------------------------------------------------
Layers == DOMAIN Ev.ice
Multi == su.model = "multilayer"
\* a tie in the layering decision may fall either way after rounding
LayeringOK(c) == \E d \in {Ev.depth[c] + x : x \in -2..2} :
   LET th == Layering(d, su.mint)
   IN /\ Ev.nl[c] = Len(th)
      /\ \A k \in Layers : Near(Ev.th[k][c], IF k <= Len(th) THEN th[k] ELSE 0, 3)
Thin(c) == Ev.depth[c] <= 1
Occupied(c) == {k \in Layers : Ev.th[k][c] > 0}
StateClauses == [
  completed |-> Ev.error = "",
  numbers |-> \A c \in Cells : /\ Finite(Ev.swe[c]) /\ Finite(Ev.depth[c]) /\ Finite(Ev.runoff[c]) /\ Finite(Ev.subl[c])
                               /\ \A k \in Layers : Finite(Ev.ice[k][c]) /\ Finite(Ev.liq[k][c]) /\ Finite(Ev.th[k][c]),
  non_negative |-> \A c \in Cells : \A k \in Layers : Ev.th[k][c] >= 0 /\ Ev.ice[k][c] >= 0 /\ Ev.liq[k][c] >= 0,
  depth_is_sum |-> \A c \in Cells : Near(Ev.depth[c], Sum(Ev.th, c), 4),
  swe_is_sum |-> \A c \in Cells : Near(Ev.swe[c], M1(c), 2 + NL(Ev.ice) + Slack(c)),
  layering |-> Multi => \A c \in Cells : Thin(c) \/ LayeringOK(c),
  \* the layers in use hold the mass, the others are empty
  used_layers |-> Multi => \A c \in Cells : Thin(c) \/ \A k \in Layers :
       IF k <= Ev.nl[c] THEN Ev.ice[k][c] > 0 ELSE Ev.ice[k][c] = 0 /\ Ev.liq[k][c] = 0 /\ Ev.th[k][c] = 0,
  layer_count |-> ~Multi => \A c \in Cells : /\ Ev.nl[c] >= Cardinality(Occupied(c))
                                             /\ Ev.nl[c] <= Cardinality({k \in Layers : Ev.th[k][c] > 0 \/ Ev.ice[k][c] + Ev.liq[k][c] <= 1
                                                                                        \/ Ev.ice[k][c] > 0}),
  mass_needs_thickness |-> \A c \in Cells : \A k \in Layers : Ev.ice[k][c] > 20 => Ev.th[k][c] > 0 \/ Ev.ice[k][c] < 100,
  density |-> \A c \in Cells : \A k \in Layers : Ev.th[k][c] > 50 =>
       LET d == ((Ev.ice[k][c] + Ev.liq[k][c]) * 10) \div Ev.th[k][c]    \* kg m-3
       IN d >= 20 /\ d <= 1010,
  density_variable |-> \A c \in Cells : \A k \in Layers : Ev.th[k][c] > 500 =>
       LET d == ((Ev.ice[k][c] + Ev.liq[k][c]) * 10) \div Ev.th[k][c]
       IN IsNum(Ev.dens[k][c]) /\ Near(Ev.dens[k][c] \div 100, d, 2 + d \div 200),
  temperature |-> Multi => \A c \in Cells : \A k \in 1..Ev.nl[c] : IsNum(Ev.temp[k][c]) /\ Ev.temp[k][c] <= T0 + 1,
  holding_capacity |-> \A c \in Cells : \A k \in Layers :
       IF su.lwcmethod = "mass_fraction"
       THEN Multi \/ k <= 2 => Ev.liq[k][c] <= (Ev.ice[k][c] \div 10000) * su.lwcmax + su.lwcmax + 4
       ELSE Multi => \* WATER * th * (1 - ice / (ICE * th)) * max
            LET pore == Ev.th[k][c] * 100 - ((Ev.ice[k][c] \div 917) * 1000 + ((Ev.ice[k][c] % 917) * 1000) \div 917) \div 10
                \* 1e-7 m of pore space; * 1000 kg m-3 = 1e-4 kg m-2
            IN Ev.liq[k][c] <= MaxF(0, (pore \div 10000) * su.lwcmax + ((pore % 10000) * su.lwcmax) \div 10000) + 60,
  no_snow_no_cover |-> \A c \in Cells : Ev.bare[c] /\ M1(c) = 0 => Ev.nl[c] = 0 /\ Ev.sca[c] = 0 /\ Sum(Ev.th, c) = 0,
  cover_fraction |-> \A c \in Cells : /\ Ev.sca[c] >= 0 /\ Ev.sca[c] <= 10000
                                      /\ su.scf = 0 /\ Ev.depth[c] > 0 => Ev.sca[c] = 10000
                                      /\ su.scf > 0 /\ Ev.depth[c] > 3 * su.scf => Ev.sca[c] > 9900]

TStep == /\ Ev.ev = "step" /\ UNCHANGED su /\ ice0' = Ev.ice /\ liq0' = Ev.liq
         /\ Report(l, Ev.case, IF Part = "state" THEN StateClauses ELSE MassClauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, ice0, liq0>>
=============================================================================
