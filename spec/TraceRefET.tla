----------------------------- MODULE TraceRefET -----------------------------
(* Recorded runs with evapotranspiration: the demand of the atmosphere.      *)
EXTENDS RefET, TraceBase
VARIABLES l, su, store
TInit == l = 1 /\ su = [case |-> ""] /\ store = <<>>
Ev == Trace[l]
Cells == 1..su.cells
Kind(c) == su.kind[c]
Nums(s) == \A i \in 1..Len(s) : IsNum(s[i])
Albedo1(c) == IF Kind(c) = "sealed" THEN su.salb ELSE su.galb
Emis(c) == IF Kind(c) = "sealed" THEN su.semis ELSE su.gemis
Rn(c) == IF Kind(c) = "none" \/ ~Nums(<<Ev.sw[c], Ev.lw[c], Ev.t[c]>>) THEN NaNV ELSE NetRad(Albedo1(c), Emis(c), Ev.sw[c], Ev.lw[c], Ev.t[c])
Vpd(c) == Ev.sat[c] - Ev.vap[c]
D(c) == Slope(Ev.t[c])
Able(c) == Nums(<<Ev.rn[c], Ev.t[c], Ev.u[c], Ev.psy[c], Ev.sat[c], Ev.vap[c]>>)
Av(c) == Ev.rn[c] - Ev.g[c]
U2(c) == TwoMetres(Ev.u[c], su.zw)
Et0(c) == IF Able(c) THEN Reference(D(c), Av(c), Ev.psy[c], Ev.t[c], U2(c), Vpd(c), su.step) ELSE NaNV
\* (what each of the two terms contributes)
Both(c) == AbsF(SMulDiv(Radiative(D(c), Av(c)), 14688, 10000)) + AeroTerm(Ev.psy[c], Ev.t[c], U2(c), Vpd(c))
TolEt(c) == IF Able(c) THEN 5 + (su.step \div 60) * 4 + MulDiv(SMulDiv(Both(c), 100000, RefDen(D(c), Ev.psy[c], U2(c))), su.step, 600) \div 700 ELSE 0
Dry(c) == IsNaN(Ev.rain[c]) \/ Ev.rain[c] <= 0
Ga(c) == Conduct1(su.height[c], su.zw, su.zt, Ev.u[c])
Flux(c) == SealedFlux(D(c), Av(c), Ev.psy[c], Ev.t[c], Vpd(c), Ga(c))
Demand(c) == IF Able(c) THEN SealedDemand(Flux(c), su.step) ELSE 0
AeroFlux(c) == IF Able(c) THEN SealedFlux(D(c), 0, Ev.psy[c], Ev.t[c], Vpd(c), Ga(c)) + AbsF(Av(c)) ELSE 0
TolDemand(c) == 4 + (su.step \div 60) * 5 + SealedDemand(AeroFlux(c), su.step) \div 500
Clauses == [
  net_radiation |-> \A c \in Cells : Same(Ev.rn[c], Rn(c), 8),
  ground_heat |-> \A c \in Cells : Same(Ev.g[c], IF IsNaN(Ev.rn[c]) THEN NaNV ELSE GroundHeat(Ev.rn[c], Ev.up), 2),
  reference |-> \A c \in Cells : Same(Ev.et0[c], Et0(c), TolEt(c)),
  sealed_evaporation |-> \A c \in Cells : Kind(c) = "sealed" /\ ~Ev.snow[c] =>
     IF Dry(c) THEN LET d == Demand(c)
                        tol == TolDemand(c)
                    IN Ev.e[c] >= Sealed(d - tol, store[c]) - 2 /\ Ev.e[c] <= Sealed(d + tol, store[c]) + 2
     ELSE Ev.e[c] = 0,
  sealed_store |-> \A c \in Cells : Kind(c) = "sealed" /\ ~Ev.snow[c] /\ Dry(c) => Near(Ev.si[c], store[c] - Ev.e[c], 2),
  sealed_keeps |-> \A c \in Cells : Kind(c) = "sealed" /\ Ev.snow[c] => Ev.e[c] = 0 /\ Near(Ev.si[c], store[c], 1),
  daylight |-> ~Ev.up => \A c \in Cells : IsNum(Ev.sw[c]) => Ev.sw[c] = 0]
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
          /\ store' = IF Ev.error = "" THEN Ev.si ELSE <<>>
TStep == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ IF Ev.error # "" THEN UNCHANGED store /\ Report(l, Ev.case, [completed |-> FALSE])
            ELSE store' = Ev.si /\ Report(l, Ev.case, Clauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, store>>
=============================================================================
