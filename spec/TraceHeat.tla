----------------------------- MODULE TraceHeat ------------------------------
(* Recorded conduction of heat through snow and soil (multi-layer model).    *)
EXTENDS Energy, TraceBase
VARIABLES l, su, prev
TInit == l = 1 /\ su = [case |-> ""] /\ prev = [ev |-> ""]
Ev == Trace[l]
N0(x) == IF IsNaN(x) THEN 0 ELSE x
RECURSIVE SumL(_, _)
SumL(q, c) == IF q = <<>> THEN 0 ELSE N0(Head(q)[c]) + SumL(Tail(q), c)
NS == Len(Ev.gst)
All(c) == {Ev.net[c], Ev.H[c], Ev.LE[c], Ev.adv[c], Ev.G[c], Ev.gflux[c]} \cup {Ev.gst[k][c] : k \in 1..NS} \cup {Ev.gdt[k][c] : k \in 1..NS}
Cells == {c \in 1..su.cells : AbsF(Ev.ts[c] - T0) <= 120000 /\ AbsF(Ev.gst[1][c]) <= 1200000 /\ \A x \in All(c) : Finite(x)}
Covered(c) == SumL(prev.ice, c) + SumL(prev.liq, c) + N0(Ev.snowf[c]) > 0
Free(c) == ~Covered(c)
\* ---- soil ------------------------------------------------------------------
K(k, c) == LET n == MinF(k + 1, NS) IN Conductance(Ev.gd[k][c], Ev.gk[k][c], Ev.gd[n][c], Ev.gk[n][c])
\* flux (1e-3 W m-2) down from layer k to the next; below the last one, the temperature stays what it was
Down(k, c) == IF k = 0 THEN Ev.gflux[c]
              ELSE IF k < NS THEN Flow(K(k, c), Ev.gst[k][c], Ev.gst[k + 1][c])
              ELSE Flow(K(k, c), Ev.gdt[k][c] \div 10, 0)
Gain(k, c) == LET d == AbsF(Ev.gdt[k][c]) s == IF Ev.gdt[k][c] < 0 THEN -1 ELSE 1        \* J m-2
              IN IF d < 2000000 THEN SMulDiv(Ev.gcap[k][c] * s, d, 100000) ELSE SMulDiv(Ev.gcap[k][c] * s, d \div 10, 10000)
Sup(f) == SMulDiv(f, su.dt, 1000)
SoilTol(k, c) == 60 + (Ev.gcap[k][c] \div 100000) + (su.dt \div 100) + ((su.dt * ((K(k, c) \div 10000) + 1)) \div 5000)
                 + ((AbsF(Sup(Down(k - 1, c))) + AbsF(Sup(Down(k, c)))) \div 3000)
SoilOK(c) == \A k \in 1..NS : AbsF(Gain(k, c) - Sup(Down(k - 1, c) - Down(k, c))) <= SoilTol(k, c)
\* ---- snow ------------------------------------------------------------------
Stock(e, c) == LET n == e.nl[c] IN SumSeq([k \in 1..n |-> Heat(N0(e.cap[k][c]), N0(e.st[k][c]))])
Coldest(e, c) == LET n == e.nl[c] IN IF n = 0 THEN 0 ELSE -N0(e.st[CHOOSE k \in 1..n : \A j \in 1..n : N0(e.st[j][c]) >= N0(e.st[k][c])][c])
R(c) == Ev.net[c] + Ev.H[c] + Ev.LE[c] + Ev.adv[c] - Ev.G[c]
Joules(f) == SMulDiv(f, su.dt, 100)
LfM(m) == MulDiv(m, 33400, 1000)                                       \* J m-2, of mass 1e-4 kg m-2
\* heat that moves with the mass that comes and goes, at most the coldness of the snow or the air
Moved(c) == LET m == N0(Ev.melt[c]) + AbsF(N0(Ev.subl[c])) + N0(Ev.snowf[c]) + N0(Ev.refr[c])
                t == MaxF(MaxF(Coldest(prev, c), Coldest(Ev, c)), MaxF(0, (T0 - Ev.ta[c]) * 10))
                \* within the step, conduction may cool a layer further before its mass goes
                w == MulDiv(AbsF(Joules(Ev.G[c])) + AbsF(Sup(Ev.gflux[c])), 10000, MaxF(MinF(N0(prev.cap[1][c]), N0(Ev.cap[1][c])), 1000))
            IN MulDiv(MulDiv(m, 2100, 10000) + 1, MinF(t + w, 2000000) + 1, 10000)
\* a surface held at the melting point melts with what its balance leaves over
Surplus(c) == IF Ev.at0[c] THEN MaxF(R(c), 0) ELSE 0
Supplied(c) == Joules(Surplus(c) + Ev.G[c]) - Sup(Ev.gflux[c])
Used(c) == LfM(N0(Ev.melt[c])) - LfM(N0(Ev.refr[c])) + Stock(Ev, c) - Stock(prev, c)
SnowTol(c) == 150 + (su.dt \div 25) + Moved(c) + (AbsF(Joules(Surplus(c))) \div 500) + (AbsF(Joules(Ev.G[c])) \div 500) + (SumL(Ev.cap, c) \div 5000)
             + (AbsF(Supplied(c)) \div 500)
Lasting(c) == Covered(c) /\ prev.nl[c] > 0 /\ Ev.nl[c] > 0 /\ SumL(Ev.ice, c) > 2000 /\ N0(Ev.melt[c]) < SumL(prev.ice, c) + N0(Ev.snowf[c]) - 20
Quiet(c) == prev.nl[c] = 1 /\ Ev.nl[c] = 1 /\ N0(Ev.snowf[c]) = 0 /\ N0(Ev.rain[c]) = 0 /\ N0(Ev.melt[c]) = 0 /\ N0(Ev.refr[c]) = 0
            /\ AbsF(N0(Ev.subl[c])) * 500 <= SumL(prev.ice, c) /\ Ev.th[1][c] > 200 /\ N0(Ev.st[1][c]) < -10
Clauses == [
  completed |-> Ev.error = "",
  ground_takes_surface_flux |-> Ev.first \/ \A c \in Cells : Free(c) => AbsF(Ev.gflux[c] - (10 * Ev.G[c])) <= 8,
  soil_conserves |-> \A c \in Cells : SoilOK(c),
  snow_conserves |-> Ev.first \/ \A c \in Cells : Lasting(c) => AbsF(Supplied(c) - Used(c)) <= SnowTol(c),
  snow_to_ground |-> Ev.first \/ \A c \in Cells : Quiet(c) =>
      LET g == Conductance(Ev.th[1][c], Ev.sk[1][c], Ev.gd[1][c], Ev.gk[1][c])
          told == Ev.gst[1][c] - (Ev.gdt[1][c] \div 10)
          f == Flow(g, Ev.st[1][c], told)
      IN AbsF(Ev.gflux[c] - f) <= 15 + (AbsF(f) \div 100) + (g \div 2000),
  snow_below_melting |-> \A c \in Cells : \A k \in 1..Ev.nl[c] : N0(Ev.st[k][c]) <= 1]
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ prev' = Ev /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su /\ prev' = Ev
         /\ IF su.model = "multilayer" THEN Report(l, Ev.case, Clauses) ELSE TRUE
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, prev>>
=============================================================================
