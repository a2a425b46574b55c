---------------------------- MODULE TraceProper ----------------------------
(* Recorded snow depth (part "depth") and ground properties (part "ground")  *)
(* of real runs.                                                             *)
EXTENDS Settle, TraceBase
Gr == INSTANCE Ground
VARIABLES l, su
TInit == l = 1 /\ su = [case |-> ""]
Ev == Trace[l]
Within(x, a, b, t) == x >= MinF(a, b) - t /\ x <= MaxF(a, b) + t
N0(x) == IF IsNaN(x) THEN 0 ELSE x
Multi == su.model = "multilayer"
NL(c) == IF Multi THEN Ev.pnl[c] ELSE Len(Ev.pice)
Was(c) == [k \in 1..MaxF(NL(c), 1) |-> [ice |-> N0(Ev.pice[k][c]), liq |-> N0(Ev.pliq[k][c]), th |-> N0(Ev.pth[k][c]),
                                        wet |-> Ev.pwet[k][c], cold |-> Ev.pcold[k][c]]]
\* firn and ice of the cryolayers
Old(y, k) == IF y.th <= 0 THEN y ELSE [y EXCEPT !.th = Thick(y.ice + y.liq, IF k = 4 THEN su.icedens ELSE FirnDens(Dens(y.ice + y.liq, y.th), su.icedens, su.step))]
Settled(c) ==
  LET q == Was(c)
  IN IF ~Multi THEN Anderson(SubSeq(q, 1, 2), 0, Ev.ta[c], su.step) \o [k \in 1..(Len(q) - 2) |-> Old(q[k + 2], k + 2)]
     ELSE IF su.compact = "anderson" THEN Anderson(q, 0, Ev.ta[c], su.step)
     ELSE Empirical(q, su.maxcold, su.maxwarm, su.step, su.scale)
Add(q, m, c) == IF m <= 0 THEN q ELSE Snowed(q, m, FreshDens(Ev.twb[c]))
Mid(c) == Add(Settled(c), N0(Ev.snowf[c]), c)
\* cold nights: water freezes in place
RECURSIVE Frozen(_, _)
Frozen(q, m) == IF q = <<>> \/ m <= 0 THEN q
                ELSE LET d == MinF(m, Head(q).liq) IN <<[Head(q) EXCEPT !.ice = @ + d, !.liq = @ - d]>> \o Frozen(Tail(q), m - d)
Melted(q, c) == Taken(IF Multi THEN q ELSE Frozen(q, N0(Ev.refr[c])), N0(Ev.melt[c]))
End(q, c) == LET s == N0(Ev.subl[c]) IN IF s < 0 THEN Add(Melted(q, c), -s, c) ELSE Taken(Melted(q, c), s)
\* melt inside the pack (warmed from below) is not booked by layer: it is known to come from the top
\* only if the layers below are too cold and heavy to be warmed through in the step
Firm(c) == su.step <= 60 /\ Ev.pgst[1][c] < 500000 /\ \A k \in 2..NL(c) : N0(Ev.pst[k][c]) < -20000 /\ N0(Ev.pice[k][c]) > 200000
Inside(c) == Multi /\ NL(c) > 1 /\ N0(Ev.melt[c]) > 0 /\ ~Firm(c)
\* new snow: its density from a recorded temperature
New(c) == Thick(MaxF(0, N0(Ev.snowf[c])) + MaxF(0, -N0(Ev.subl[c])), FreshDens(Ev.twb[c]))
Tol(q, c) == 4 + (2 * Len(q)) + (Deep(q) \div 50000) + (New(c) \div 12000)
Sum(s, c) == SumSeq([k \in 1..Len(s) |-> N0(s[k][c])])
\* depth per ice of the layers
Ratios(q) == {Frac(q[k].th, q[k].ice) \div 1000 : k \in {j \in 1..Len(q) : q[j].ice > 100 /\ q[j].ice > q[j].th \div 20}}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Between(c) ==
  LET q == Mid(c) f == Add(q, -N0(Ev.subl[c]), c) rs == Ratios(f) \cup Ratios(q)
      m == MinF(IceOf(f), N0(Ev.melt[c]) + MaxF(0, N0(Ev.subl[c])))
  IN rs = {} \/ (/\ Sum(Ev.th, c) <= (Deep(f) - MulDiv(m, SetMin(rs), 1000)) + Tol(f, c) + (m \div 200)
                 /\ Sum(Ev.th, c) >= (Deep(f) - MulDiv(m, SetMax(rs), 1000)) - Tol(f, c) - (m \div 200))
Cells == {c \in 1..su.cells : \A k \in 1..Len(Ev.pth) : N0(Ev.pth[k][c]) < 15000000 /\ N0(Ev.pice[k][c]) < 30000000 /\ N0(Ev.ice[k][c]) < 30000000}
\* ice to be spread over layers of ice that is nearly gone
Vanishing(c) == LET m == IceOf(Melted(Mid(c), c)) IN m - MaxF(0, N0(Ev.subl[c])) < 30
Moved(q, c) == ~Multi /\ \E k \in 1..3 : q[k].ice > 0 /\ N0(Ev.ice[k][c]) = 0
DepthOK(c) == LET e == End(Mid(c), c)
              IN IF Multi THEN IF Inside(c) THEN Between(c) ELSE Near(Sum(Ev.th, c), Deep(e), Tol(e, c))
                 ELSE Moved(e, c) \/ \A k \in 1..Len(e) : Near(N0(Ev.th[k][c]), e[k].th, Tol(e, c))
DepthClauses == [
  completed |-> Ev.error = "",
  settles_by_law |-> \A c \in Cells : Vanishing(c) \/ DepthOK(c),
  depth_is_sum |-> \A c \in Cells : Near(N0(Ev.depth[c]), Sum(Ev.th, c), 2 + Len(Ev.th)),
  cover |-> \A c \in Cells : Moved(End(Mid(c), c), c) \/ Vanishing(c) \/ IF Ev.bare[c] THEN Ev.sca[c] = 0 ELSE
       Within(Ev.sca[c], Gr!Cover(MaxF(1, N0(Ev.depth[c]) - 1), su.scf), Gr!Cover(MaxF(1, N0(Ev.depth[c]) + 1), su.scf), 60),
  heat_capacity |-> Multi => \A c \in Cells : \A k \in 1..Ev.nl[c] : Near(Ev.cap[k][c], MulDiv(Ev.ice[k][c], 2100, 10000) + MulDiv(Ev.liq[k][c], 4180, 10000), 2)]
\* ---- ground -----------------------------------------------------------------------------
Fr(c) == LET q == Mid(c) IN Gr!Cover(IF \A k \in 1..Len(q) : q[k].th <= 0 THEN 0 ELSE MaxF(1, Deep(q)), su.scf)
\* snow that stays on top of the cell
Stays(c) == LET q == Mid(c) e == End(q, c) m == Taken(Melted(q, c), MaxF(0, N0(Ev.subl[c])))
            IN \A k \in 1..Len(q) : IF q[k].th > 0 THEN m[k].ice > 100 ELSE e[k].ice = 0
\* share of the ground under snow as far as the recorded depth is known
Lo(c) == LET d == Deep(Mid(c)) - Tol(Mid(c), c) IN IF d <= 0 THEN 0 ELSE Gr!Cover(d, su.scf)
Hi(c) == IF Ev.pbare[c] /\ ~Ev.fell[c] THEN 0 ELSE Gr!Cover(Deep(Mid(c)) + Tol(Mid(c), c), su.scf)
SurfAlb(f, c) == IF f = 0 THEN su.soilalb ELSE Gr!Mixed(f, Ev.alb[c], su.soilalb)
\* (steps of a day can make the explicit scheme of thin soil layers diverge: outside of what is specified)
SoilC == {c \in Cells : \A k \in 1..Len(Ev.pgst) : AbsF(Ev.pgst[k][c]) < 120000000}
NS == Len(Ev.pgst)
Del(k, c) == -Ev.pgst[k][c]
Th(k, c) == Ev.gth[k][c]
Cap(k, c) == Gr!Capacity(su.vs, su.psi, su.b, Del(k, c))
Edge(k, c) == Del(k, c) > 0 /\ AbsF(Cap(k, c) - Th(k, c)) <= 10 + (Th(k, c) \div 2000) + (Th(k, c) \div Del(k, c))
U(k, c) == IF Del(k, c) > 0 THEN MinF(Th(k, c), Cap(k, c)) ELSE Th(k, c)
Slope(k, c) == IF Gr!Below(Th(k, c), su.vs, su.psi, su.b, Del(k, c)) THEN Gr!PerKelvin(U(k, c), su.b, Del(k, c)) ELSE 0
Volume(k, c) == MulDiv(Ev.gcap[k][c], 10000, Ev.gd[k][c])
Warm(k, c) == \* small temperatures below freezing carry the rounding of the recording
  IF Del(k, c) <= 0 THEN 0 ELSE 1000000 \div Del(k, c)
Wet(k, c) == Th(k, c) > 0
Expect(k, c) == IF Wet(k, c) THEN Gr!HeatVol(su.dry, Th(k, c), U(k, c), Slope(k, c), Del(k, c)) ELSE su.dry
HeatOK(k, c) == \/ Ev.gcap[k][c] > 190000000 \/ Edge(k, c)
                \/ LET e == Expect(k, c) IN Near(Volume(k, c), e, 3 + (e \div 2000) + MulDiv(e \div 100, Warm(k, c), 10000) + (200000 \div Ev.gd[k][c]))
WaterOK(k, c) == LET t == 200 + (IF Del(k, c) > 0 THEN 1000000 \div Del(k, c) ELSE 0)
                 IN /\ Near(Ev.gsu[k][c], Frac(U(k, c), su.vs), t)
                    /\ Near(Ev.gsf[k][c], Frac(Th(k, c) - U(k, c), su.vs), t)
ConductOK(k, c) == Near(Ev.gk[k][c], IF Wet(k, c) THEN Gr!Conductivity(su.kd, su.vs, Th(k, c), U(k, c)) ELSE su.kd, 30 + (Ev.gk[k][c] \div 2000))
\* top snow before the exchange of heat
Ds(c) == MaxF(0, Mid(c)[1].th)
FirstSnow(c) == NL(c) = 0 /\ N0(Ev.snowf[c]) > 0
Ts(c) == IF FirstSnow(c) THEN (IF IsNaN(Ev.ta[c]) THEN NaNV ELSE MinF(0, (Ev.ta[c] - 273150) * 10)) ELSE N0(Ev.pst[1][c])
Dg(c) == Ev.gd[1][c]
NearTh(c) == 5 + (Ds(c) \div 30000) + (New(c) \div 12000)
GroundClauses == [
  completed |-> Ev.error = "",
  surface_albedo |-> \A c \in Cells : (Hi(c) = 0 \/ (Lo(c) > 0 /\ Stays(c))) => Within(Ev.salb[c], SurfAlb(Lo(c), c), SurfAlb(Hi(c), c), 20),
  roughness |-> \A c \in Cells : Within(Ev.rough[c], Gr!Rough(Lo(c), su.zsnow, su.zsoil), Gr!Rough(Hi(c), su.zsnow, su.zsoil), 20),
  soil_water |-> Multi => \A c \in SoilC : \A k \in 1..NS : WaterOK(k, c),
  soil_heat |-> Multi => \A c \in SoilC : \A k \in 1..NS : HeatOK(k, c),
  soil_conduct |-> Multi => \A c \in SoilC : \A k \in 1..NS : ConductOK(k, c),
  opening |-> Multi => \A c \in SoilC : IsNum(Ev.gsu[1][c]) /\ LET g == Gr!Opening(su.gsat, MulDiv(Ev.gsu[1][c], su.vs, 1000000), su.vc) IN Near(Ev.cond[c], g, 2 + (g \div 1000)),
  layer_depth |-> Multi => \A c \in Cells : Near(Ev.sd[c], Gr!LayerThick(Ds(c), Dg(c)), NearTh(c)),
  layer_temp |-> Multi => \A c \in SoilC : AbsF(Ds(c) - Dg(c)) <= NearTh(c)
        \/ Same(Ev.stl[c], IF IsNaN(Ts(c)) THEN Ev.stl[c] ELSE Gr!LayerTemp(Ds(c), Dg(c), Ts(c), Ev.pgst[1][c] \div 100), 20 + (MulDiv(NearTh(c), AbsF(N0(Ts(c)) - (Ev.pgst[1][c] \div 100)), Dg(c)))),
  layer_conduct |-> Multi => \A c \in SoilC : AbsF((2 * Ds(c)) - Dg(c)) <= 2 * NearTh(c)
        \/ LET k == Gr!LayerConduct(Ds(c), Dg(c), su.ksnow, Ev.gk[1][c]) IN Near(Ev.sk[c], k, 20 + (k \div 1000) + MulDiv(k, 20 * NearTh(c), Dg(c)))]
TSetup == /\ Ev.ev = "setup" /\ su' = Ev
          /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
          /\ IF Ev.error # "" \/ Ev.model # "multilayer" \/ Ev.part # "ground" THEN TRUE ELSE Report(l, Ev.case, [
               saturated |-> Near(Ev.vs, Gr!Saturated(Ev.sand, Ev.clay), 3),
               exponent |-> Near(Ev.b, Gr!Exponent(Ev.sand, Ev.clay), 3),
               suction |-> LET p == Gr!Suction(Ev.sand, Ev.clay) IN Near(Ev.psi, p, 3 + (p \div 5000)),
               critical |-> LET p == Gr!Critical(Ev.vs, Ev.psi, Ev.b) IN Near(Ev.vc, p, 20 + (p \div 2000)),
               dry_heat |-> Near(Ev.dry, Gr!DryHeat(Ev.sand, Ev.clay), 2),
               dry_conduct |-> Near(Ev.kd, Gr!DryConduct(Ev.vs, Ev.clay), 100),
               moisture |-> \A k \in 1..Len(Ev.th0) : Near(Ev.th0[k], MulDiv(Ev.vs, Ev.wet, 10000), 3)])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ IF Ev.error # "" THEN Report(l, Ev.case, [completed |-> FALSE])
            ELSE IF su.part = "depth" THEN Report(l, Ev.case, DepthClauses) ELSE Report(l, Ev.case, GroundClauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su>>
=============================================================================
