----------------------------- MODULE TraceCryo ------------------------------
(* Recorded cells of the cryospheric layer model: the state entering the     *)
(* layer update (where it could be observed) and at the end of every step.   *)
EXTENDS CryoLayers, TraceBase
VARIABLES l, su, k, prev
TInit == l = 1 /\ su = [case |-> ""] /\ k = 0 /\ prev = [ice |-> <<>>]
Ev == Trace[l]
Cells == 1..su.cells
N0d(x) == IF IsNaN(x) THEN 0 ELSE x
Pk(e, c) == [i \in 1..4 |-> [ice |-> e.ice[i][c], liq |-> e.liq[i][c], dens |-> N0d(e.dens[i][c])]]
TotI(e, c) == e.ice[1][c] + e.ice[2][c] + e.ice[3][c] + e.ice[4][c]
TotL(e, c) == e.liq[1][c] + e.liq[2][c] + e.liq[3][c] + e.liq[4][c]
SameLayer(a, b) == Near(a.ice, b.ice, 3) /\ Near(a.liq, b.liq, 3)
SamePack(a, b) == \A i \in 1..4 : SameLayer(a[i], b[i])
Near2(x, thr, eps) == IF x < thr - eps THEN {FALSE} ELSE IF x > thr + eps THEN {TRUE} ELSE {FALSE, TRUE}
Fi == FirnStep(Ev.t, su.step, k = 0, su.firn)
\* all results the rules allow (a density within rounding of its threshold may count either way)
Allowed(p) == {LET b == AfterFirn(AfterNew(p, x[1]), Fi) IN AfterIce(b, x[2]) :
                x \in {y \in Near2(p[1].dens, su.old, 1) \X {TRUE, FALSE} :
                         LET b == AfterFirn(AfterNew(p, y[1]), Fi)
                             eps == IF Fi THEN 300 ELSE 1
                         IN y[2] \in Near2(b[3].dens, su.icethr, eps)}}
\* thickness of a layer (1e-5 m) is its mass (1e-4 kg) over its density (0.01 kg/m3); compared where thick enough
ThOK(e, i, c) == e.th[i][c] > 200 /\ e.dens[i][c] > 0 =>
   LET w == e.ice[i][c] + e.liq[i][c]
       lhs == (e.th[i][c] \div 10) * (e.dens[i][c] \div 100)      \* 1e-4 m * kg/m3
   IN Near(lhs, w, w \div 20 + 20)
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ k' = 0 /\ prev' = Ev
          /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
StepClauses == [
  completed |-> Ev.error = "",
  new_snow_below_threshold |-> \A c \in Cells : We(Pk(Ev, c)[1]) > 10 => Ev.dens[1][c] <= su.old + 1,
  firn_below_threshold |-> \A c \in Cells : We(Pk(Ev, c)[3]) > 10 => Ev.dens[3][c] <= su.icethr + 1,
  old_snow_gone_in_firn_step |-> Fi => \A c \in Cells : We(Pk(Ev, c)[2]) = 0,
  firn_grows_only_in_firn_step |-> ~Fi => \A c \in Cells : We(Pk(Ev, c)[3]) <= We(Pk(prev, c)[3]) + 4,
  ice_grows_only_from_firn |-> \A c \in Cells : We(Pk(Ev, c)[4]) > We(Pk(prev, c)[4]) + 4 =>
         We(Pk(Ev, c)[3]) = 0 /\ We(Pk(prev, c)[3]) > 0,
  thickness |-> \A c \in Cells : \A i \in 1..4 : ThOK(Ev, i, c)]
\* with the state before the layer update: the result is exactly one of the allowed ones
UpdClauses == IF Has(Ev, "pre") THEN [
    transitions |-> \A c \in Cells : \E q \in Allowed(Pk(Ev.pre, c)) : SamePack(q, Pk(Ev, c)),
    total_kept |-> \A c \in Cells : Near(TotI(Ev.pre, c), TotI(Ev, c), 4) /\ Near(TotL(Ev.pre, c), TotL(Ev, c), 4)]
  ELSE [none |-> TRUE]
TStep == /\ Ev.ev = "step" /\ UNCHANGED su /\ k' = k + 1 /\ prev' = Ev
         /\ Report(l, Ev.case, StepClauses) /\ Report(l, Ev.case, UpdClauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, k, prev>>
=============================================================================
