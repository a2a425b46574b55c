---------------------------- MODULE TraceAlbedo -----------------------------
(* Recorded snow and surface albedo.  tprev: the temperature that decides    *)
(* about cold or melting conditions (surface temperature at the start of the *)
(* step, or air temperature), snowfall 1e-4 kg m-2, albedo 1e-6.             *)
EXTENDS Albedo, TraceBase
VARIABLES l, su, prev
TInit == l = 1 /\ su = [case |-> ""] /\ prev = [nl |-> <<>>]
Ev == Trace[l]
Cells == 1..su.cells
T0 == 273150
Melting(c) == LET t == IF su.temp = "air" THEN Ev.tair[c] ELSE prev.tsurf[c] IN IsNum(t) /\ t >= T0
N0(x) == IF IsNaN(x) THEN 0 ELSE x
Sf(c) == N0(Ev.snowf[c])
\* possible values after ageing/refresh (snowfall or temperature within rounding of their thresholds may count either way)
Results(a, c) ==
  {Next1(su, a, m, s) : m \in {Melting(c)} \cup (IF LET t == IF su.temp = "air" THEN Ev.tair[c] ELSE prev.tsurf[c]
                                                    IN IsNum(t) /\ AbsF(t - T0) <= 1 THEN BOOLEAN ELSE {}),
                        s \in {Sf(c)} \cup (IF su.method = "binary" /\ AbsF(Sf(c) - RefreshAmount(su)) <= 2 /\ ~Ev.equal[c]
                                            THEN {RefreshAmount(su), RefreshAmount(su) - 5} ELSE {})}
Tol == 8
Is(x, S) == IsNum(x) /\ \E y \in S : Near(x, y, Tol)

\* ---- multi-layer model ---------------------------------------------------
HadSnow(c) == prev.nl[c] > 0
Start(c) == IF HadSnow(c) THEN prev.alb[c] ELSE IF Sf(c) > 0 THEN su.max ELSE NaNV
MultiClauses == [
  ageing_and_refresh |-> \A c \in Cells : Ev.nl[c] > 0 /\ IsNum(Start(c)) => Is(Ev.alb[c], Results(Start(c), c)),
  frost_is_fresh |-> \A c \in Cells : Ev.nl[c] > 0 /\ IsNaN(Start(c)) => Near(Ev.alb[c], su.max, Tol),
  no_snow_no_albedo |-> \A c \in Cells : Ev.nl[c] = 0 => IsNaN(Ev.alb[c]),
  surface_albedo |-> su.scf = 0 => \A c \in Cells : IF IsNum(Start(c)) THEN prev.thin[c] \/ Is(Ev.surf[c], Results(Start(c), c))
                                      ELSE prev.thin[c] \/ Near(Ev.surf[c], su.soil, 2)]
\* ---- cryospheric layers --------------------------------------------------
\* la: albedo of new snow, old snow, firn, ice layer; has: layer present
CHas(e, i, c) == e.has[i][c]
CStart(c) == IF CHas(prev, 1, c) THEN prev.la[1][c]
             ELSE IF Sf(c) > 0 THEN IF su.single /\ CHas(prev, 2, c) THEN prev.la[2][c] ELSE su.max
             ELSE IF CHas(prev, 2, c) THEN prev.la[2][c] ELSE NaNV
\* a new snow layer that melts completely and is replaced by frost within the step starts fresh
CResults(c) == Results(CStart(c), c) \cup (IF Ev.subl[c] < 0 THEN {su.max} ELSE {})
CryoClauses == [
  ageing_and_refresh |-> su.single => \A c \in Cells :
      (CHas(Ev, 1, c) \/ CHas(Ev, 2, c)) /\ IsNum(CStart(c)) /\ ~Ev.trans => Is(Ev.alb[c], CResults(c)),
  surface_layer_ages |-> \A c \in Cells :
      CHas(prev, 1, c) /\ CHas(Ev, 1, c) /\ ~Ev.trans => Is(Ev.la[1][c], CResults(c)),
  firn_and_ice |-> \A c \in Cells : ~CHas(prev, 1, c) /\ ~CHas(prev, 2, c) /\ ~CHas(Ev, 1, c) /\ ~CHas(Ev, 2, c) /\ Sf(c) = 0 =>
      IF CHas(Ev, 3, c) /\ CHas(prev, 3, c) THEN Near(Ev.alb[c], su.firn, 2)
      ELSE ~CHas(prev, 3, c) /\ ~CHas(Ev, 3, c) /\ CHas(Ev, 4, c) => Near(Ev.alb[c], su.ice, 2),
  layer_bounds |-> \A c \in Cells : \A i \in 1..2 : CHas(Ev, i, c) => Ev.la[i][c] >= su.min - Tol /\ Ev.la[i][c] <= su.max + Tol]
Common == [
  completed |-> Ev.error = "",
  bounds |-> \A c \in Cells : IsNum(Ev.alb[c]) => /\ Ev.alb[c] <= su.max + Tol
                                                  /\ Ev.alb[c] >= (IF su.model = "multilayer" THEN su.min ELSE MinF(su.min, MinF(su.firn, su.ice))) - Tol]
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ prev' = Ev /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su /\ prev' = Ev
         /\ Report(l, Ev.case, Common)
         /\ IF su.model = "multilayer" THEN Report(l, Ev.case, MultiClauses) ELSE Report(l, Ev.case, CryoClauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, prev>>
=============================================================================
