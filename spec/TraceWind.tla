------------------------------- MODULE TraceWind -------------------------------
(* Wind fields of runs with the Liston interpolation.                        *)
EXTENDS Interp, Wind, TraceBase
VARIABLES l, su
TInit == l = 1 /\ su = [case |-> ""]
Ev == Trace[l]
N == Len(su.cells)
C == 1..N
Known == {i \in 1..Len(su.st) : IsNum(Ev.v[i]) /\ IsNum(Ev.k[i])}
KnownG == {i \in Known : IsNum(Ev.g[i])} \cup {i \in 1..Len(su.st) : IsNum(Ev.g[i]) /\ IsNum(Ev.k[i])}
\* ---- level ground: the interpolated wind, 1e-4 m s-1 -------------------------------
St == [i \in 1..Len(su.st) |-> [x |-> su.st[i].x, y |-> su.st[i].y, z |-> 0, d |-> 0]]
East(v, k) == -SMulDiv(SinD(15000 * k), v, 1000000)
North(v, k) == -SMulDiv(CosD(15000 * k), v, 1000000)
Base(c, S, vs, comp(_, _)) == LET w == Weights(St, S, su.cells[c].x, su.cells[c].y) IN Mean(S, w, [i \in S |-> comp(vs[i], Ev.k[i])])
Fastest(S, vs) == High(S, [i \in S |-> vs[i]])
LevelOK(c) == IF Known = {} THEN IsNaN(Ev.flat.v[c]) /\ IsNaN(Ev.flat.d[c])
  ELSE LET u == Base(c, Known, Ev.v, East) w == Base(c, Known, Ev.v, North) v == Ev.flat.v[c] d == Ev.flat.d[c]
           tol == 6 + (Fastest(Known, Ev.v) \div 15000)
       IN /\ IsNum(v) /\ IsNum(d) /\ d >= 0 /\ d <= 360000 /\ v >= 1000
          /\ IF v > 1000 THEN Near(-SMulDiv(SinD(d), v, 1000000), u, tol) /\ Near(-SMulDiv(CosD(d), v, 1000000), w, tol)
             ELSE AbsF(u) <= 1000 + tol /\ AbsF(w) <= 1000 + tol
\* ---- terrain -------------------------------------------------------------------------
WS == [c \in C |-> IF IsNaN(su.aspect[c]) THEN 0 ELSE WindSlope(su.slope[c], su.aspect[c], Ev.flat.d[c])]
Lo == Low(C, WS)
Hi == High(C, WS)
Level == N = 1 \/ \A c \in C : su.slope[c] = 0
Sharp == Level \/ Hi - Lo > 4000
Scaled(c) == IF Level THEN 0 ELSE ScaledTo(WS[c], Lo, Hi)
\* uncertainty (1e-6) of the scaled slope from the resolution of recorded angles
Fuzz == IF Level THEN 2 ELSE 10 + (60000000 \div MaxF(Hi - Lo, 1))
FactorOf(c) == Weight(su.sw, su.cw, Scaled(c), su.curv[c])
FactorTol == 6 + MulDiv(Fuzz, su.sw, 10000)
Limits(v, b) == LET half == (su.sw + su.cw) \div 2 IN            \* 1e-4
   v >= MaxF(1000, MulDiv(b, MaxF(10000 - half, 0), 10000) - 5) /\ v <= MaxF(1000, MulDiv(b, 10000 + half, 10000)) + 5
Blowing(c) == IsNum(Ev.flat.v[c])
SpeedOK(v, b, c) == b > 1000 => LET x == MaxF(1000, MulDiv(b, MaxF(FactorOf(c), 0) \div 2, 500000)) IN
   Near(v, x, 4 + MulDiv(b, FactorTol, 1000000) + (b \div 20000))
Dirs == [c \in C |-> Turn(Ev.flat.d[c], IF Level THEN 0 ELSE Divert(Scaled(c), su.aspect[c], Ev.flat.d[c]))]
Apart(x, y) == LET d == AbsF(x - y) IN MinF(d, AbsF(360000 - d))
All == Known # {} /\ \A c \in C : Blowing(c)
Gusty == su.gust # "none"
ScaledGust == su.gust = "scaled" /\ Known = KnownG
Clauses == [
  level_ground |-> \A c \in C : LevelOK(c),
  missing_without_stations |-> Known = {} => \A c \in C : IsNaN(Ev.f.v[c]) /\ IsNaN(Ev.f.d[c]),
  complete_with_stations |-> Known # {} => \A c \in C : IsNum(Ev.f.v[c]) /\ IsNum(Ev.f.d[c]) /\ Ev.f.d[c] >= 0 /\ Ev.f.d[c] <= 360000,
  speed_limits |-> All => \A c \in C : Ev.flat.v[c] > 1000 => Limits(Ev.f.v[c], Ev.flat.v[c]),
  unchanged_on_level_ground |-> (All /\ su.level) => \A c \in C : Near(Ev.f.v[c], Ev.flat.v[c], 2) /\ Apart(Ev.f.d[c], Ev.flat.d[c]) <= 2,
  speed |-> (All /\ Sharp) => \A c \in C : SpeedOK(Ev.f.v[c], Ev.flat.v[c], c),
  direction |-> (All /\ Sharp) => \A c \in C : Ev.flat.v[c] > 1000 => Apart(Ev.f.d[c], Dirs[c]) <= 8 + (Fuzz \div 30),
  gust_missing |-> Gusty => ((KnownG = {}) <=> (\A c \in C : IsNaN(Ev.f.g[c]))),
  gust_level_ground |-> (Gusty /\ KnownG # {}) => \A c \in C :
      LET u == Base(c, KnownG, Ev.g, East) w == Base(c, KnownG, Ev.g, North) g == Ev.flat.g[c]
          m == SMulDiv(u \div 10, AbsF(u) \div 10, 1000) * (IF u < 0 THEN -1 ELSE 1) + SMulDiv(w \div 10, AbsF(w) \div 10, 1000) * (IF w < 0 THEN -1 ELSE 1)
      IN g >= 1000 /\ (g > 1000 => Near(MulDiv(g \div 10, g \div 10, 1000), m, 8 + (g \div 30))),
  gust_limits |-> (Gusty /\ KnownG # {}) => \A c \in C : Ev.flat.g[c] > 1000 => Limits(Ev.f.g[c], Ev.flat.g[c]),
  gust_speed |-> (ScaledGust /\ All /\ Sharp) => \A c \in C : Ev.flat.v[c] > 1000 => SpeedOK(Ev.f.g[c], Ev.flat.g[c], c)]
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ Report(l, Ev.case, [completed |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su /\ Report(l, Ev.case, Clauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su>>
=============================================================================
