------------------------------ MODULE MCInterp ------------------------------
(* All small station sets (positions, elevations, values, gaps) and methods; *)
(* the interpolation is exact at stations, bounded, translation covariant,   *)
(* reproduces linear data and ignores missing stations.  The availability    *)
(* patterns are emitted and replayed into the real code.                     *)
EXTENDS Interp, TLC, Json
CONSTANTS N, Zs, Ds, Methods, Xs, Lapses
VARIABLES st, c, t, ph
Vals == {-300, 0, 700, NaNV}
Lap1 == {-500}
Lap2 == {-500, 14}
Stations == [x : Xs, y : {0, 20}, z : Zs, d : Ds]
Confs == {[param |-> p, method |-> m, lapse |-> l, extrapolate |-> e, lo |-> lo, hi |-> FixMax] :
            p \in {"temp"}, m \in Methods, l \in Lapses, e \in BOOLEAN, lo \in {-FixMax}}
         \cup {[param |-> "precip", method |-> m, lapse |-> l, extrapolate |-> e, lo |-> 0, hi |-> FixMax] :
            m \in Methods, l \in Lapses, e \in BOOLEAN}
Targets == [x : {0, 10}, y : {0, 20}, z : {100, 130}]
\* stations are numbered in order of position so that permutations are explored once
MCInit == /\ st \in {s \in [1..N -> Stations] : \A i \in 1..(N - 1) : s[i].x * 100 + s[i].y < s[i + 1].x * 100 + s[i + 1].y}
          /\ c = [param |-> "temp", method |-> "fixed", lapse |-> 0, extrapolate |-> TRUE, lo |-> 0, hi |-> FixMax]
          /\ t = [x |-> 0, y |-> 0, z |-> 100] /\ ph = 0
          /\ PrintT(<<"EMIT", ToJson([st |-> st])>>)
MCNext == ph = 0 /\ ph' = 1 /\ c' \in Confs /\ t' \in Targets /\ UNCHANGED st
MCSpec == MCInit /\ [][MCNext]_<<st, c, t, ph>>
S == Avail(st)
F == Field(c, st, t)
P == Plain(c, st, S, t)
Tr == c.method \in {"regression", "fixed"}
NoData == S = {} => F = (IF c.param = "precip" THEN 0 ELSE NaNV)
WeightsSumToOne == S # {} => LET w == Weights(st, S, t.x, t.y) IN
   (\A i \in S : w[i] >= 0 /\ w[i] <= Mega) /\ Near(Sum(S, w), Mega, 60)
NearerWeighsMore == S # {} => LET w == Weights(st, S, t.x, t.y) IN
   \A i, j \in S : D2(st[i], t.x, t.y) < D2(st[j], t.x, t.y) => w[i] >= w[j]
\* at a station of the cell's own elevation the field is the station's value
Exact == S # {} /\ c.method # "adjustment_factor" => \A i \in S :
   st[i].x = t.x /\ st[i].y = t.y /\ st[i].z = t.z /\ c.extrapolate /\ 10 * st[i].d >= c.lo => Near(F, 10 * st[i].d, 1)
\* values that are a linear function of elevation are reproduced everywhere
Linear == c.method = "regression" /\ S # {} => \A b \in {-3, 2} :
   (\A i, j \in S : st[i].d - st[j].d = b * (st[i].z - st[j].z)) /\ (\E i, j \in S : st[i].z # st[j].z) =>
      \A i \in S : Near(P, 10 * (st[i].d + b * (t.z - st[i].z)), 30)
Translation == Tr /\ S # {} =>
   LET s2 == [i \in DOMAIN st |-> IF i \in S THEN [st[i] EXCEPT !.d = @ + 400] ELSE st[i]]
   IN Near(Plain(c, s2, S, t), P + 4000, 3)
MissingIgnored == S # {} => LET a == CHOOSE i \in S : TRUE
   IN F = Field(c, [i \in DOMAIN st |-> IF i \in S THEN st[i] ELSE [st[i] EXCEPT !.x = 5, !.z = 777]], t)
InRange == S # {} /\ IsNum(F) => F >= c.lo /\ (~c.extrapolate => F <= MaxF(c.lo, RHigh(st, S)) /\ F >= RLow(st, S))
OneStationNoTrend == Cardinality(S) = 1 /\ c.method = "regression" => \A i \in S : Near(P, 10 * st[i].d, 1)
Level == c.method = "regression" /\ S # {} /\ (\A i, j \in S : st[i].z = st[j].z) => P >= RLow(st, S) - 1 /\ P <= RHigh(st, S) + 1
=============================================================================
