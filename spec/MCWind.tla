-------------------------------- MODULE MCWind --------------------------------
(* A region of three slopes under wind from every main direction.            *)
EXTENDS Wind, FiniteSets, TLC, Json
CONSTANTS Slopes, Aspects, Dirs, Curvs
VARIABLES s, a, d, go
Init == s \in [1..3 -> Slopes] /\ a = [i \in 1..3 |-> 0] /\ d = 0 /\ go = FALSE
Next == ~go /\ go' = TRUE /\ a' \in [1..3 -> Aspects] /\ d' \in Dirs /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, a, d, go>>
WS == [i \in 1..3 |-> WindSlope(s[i] * 1000, a[i] * 1000, d * 1000)]
Lo(w) == CHOOSE x \in {w[i] : i \in 1..3} : \A i \in 1..3 : x <= w[i]
Hi(w) == CHOOSE x \in {w[i] : i \in 1..3} : \A i \in 1..3 : x >= w[i]
Sc(w) == [i \in 1..3 |-> ScaledTo(w[i], Lo(w), Hi(w))]
SW == 5800
CW == 4200
Turned == [i \in 1..3 |-> WindSlope(s[i] * 1000, (a[i] + 90) * 1000, (d + 90) * 1000)]
Limits == go => \A i \in 1..3, cv \in {-500000, 0, 500000} : LET w == Weight(SW, CW, Sc(WS)[i], cv) IN w >= 499990 /\ w <= 1500010
\* a slope that faces the wind is never less exposed than an equal one in the lee
Windward == go => \A i \in 1..3, j \in 1..3 : s[i] = s[j] /\ a[i] = d /\ (a[j] + 180) % 360 = d => WS[i] >= WS[j]
\* only the angle between wind and slope counts
Isotropic == go => \A i \in 1..3 : Near(WS[i], Turned[i], 2)
\* no diversion along or across the fall line, at most a quarter of a radian otherwise
Diverted == go => \A i \in 1..3 : LET v == Divert(Sc(WS)[i], a[i] * 1000, d * 1000) IN AbsF(v) <= 14330 /\ ((a[i] - d) % 90 = 0 => AbsF(v) <= 1)
Flat == go => ((\A i \in 1..3 : s[i] = 0) => \A i \in 1..3 : Sc(WS)[i] = 0 /\ Weight(SW, CW, Sc(WS)[i], 0) = 1000000)
Emit == go => PrintT(<<"EMIT", ToJson([d |-> d, s |-> s, a |-> a])>>)
=============================================================================
