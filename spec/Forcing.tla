------------------------------ MODULE Forcing -------------------------------
(* Station forcing: selection of stations, filtering, resampling to the      *)
(* model step and alignment on the model dates.  Times in minutes, record    *)
(* values are integers (NaNV: missing).                                      *)
(* station: [id, x, y, start, dt, n, uniform, v : var -> values (absent var: *)
(* not measured)], m: [start, end, step, agg, check, bounds, incl, excl,     *)
(* filters]                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Fixed
Day == 1440
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x

\* ---- which stations ----
InBounds(m, s) == m.bounds = <<>> \/ (/\ s.x >= m.bounds[1] /\ s.y >= m.bounds[2] /\ s.x < m.bounds[3] /\ s.y < m.bounds[4])
Selected(m, s) == InSeq(s.id, m.incl) \/ (InBounds(m, s) /\ ~InSeq(s.id, m.excl))

\* ---- which values ----
Kept(m, var, v) == \A i \in DOMAIN m.filters :
   LET f == m.filters[i] IN f.var # var \/ (v >= f.min /\ v <= f.max)
Val(m, s, var, i) == LET v == s.v[var][i] IN IF IsNaN(v) \/ ~Kept(m, var, v) THEN NaNV ELSE v
Last(s) == s.start + (s.n - 1) * s.dt
\* index of the last record not after t
IdxTo(s, t) == MinF(s.n, ((t - s.start) \div s.dt) + 1)
\* the records that are looked at: from one day before the run (to complete the first window) to the
\* end of its last window
CutTo(m) == IF m.step = Day THEN m.end + Day ELSE m.end
FirstI(m, s) == MaxF(0, IdxTo(s, m.start - Day - 1)) + 1
LastI(m, s) == IdxTo(s, CutTo(m))
FirstT(m, s) == s.start + (FirstI(m, s) - 1) * s.dt
LastT(m, s) == s.start + (LastI(m, s) - 1) * s.dt
IsRec(s, t) == t >= s.start /\ t <= Last(s) /\ (t - s.start) % s.dt = 0

\* ---- resampling ----
\* too few records to know their spacing, or already on the model step
AsIs(m, s) == s.n <= 2 \/ s.dt = m.step
Daily(m) == m.step = Day
\* records i of the window of model date d: lo < i <= hi
Lo(m, s, d) == MaxF(0, IdxTo(s, IF Daily(m) THEN d ELSE d - m.step))
Hi(m, s, d) == MaxF(0, IdxTo(s, IF Daily(m) THEN d + Day ELSE d))
Window(m, s, d) == MaxF(Lo(m, s, d) + 1, FirstI(m, s))..MinF(Hi(m, s, d), LastI(m, s))
Dates(m) == {m.start + k * m.step : k \in 0..((m.end - m.start) \div m.step)}
\* model dates for which the station contributes a row
Rows(m, s) ==
  IF AsIs(m, s) THEN {d \in Dates(m) : IsRec(s, d)}
  ELSE {d \in Dates(m) : d >= FirstT(m, s) /\ d <= LastT(m, s) /\ Window(m, s, d) # {}}
\* all times that survive slicing, on the model dates or not
Times(m, s) == IF AsIs(m, s) THEN {s.start + (i - 1) * s.dt : i \in {j \in 1..s.n : s.start + (j - 1) * s.dt \in m.start..m.end}}
               ELSE Rows(m, s)
Refused(m, s) ==
  \/ ~s.uniform /\ s.n > 2
  \/ /\ ~AsIs(m, s)
     /\ \/ m.step > Day
        \/ \E d \in Dates(m) : d >= FirstT(m, s) /\ d <= LastT(m, s) /\ ~IsRec(s, d)
           /\ (Daily(m) => Window(m, s, d) # {})
SumOver(S, f(_)) == MapThenSumSet(f, S)
Have(m, s, var, W) == {i \in W : IsNum(Val(m, s, var, i))}
SumOf(m, s, var, W) == LET f(i) == Val(m, s, var, i) IN SumOver(W, f)
MaxOf(m, s, var, W) == LET i == CHOOSE j \in W : \A k \in W : Val(m, s, var, j) >= Val(m, s, var, k) IN Val(m, s, var, i)
\* value (1e-3) of variable var of station s at model date d
Value(m, s, var, d) ==
  IF var \notin DOMAIN s.v \/ d \notin Rows(m, s) THEN NaNV
  ELSE IF AsIs(m, s) THEN LET v == Val(m, s, var, IdxTo(s, d)) IN IF IsNaN(v) THEN NaNV ELSE 1000 * v
  ELSE LET W == Window(m, s, d)
           H == Have(m, s, var, W)
       IN IF var = "precip" THEN IF H # W THEN NaNV ELSE 1000 * SumOf(m, s, var, W)
          ELSE IF var = "wind_speed_gust" THEN IF H = {} THEN NaNV ELSE 1000 * MaxOf(m, s, var, H)
          ELSE IF m.agg \/ Daily(m) THEN IF H = {} THEN NaNV ELSE (1000 * SumOf(m, s, var, H)) \div Cardinality(H)
          ELSE LET v == Val(m, s, var, IdxTo(s, d)) IN IF IsNaN(v) THEN NaNV ELSE 1000 * v
\* wind vector (towards, times -1) of directions that are multiples of 90 degrees
SinD(a) == CASE a % 360 = 90 -> 1 [] a % 360 = 270 -> -1 [] OTHER -> 0
CosD(a) == CASE a % 360 = 0 -> 1 [] a % 360 = 180 -> -1 [] OTHER -> 0
WindRecs(m, s, d) ==
  IF "wind_dir" \notin DOMAIN s.v \/ d \notin Rows(m, s) THEN {}
  ELSE IF AsIs(m, s) \/ ~(m.agg \/ Daily(m)) THEN {i \in {IdxTo(s, d)} : IsNum(s.v["wind_dir"][i])}
  ELSE IF "wind_speed" \notin DOMAIN s.v THEN {}
  ELSE {i \in Window(m, s, d) : IsNum(s.v["wind_dir"][i]) /\ IsNum(Val(m, s, "wind_speed", i))}
Weight(m, s, i) == IF AsIs(m, s) \/ ~(m.agg \/ Daily(m)) THEN 1 ELSE Val(m, s, "wind_speed", i)
WindX(m, s, d) == LET f(i) == Weight(m, s, i) * SinD(s.v["wind_dir"][i]) IN SumOver(WindRecs(m, s, d), f)
WindY(m, s, d) == LET f(i) == Weight(m, s, i) * CosD(s.v["wind_dir"][i]) IN SumOver(WindRecs(m, s, d), f)

\* ---- the run as a whole ----
Chosen(m, ss) == {i \in DOMAIN ss : Selected(m, ss[i])}
Contributing(m, ss) == {i \in Chosen(m, ss) : Times(m, ss[i]) # {}}
AllTimes(m, ss) == UNION {Times(m, ss[i]) : i \in Contributing(m, ss)}
MissingIncluded(m, ss) == \E k \in DOMAIN m.incl : \A i \in DOMAIN ss : ss[i].id # m.incl[k]
Failing(m, ss) ==
  \/ ss = <<>> \/ MissingIncluded(m, ss) \/ Chosen(m, ss) = {}
  \/ \E i \in Chosen(m, ss) : Refused(m, ss[i])
  \/ /\ m.check
     /\ \/ Contributing(m, ss) = {}
        \/ ~ \E t \in AllTimes(m, ss) : t <= m.start
        \/ ~ \E t \in AllTimes(m, ss) : t >= m.end
=============================================================================
