---------------------------- MODULE TraceForcing ----------------------------
EXTENDS Forcing, TraceBase
VARIABLES l
TInit == l = 1
Ev == Trace[l]
m == Ev.m
ss == Ev.stations
Vars == {"temp", "precip", "rel_hum", "wind_speed", "sw_in", "wind_speed_gust", "cloud_fraction"}
Seq2Set(q) == {q[i] : i \in DOMAIN q}
Ids(S) == {ss[i].id : i \in S}
DateOf(k) == m.start + (k - 1) * m.step
ND == ((m.end - m.start) \div m.step) + 1
\* the recorded value, missing where the station or the variable is absent
Got(i, var, k) == LET t == Ev.table[ss[i].id] IN IF var \in DOMAIN t THEN t[var][k] ELSE NaNV
TolV(e) == 3 + (IF IsNaN(e) THEN 0 ELSE AbsF(e) \div 20000)
ValueOK(var) == \A i \in Contributing(m, ss) : \A k \in 1..ND :
   LET e == Value(m, ss[i], var, DateOf(k)) IN Same(Got(i, var, k), e, TolV(e))
WindOK == \A i \in Contributing(m, ss) : \A k \in 1..ND :
   LET d == DateOf(k)
       R == WindRecs(m, ss[i], d)
       x == WindX(m, ss[i], d)
       y == WindY(m, ss[i], d)
       gs == Got(i, "wind_sin", k)
       gc == Got(i, "wind_cos", k)
   IN IF R = {} THEN IsNaN(gs)
      ELSE \/ x = 0 /\ y = 0
           \/ /\ IsNum(gs) /\ AbsF(x * gc - y * gs) <= 3 * (AbsF(x) + AbsF(y) + 1) /\ x * gs + y * gc > 0
Fine == ~Failing(m, ss) /\ Ev.error = ""
TCase == /\ Ev.ev = "init"
         /\ Report(l, Ev.case, [
              refused_exactly_when_invalid |-> (Ev.error # "") = Failing(m, ss),
              package_error |-> Ev.error \in {"", "MeteoDataError"},
              stations |-> Fine => Seq2Set(Ev.got) = Ids(Contributing(m, ss)) /\ Len(Ev.got) = Cardinality(Contributing(m, ss)),
              on_model_dates |-> Fine => Ev.dates = [k \in 1..ND |-> DateOf(k)],
              precipitation |-> Fine /\ Seq2Set(Ev.got) = Ids(Contributing(m, ss)) => ValueOK("precip"),
              values |-> Fine /\ Seq2Set(Ev.got) = Ids(Contributing(m, ss)) => \A var \in Vars \ {"precip"} : ValueOK(var),
              wind_direction |-> Fine /\ Seq2Set(Ev.got) = Ids(Contributing(m, ss)) => WindOK,
              positions |-> Fine /\ Seq2Set(Ev.got) = Ids(Contributing(m, ss)) => \A i \in Contributing(m, ss) :
                  Near(Ev.table[ss[i].id].x, ss[i].x, 1) /\ Near(Ev.table[ss[i].id].y, ss[i].y, 1) /\ Ev.table[ss[i].id].alt = ss[i].alt,
              runs |-> Fine => Ev.runerror = ""])
TNext == l <= TraceLen /\ l' = l + 1 /\ TCase
TSpec == TInit /\ [][TNext]_l
=============================================================================
