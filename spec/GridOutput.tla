----------------------------- MODULE GridOutput -----------------------------
(* Gridded output: the schedule a field's configuration denotes, and the     *)
(* accumulation / writing machine.  In the abstract machine the state at     *)
(* step k is the token k, so a record is the sequence of the steps it holds. *)
EXTENDS Calendar, FiniteSets

\* ---- schedules ------------------------------------------------------------
\* a field f: [kind |-> "tick" | "ME" | "YE" | "MS" | "YS" | "dates", freq (minutes), agg, dates]
AxisSeq(start, end, step) == [k \in 1..NumDates(start, end, step) |-> DateAt(start, step, k)]
LastOfPeriod(kind, t, step) == IF kind \in {"YE", "YS"} THEN YearOf(t) # YearOf(t + step)
                               ELSE MonthIdx(t) # MonthIdx(t + step)
FirstDay(kind, t) == LET c == Civil(t) IN c.d = 1 /\ (kind = "YS" => c.m = 1)
InList(t, s) == \E i \in DOMAIN s : s[i] = t

\* is the model date t (of a run from start to end) an output time of the field?
Due(f, t, start, step) ==
  CASE f.kind = "dates" -> InList(t, f.dates)
    [] f.kind = "tick" -> IF f.agg = "none" THEN (t - start) % f.freq = 0 ELSE (t + step - start) % f.freq = 0
    [] f.kind \in {"ME", "YE"} \/ f.agg # "none" -> LastOfPeriod(f.kind, t, step)
    [] OTHER -> FirstDay(f.kind, t) /\ MinOfDay(t) = MinOfDay(start)
Refused(f, step) == f.kind = "tick" /\ (f.freq < step \/ f.freq % step # 0)
Schedule(f, start, end, step) == SelectSeq(AxisSeq(start, end, step), LAMBDA t : Due(f, t, start, step))
\* time bounds of the i-th record of an aggregated field: previous output time (or run start) to its own
Bounds(sch, start) == [i \in DOMAIN sch |-> <<IF i = 1 THEN start ELSE sch[i - 1], sch[i]>>]
\* first model date inside the window of the i-th record
WindowStart(sch, i, start, step) == IF i = 1 THEN start ELSE sch[i - 1] + step

\* ---- machine --------------------------------------------------------------
VARIABLES gcur,      \* last processed step
          acc,       \* per field: steps accumulated since the last write
          recs       \* per field: written records, [t |-> , steps |-> ]
gvars == <<gcur, acc, recs>>
GInit(fs) == gcur = 0 /\ acc = [i \in DOMAIN fs |-> <<>>] /\ recs = [i \in DOMAIN fs |-> <<>>]
GStep(fs, start, step) ==
  LET k == gcur + 1
      t == DateAt(start, step, k)
      a == [i \in DOMAIN fs |-> IF fs[i].agg = "none" THEN <<k>> ELSE Append(acc[i], k)]
  IN /\ gcur' = k
     /\ acc' = [i \in DOMAIN fs |-> IF Due(fs[i], t, start, step) THEN <<>> ELSE a[i]]
     /\ recs' = [i \in DOMAIN fs |-> IF Due(fs[i], t, start, step) THEN Append(recs[i], [t |-> t, steps |-> a[i]])
                                     ELSE recs[i]]

\* ---- values ---------------------------------------------------------------
\* steps of the i-th record: exactly those in its window
StepsOf(f, sch, i, start, step) ==
  IF f.agg = "none" THEN {((sch[i] - start) \div step) + 1}
  ELSE ((WindowStart(sch, i, start, step) - start) \div step + 1)..((sch[i] - start) \div step + 1)
=============================================================================
