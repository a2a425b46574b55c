---------------------------- MODULE MCGridOutput ----------------------------
(* Bounded instances: runs around month/year ends with all kinds of fields.  *)
EXTENDS GridOutput, TLC, Fixed
CONSTANTS Starts, Steps, MaxN
VARIABLES start, step, n
StartsDef == {DaysFromCivil(2019, 12, 28) * 1440, DaysFromCivil(2020, 2, 27) * 1440 + 360,
              DaysFromCivil(2020, 3, 1) * 1440, DaysFromCivil(2021, 2, 26) * 1440 + 1380,
              DaysFromCivil(2020, 12, 31) * 1440}
Fs == <<[kind |-> "tick", freq |-> step, agg |-> "none", dates |-> <<>>],
        [kind |-> "tick", freq |-> 3 * step, agg |-> "none", dates |-> <<>>],
        [kind |-> "tick", freq |-> 3 * step, agg |-> "sum", dates |-> <<>>],
        [kind |-> "ME", freq |-> 0, agg |-> "none", dates |-> <<>>],
        [kind |-> "ME", freq |-> 0, agg |-> "mean", dates |-> <<>>],
        [kind |-> "YE", freq |-> 0, agg |-> "sum", dates |-> <<>>],
        [kind |-> "MS", freq |-> 0, agg |-> "none", dates |-> <<>>],
        [kind |-> "YS", freq |-> 0, agg |-> "none", dates |-> <<>>],
        [kind |-> "dates", freq |-> 0, agg |-> "sum", dates |-> <<start + step, start + 4 * step>>],
        [kind |-> "dates", freq |-> 0, agg |-> "none", dates |-> <<start - step>>]>>
MCInit == /\ start \in Starts /\ step \in Steps /\ n \in 1..MaxN
          /\ GInit([i \in 1..10 |-> 0])
MCNext == gcur < n /\ GStep(Fs, start, step) /\ UNCHANGED <<start, step, n>>
MCSpec == MCInit /\ [][MCNext]_<<gvars, start, step, n>>
End == DateAt(start, step, n)
Done == gcur = n
Sch(i) == Schedule(Fs[i], start, End, step)
\* the written times are the schedule, and the records are the steps in the windows
RecordsFollowSchedule ==
  Done => \A i \in DOMAIN Fs : /\ [j \in DOMAIN recs[i] |-> recs[i][j].t] = Sch(i)
                               /\ \A j \in DOMAIN recs[i] :
                                    {recs[i][j].steps[x] : x \in DOMAIN recs[i][j].steps} = StepsOf(Fs[i], Sch(i), j, start, step)
\* windows tile: every step up to the last output of an aggregated field is in exactly one record
Tiling == \A i \in DOMAIN Fs : Fs[i].agg # "none" =>
            LET flat == [j \in DOMAIN recs[i] |-> Len(recs[i][j].steps)]
            IN SumSeq(flat) + Len(acc[i]) = gcur
\* monthly aggregates split exactly at the month boundaries
MonthPure == \A i \in {5} : \A j \in DOMAIN recs[i] :
               \A x, y \in DOMAIN recs[i][j].steps :
                 MonthIdx(DateAt(start, step, recs[i][j].steps[x])) = MonthIdx(DateAt(start, step, recs[i][j].steps[y]))
BoundsTile == Done => \A i \in DOMAIN Fs : Fs[i].agg # "none" =>
                LET b == Bounds(Sch(i), start) IN \A j \in DOMAIN b : b[j][1] = (IF j = 1 THEN start ELSE b[j - 1][2])
\* end-of-period output once per completed period
OncePerMonth == Done => Len(Sch(4)) = MonthIdx(End + step) - MonthIdx(start)
\* for steps dividing a day every month that starts within the run has one month-start output
MonthStarts == Done /\ 1440 % step = 0 =>
   Len(Sch(7)) = Cardinality({k \in 1..n : LET t == DateAt(start, step, k) IN FirstDay("MS", t) /\ MinOfDay(t) = MinOfDay(start)})
=============================================================================
