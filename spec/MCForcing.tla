----------------------------- MODULE MCForcing ------------------------------
(* All small stations against all small runs: the windows tile the run, no   *)
(* record counts twice, totals are conserved, and nothing is shifted.        *)
(* Every combination is emitted and replayed into the real code.             *)
EXTENDS Forcing, TLC, Json
CONSTANTS DTs, Steps, Lens
VARIABLES m, s, done
Offs == {-1440, -60, 0, 60, 120, 360}
Vs(n) == [i \in 1..n |-> IF i % 7 = 5 THEN NaNV ELSE i]
Ones(n) == [i \in 1..n |-> 1]
MCInit == /\ m \in {[start |-> 0, end |-> k * st, step |-> st, agg |-> a, check |-> TRUE, bounds |-> <<>>, incl |-> <<>>, excl |-> <<>>,
                     filters |-> <<>>] : st \in Steps, k \in {0, 2, 3}, a \in BOOLEAN}
          /\ s \in {[id |-> "a", x |-> 0, y |-> 0, start |-> o, dt |-> dt, n |-> n, uniform |-> TRUE,
                     v |-> [precip |-> Ones(n), temp |-> Vs(n)]] : o \in Offs, dt \in DTs, n \in Lens}
          /\ done = FALSE
MCNext == ~done /\ done' = TRUE /\ UNCHANGED <<m, s>>
MCSpec == MCInit /\ [][MCNext]_<<m, s, done>>
Ok == ~Refused(m, s)
\* no record in two windows; windows of consecutive dates adjoin
Disjoint == ~AsIs(m, s) => \A d, e \in Dates(m) : d # e => Window(m, s, d) \cap Window(m, s, e) = {}
Tiles == ~AsIs(m, s) /\ s.dt <= m.step => \A d \in Dates(m) : d + m.step \in Dates(m) => Hi(m, s, d) = Lo(m, s, d + m.step)
\* the total of the run is the number of records in the covered windows
Conserved == Ok /\ ~AsIs(m, s) =>
   LET f(d) == Value(m, s, "precip", d)
       g(d) == Cardinality(Window(m, s, d))
   IN SumOver(Rows(m, s), f) = 1000 * SumOver(Rows(m, s), g)
\* a run whose first and last windows are covered by the records loses none of them
Complete == m.step % s.dt = 0 /\ Ok /\ ~AsIs(m, s) /\ s.start <= m.start - m.step /\ Last(s) >= m.end + m.step =>
   SumOver(Rows(m, s), LAMBDA d : Cardinality(Window(m, s, d))) = ((m.end - m.start) \div m.step + 1) * (m.step \div s.dt)
\* the value at a date only depends on records of its window (not shifted)
Local == Ok => \A d \in Rows(m, s) : IsRec(s, d)
CoarserRefused == s.dt > m.step /\ s.n > 2 /\ m.step <= Day /\ (\E d \in Dates(m) : FirstT(m, s) <= d /\ d + m.step <= LastT(m, s)) => ~Ok
AllNaNNone == Ok => \A d \in Dates(m) : d \notin Rows(m, s) => IsNaN(Value(m, s, "temp", d))
Emit == ~done => PrintT(<<"EMIT", ToJson([step |-> m.step, end |-> m.end, agg |-> m.agg, off |-> s.start, dt |-> s.dt, n |-> s.n])>>)
=============================================================================
