--------------------------- MODULE TraceDegreeDay ---------------------------
EXTENDS DegreeDay, TraceBase
VARIABLES l, su, ice0
TInit == l = 1 /\ su = [case |-> ""] /\ ice0 = <<>>
Ev == Trace[l]
Cells == 1..su.cells
Before(c) == [i \in 1..4 |-> [ice |-> ice0[i][c] + (IF i = 1 THEN N0(Ev.snowf[c]) ELSE 0), liq |-> 0]]
Exp(c) == IF IsNaN(Ev.tair[c]) \/ ~Ev.above[c] THEN 0 ELSE DDMelt(su, Ev.tair[c], Ev.surf[c], Ev.sw[c], Ice(Before(c)))
Tol(c) == 40 + Exp(c) \div 1000
\* temperature above the threshold by less than the rounding of the trace
AtThr(c) == IsNum(Ev.tair[c]) /\ Ev.above[c] /\ AbsF(Ev.tair[c] - su.thr) <= 1
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ ice0' = Ev.ice /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su /\ ice0' = Ev.ice
         /\ Report(l, Ev.case, [
              completed |-> Ev.error = "",
              degree_day_amount |-> \A c \in Cells : AtThr(c) \/ Near(Ev.melt[c], Exp(c), Tol(c)),
              zero_below_threshold |-> \A c \in Cells : IsNum(Ev.tair[c]) /\ ~Ev.above[c] => Ev.melt[c] = 0,
              never_more_than_present |-> \A c \in Cells : Ev.melt[c] <= Ice(Before(c)) + 5,
              surface_downwards |-> \A c \in Cells :
                 LET q == MeltFrom(Before(c), Ev.melt[c]) IN \A i \in 1..4 : Near(Ev.ice[i][c], q[i].ice, 4)])
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, ice0>>
=============================================================================
