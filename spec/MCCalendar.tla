----------------------------- MODULE MCCalendar -----------------------------
(* Design check of the calendar: walking day by day (resp. step by step) the *)
(* closed-form conversions agree with counting.                              *)
EXTENDS Calendar, TLC
CONSTANTS FirstYear, LastYear, Steps
VARIABLES y, m, d, k, step, t
cvars == <<y, m, d, k, step, t>>
Init == /\ y = FirstYear /\ m = 1 /\ d = 1 /\ k = DaysFromCivil(FirstYear, 1, 1)
        /\ step \in Steps /\ t = k * MinPerDay
\* counting calendar (the obvious one)
NextDayC(c) == IF c.d < DaysInMonth(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
               ELSE IF c.m < 12 THEN [y |-> c.y, m |-> c.m + 1, d |-> 1]
               ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
RECURSIVE Walk(_, _)
Walk(c, n) == IF n = 0 THEN c ELSE Walk(NextDayC(c), n - 1)
Tick == /\ t' = t + step
        /\ LET n == DayOf(t + step) - DayOf(t)
               c == Walk([y |-> y, m |-> m, d |-> d], n)
           IN k' = k + n /\ y' = c.y /\ m' = c.m /\ d' = c.d
        /\ y' <= LastYear
        /\ UNCHANGED step
Spec == Init /\ [][Tick]_cvars
Roundtrip == CivilFromDays(k) = [y |-> y, m |-> m, d |-> d] /\ DaysFromCivil(y, m, d) = k /\ DayOf(t) = k
Bounds == /\ FirstOfMonth(t) <= t /\ t < NextMonth(t) /\ NextMonth(t) <= NextYear(t)
          /\ MonthIdx(NextMonth(t)) = MonthIdx(t) + 1
          /\ MonthIdx(NextMonth(t) - 1) = MonthIdx(t)
          /\ YearOf(NextYear(t)) = y + 1 /\ YearOf(NextYear(t) - 1) = y
\* exactly one strict first and one strict last step per day, month and year:
\* the flags agree with the counting calendar, and a last is followed by a first
FlagsOk == [][LET F == Flags(t, step, 2, 5)
                  G == Flags(t', step, 2, 5)
              IN /\ F.strict_last_of_day = G.strict_first_of_day
                 /\ F.strict_last_of_month = G.strict_first_of_month
                 /\ F.strict_last_of_year = G.strict_first_of_year
                 /\ F.strict_last_of_day = (d' # d \/ m' # m \/ y' # y)
                 /\ F.strict_last_of_month = (m' # m \/ y' # y)
                 /\ F.strict_last_of_year = (y' # y)
                 /\ (F.strict_last_of_year => F.strict_last_of_month)
                 /\ (F.strict_last_of_month => F.strict_last_of_day)]_cvars
=============================================================================
