----------------------------- MODULE Calendar ------------------------------
(* Proleptic Gregorian calendar on integers.  Instants are minutes since     *)
(* 2000-01-01 00:00, days are days since 2000-01-01.                         *)
EXTENDS Integers, Sequences

MinPerDay == 1440
DayOf(t) == t \div MinPerDay                \* TLC's \div rounds down
MinOfDay(t) == t % MinPerDay

\* days from civil date (H. Hinnant's algorithm, shifted to 2000-01-01)
DaysFromCivil(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp  == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 730425

CivilFromDays(n) ==
  LET z   == n + 730425
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      d   == doy - (153 * mp + 2) \div 5 + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN [y |-> y, m |-> m, d |-> d]

Civil(t) == CivilFromDays(DayOf(t))
YearOf(t) == Civil(t).y
MonthOf(t) == Civil(t).m
\* month number counted through the years
MonthIdx(t) == LET c == Civil(t) IN c.y * 12 + c.m - 1
IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysInMonth(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                       [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                       [] OTHER -> 31
FirstOfMonth(t) == LET c == Civil(t) IN DaysFromCivil(c.y, c.m, 1) * MinPerDay
NextMonth(t) == LET c == Civil(t)
                IN (IF c.m = 12 THEN DaysFromCivil(c.y + 1, 1, 1) ELSE DaysFromCivil(c.y, c.m + 1, 1)) * MinPerDay
NextYear(t) == DaysFromCivil(YearOf(t) + 1, 1, 1) * MinPerDay
NextDay(t) == (DayOf(t) + 1) * MinPerDay

\* ---- run time axis -------------------------------------------------------
\* end of run from the configured end: a date-only end means the last step of that day
EffectiveEnd(end, dateonly, step) == IF dateonly /\ step < MinPerDay THEN end + MinPerDay - step ELSE end
AxisValid(start, end, step) == start <= end /\ (end - start) % step = 0
NumDates(start, end, step) == (end - start) \div step + 1
DateAt(start, step, k) == start + (k - 1) * step       \* k-th date, k = 1, 2, ...

\* ---- calendar flags of one time step (k-th of n, at t) --------------------
Flags(t, step, k, n) ==
  LET p  == t - step
      q  == t + step
      sfd == DayOf(p) # DayOf(t)
      sfm == MonthIdx(p) # MonthIdx(t)
      sfy == YearOf(p) # YearOf(t)
      sld == DayOf(q) # DayOf(t)
      slm == MonthIdx(q) # MonthIdx(t)
      sly == YearOf(q) # YearOf(t)
      fr == k = 1
      lr == k = n
  IN [first_of_run |-> fr, last_of_run |-> lr,
      strict_first_of_day |-> sfd, strict_first_of_month |-> sfm, strict_first_of_year |-> sfy,
      strict_last_of_day |-> sld, strict_last_of_month |-> slm, strict_last_of_year |-> sly,
      first_of_day |-> sfd \/ fr, first_of_month |-> sfm \/ fr, first_of_year |-> sfy \/ fr,
      last_of_day |-> sld \/ lr, last_of_month |-> slm \/ lr, last_of_year |-> sly \/ lr]
=============================================================================
