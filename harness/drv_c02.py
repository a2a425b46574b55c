"""C02: calendar flags at every step of real runs."""
from oalib import *

a = args()
rnd = random.Random(a.seed)
STEPS = [10, 15, 30, 60, 120, 180, 240, 300, 360, 420, 480, 660, 720, 1020, 1440]
YEARS = [1999, 2000, 2019, 2020, 2021, 2023, 2024]
cases = []
# a year of daily steps, years' and months' ends at finer steps, runs starting/ending anywhere
for y in (2019, 2020):
    cases.append((mins(y - 1, 12, 30), 1440, 369))
    cases.append((mins(y, 1, 1, 6), 1440, 366))
for i, st in enumerate(STEPS):
    for rep in range(3 if a.quick else 12):
        y = rnd.choice(YEARS)
        mo = rnd.choice([1, 2, 2, 3, 4, 12, 12, 6, 9])
        nm = mins(y + (mo == 12), mo % 12 + 1, 1)
        start = nm - rnd.randrange(1, 60) * st + rnd.choice([0, 0, 10 * rnd.randrange(0, 6)])
        if rep == 0:
            start = nm - 3 * st
        if rep == 1:
            start = mins(y, mo, 1)
        n = rnd.choice([1, 2, 5, 61, 80, 100])
        if rep == 0:
            n = 70
        cases.append((start, st, n))
# steps of days to more than a year: the same day of the month, the same month, may come next
for days in (2, 5, 27, 28, 29, 30, 31, 59, 61, 91, 92, 365, 366, 730, 731):
    for rep in range(1 if a.quick else 6):
        y = rnd.choice(YEARS)
        cases.append((mins(y, rnd.choice([1, 2, 3, 7, 12]), rnd.choice([1, 1, 28, 15])) + rnd.choice([0, 60, 1430]), days * 1440, rnd.choice([6, 14])))
if not a.quick:
    for y in (2020, 2023):
        cases.append((mins(y, 1, 1), 60, 8784))
        cases.append((mins(y, 1, 1, 5), 420, 1260))
out = Out(a.out / "t.ndjson")
c = Case(a.out / "case", dem=[[1800.0]], rasters={"svf": [[1.0]]})
cb = meteo_callback_from(const_meteo())
FIELDS = ["first_of_run", "strict_first_of_year", "strict_first_of_month", "strict_first_of_day", "first_of_year",
          "first_of_month", "first_of_day", "last_of_run", "strict_last_of_year", "strict_last_of_month",
          "strict_last_of_day", "last_of_year", "last_of_month", "last_of_day"]
for i, (start, step, n) in mine(list(enumerate(cases)), a):
    case = f"{stamp(start)}/{step}/{n}"
    end = start + (n - 1) * step
    m = new_model(c.config(stamp(start), stamp(end), step_str(step), {"snow": {"model": "cryolayers", "melt": {
        "method": "temperature_index", "degree_day_factor": 5.0}}, "output_data": {"timeseries": {"write_freq": step_str(step * 7)}}}))
    m.initialize(meteo_callback=cb)
    out(ev="setup", case=case, start=start, end=end, step=step)
    for _ in range(n):
        m.run_single()
        p = m.timestep_props
        out(ev="flags", case=case, date=minutes(m.date), flags={f: bool(getattr(p, f, None)) for f in FIELDS
                                                               if getattr(p, f, None) is not None})
out.close()
