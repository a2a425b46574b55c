"""C23: temperature-index melt of real runs (class transitions configured away)."""
from snowlib import *

a = args()
rnd = random.Random(a.seed * 1000 + 23)
words = read_words(a)
rnd.shuffle(words)
ROWS, COLS = 3, 8
PER = ROWS * COLS
out = Out(a.out / "t.ndjson")
jobs = []
for j in range(24 if a.quick else 140):
    jobs.append((j, ("temperature_index", "enhanced_temperature_index")[j % 2], rnd.choice([60, 180, 360, 720, 1440, 1440, 30]),
                 rnd.choice([2., 4.5, 6., 10.]), rnd.choice([.05, .2, .4]), rnd.choice([273.15, 273.15, 272., 275.3]),
                 rnd.randrange(10 ** 9)))
for j, method, step, ddf, af, thr, seed in mine(jobs, a):
    r2 = random.Random(seed)
    case = f"{method}/{j}/{step}"
    ws = [r2.choice(words) + r2.choice(words) + r2.choice(words) for _ in range(PER)]
    holds = [[r2.choice([1, 2, 3, 5]) for _ in w] for w in ws]
    fn0, _ = field(ws, holds, r2, step / 60, ROWS, COLS)
    salt = r2.randrange(97)

    def fn(i, d, r, c_, fn0=fn0, salt=salt, thr=thr):
        q = fn0(i, d, r, c_)
        g = (np.arange(r * c_).reshape(r, c_) * 5 + i * 11 + salt) % 13
        t = np.array(q["temp"], dtype=float)
        # exactly at, and as little as possible above or below the threshold
        t[g == 0], t[g == 1], t[g == 2] = thr, np.nextafter(thr, 400.), np.nextafter(thr, 0.)
        t[g == 3] = thr + .2
        return {**q, "temp": t}
    n = 22
    start = r2.choice([mins(2020, 5, 10), mins(2020, 4, 3, 9), mins(2020, 6, 2), mins(2020, 1, 29, 20)])
    c = Case(a.out / f"c{j}", dem=np.full((ROWS, COLS), 2000.0), rasters={"svf": np.ones((ROWS, COLS))})
    melt = {"method": method, "degree_day_factor": ddf, "threshold_temp": thr}
    if method.startswith("enh"):
        melt["albedo_factor"] = af
    snow = {"model": "cryolayers", "melt": melt, "cryolayers": {"transition": {"old_snow": 5000., "firn": 10, "ice": 5000.}}}
    err, ice0 = "", []
    try:
        m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), {"snow": snow}))
        m.initialize(meteo_callback=meteo_callback_from(fn))
        mask = m.grid.roi
        pick = np.arange(PER).reshape(ROWS, COLS)
        for lay, bit, dens in ((0, 1, 150.), (1, 2, 350.), (2, 4, 600.), (3, 8, 5000.)):
            mass = np.where(pick % 16 & bit > 0, 1. + 7. * ((pick * 7) % 5), 0.)
            m.state.snow.ice_content[lay][mask] = mass[mask]
            m.state.snow.thickness[lay][mask] = mass[mask] / dens
            m.state.snow.density[lay][mask] = np.where(mass > 0, dens, np.nan)[mask]
            m.state.snow.layer_albedo[lay][mask] = np.where(mass > 0, .6, np.nan)[mask]
        ice0 = layers(m, "ice_content", M, mask)
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="setup", case=case, error=err, step=step, cells=PER, ddf=fx(ddf, 1000), af=fx(af, 10000), thr=fx(thr, TK),
        enhanced=method.startswith("enh"), ice=ice0)
    if err:
        continue
    for i in range(n):
        try:
            m.run_single()
            e = ""
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        out(ev="step", case=case, error=e, ice=layers(m, "ice_content", M, mask), melt=ints(arr(m, "snow.melt")[mask], M),
            snowf=ints(arr(m, "meteo.snowfall")[mask], M), tair=ints(arr(m, "meteo.temp")[mask], TK),
            above=[bool(x > thr) for x in arr(m, "meteo.temp")[mask]],
            surf=ints(arr(m, "surface.albedo")[mask], 10000), sw=ints(arr(m, "meteo.sw_in")[mask], 10))
        if e:
            break
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
