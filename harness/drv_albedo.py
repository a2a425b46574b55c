"""C22: snow albedo of real runs."""
from snowlib import *

a = args()
rnd = random.Random(a.seed * 1000 + 22)
words = read_words(a)
rnd.shuffle(words)
ROWS, COLS = 3, 8
PER = ROWS * COLS


def rec(m, mask, cryo):
    d = dict(alb=ints(arr(m, "snow.albedo")[mask], AL), surf=ints(arr(m, "surface.albedo")[mask], AL),
             tsurf=ints(arr(m, "surface.temp")[mask], TK), tair=ints(arr(m, "meteo.temp")[mask], TK),
             subl=ints(arr(m, "snow.sublimation")[mask], 1e8),
             snowf=ints(arr(m, "meteo.snowfall")[mask], M), equal=[bool(x == AMT) for x in arr(m, "meteo.snowfall")[mask]], nl=[int(x) for x in arr(m, "snow.num_layers")[mask]],
             thin=[bool(0 < x <= 2e-6) for x in arr(m, "snow.depth")[mask]])
    if cryo:
        d["la"] = layers(m, "layer_albedo", AL, mask)
        d["has"] = [[bool(x > 0) for x in v[mask]] for v in arr(m, "snow.thickness")]
    return d


AMT = -1.
out = Out(a.out / "t.ndjson")
jobs = []
for j in range(30 if a.quick else 150):
    alb = {"min": rnd.choice([.55, .5, .6]), "max": rnd.choice([.85, .9]), "refresh_snowfall": rnd.choice([.5, .5, 2.]),
           "refresh_method": ("binary", "continuous")[j % 2],
           "decay_timescale_determination_temperature": ("surface", "air")[(j // 2) % 2],
           "cold_snow_decay_timescale": rnd.choice([480, 480, 100]), "melting_snow_decay_timescale": rnd.choice([200, 30])}
    jobs.append((j, alb, ("multilayer", "multilayer", "cryolayers")[j % 3], rnd.choice([60, 60, 180, 30, 360, 1440]),
                 rnd.random() < .7, rnd.choice([0, 0, .1]), rnd.randrange(10 ** 9)))
for j, alb, model, step, single, scf, seed in mine(jobs, a):
    r2 = random.Random(seed)
    cryo = model == "cryolayers"
    AMT = alb["refresh_snowfall"] * step / 60 if step in (30, 60) else -1.
    case = f"{model}/{j}/{alb['refresh_method']}/{alb['decay_timescale_determination_temperature']}/{step}"
    ws = [r2.choice(words) + r2.choice(words) + r2.choice(words) for _ in range(PER)]
    holds = [[r2.choice([1, 2, 3, 5]) for _ in w] for w in ws]
    # mostly light snowfall around the refresh amount
    fn, _ = field(ws, holds, r2, step / 60 * r2.choice([.3, .5, 1]), ROWS, COLS)
    n = 24
    hit = alb["refresh_method"] == "binary" and step in (30, 60)     # amounts that are exact in binary
    if hit:
        fn0, amt = fn, alb["refresh_snowfall"] * step / 60

        def fn(i, d, r, c):
            f = fn0(i, d, r, c)
            k = np.random.default_rng([seed, i]).random((ROWS, COLS))
            f["precip"] = np.where((f["temp"] < 268) & (f["precip"] > 0) & (k < .4), amt, f["precip"])
            return f
    start = r2.choice([mins(2020, 1, 10), mins(2020, 4, 3, 9), mins(2020, 11, 2), mins(2020, 9, 29, 20)])
    c = Case(a.out / f"c{j}", dem=np.full((ROWS, COLS), 2000.0), rasters={"svf": np.ones((ROWS, COLS))})
    snow = {"model": model, "albedo": alb, "snow_cover_fraction_depth_scale": scf,
            "cryolayers": {"use_single_snow_albedo": single}}
    err, r0 = "", {}
    try:
        m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), {"snow": snow}))
        m.initialize(meteo_callback=meteo_callback_from(fn))
        mask = m.grid.roi
        if cryo:
            pick = np.arange(PER).reshape(ROWS, COLS)
            for lay, bit, dens, la in ((2, 1, 600., alb["min"]), (3, 2, 900., .2)):
                mass = np.where(pick % 4 & bit > 0, 300., 0.)
                m.state.snow.ice_content[lay][mask] = mass[mask]
                m.state.snow.thickness[lay][mask] = mass[mask] / dens
                m.state.snow.density[lay][mask] = np.where(mass > 0, dens, np.nan)[mask]
        r0 = rec(m, mask, cryo)
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    soil = m.config.soil.albedo if not err else 0
    out(ev="setup", case=case, error=err, model=model, step=step, cells=PER, min=fx(alb["min"], AL), max=fx(alb["max"], AL),
        cold=alb["cold_snow_decay_timescale"], melting=alb["melting_snow_decay_timescale"],
        refresh=fx(alb["refresh_snowfall"], M), method=alb["refresh_method"],
        temp=alb["decay_timescale_determination_temperature"], single=single, scf=fx(scf, TH), soil=fx(soil, AL),
        firn=400000, ice=200000, **r0)
    if err:
        continue
    fm = 10
    for i in range(n):
        try:
            m.run_single()
            e = ""
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        t, tp = from_minutes(start + i * step), from_minutes(start + (i - 1) * step)
        out(ev="step", case=case, error=e, trans=bool(i > 0 and t.month == fm and tp.month != fm), **rec(m, mask, cryo))
        if e:
            break
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
