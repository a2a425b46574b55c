"""C10/C11: snowpack of real runs, every cell under its own weather word."""
from snowlib import *

a = args()
rnd = random.Random(a.seed * 1000 + 10)
words = read_words(a)
rnd.shuffle(words)
ROWS, COLS = 5, 8
PER = ROWS * COLS
batches = [words[i:i + PER] for i in range(0, len(words) - PER + 1, PER)]
rounds = 3 if a.quick else 11
STARTS = [mins(2020, 1, 10), mins(2020, 4, 20, 6), mins(2019, 9, 29, 12), mins(2021, 7, 1)]
out = Out(a.out / "t.ndjson")
jobs = []
for rd in range(rounds):
    for bi, b in enumerate(batches):
        jobs.append((rd, bi, b, CONFIGS[(bi + rd * 3) % len(CONFIGS)], rnd.choice(STARTS), rnd.randrange(10 ** 9)))
for rd, bi, b, (cname, snow, step), start, seed in mine(jobs, a):
    r2 = random.Random(seed)
    case = f"{cname}/{rd}.{bi}"
    # a second word follows so that words start from the packs that other words left
    ws = [w + words[r2.randrange(len(words))] for w in b]
    holds = [[r2.choice([1, 1, 2, 3, 5]) for _ in w] for w in ws]
    if step >= 720:
        holds = [[min(h, 3) for h in hs] for hs in holds]
    fn, n = field(ws, holds, r2, step / 60, ROWS, COLS, nan_precip=0.03 if bi % 3 == 0 else 0)
    n = min(n, 24 if a.quick else 40)
    dem = np.full((ROWS, COLS), 2000.0)
    c = Case(a.out / case.replace("/", "_"), dem=dem, rasters={"svf": np.ones((ROWS, COLS))})
    cfg = c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), {"snow": snow})
    err = ""
    try:
        m = new_model(cfg)
        m.initialize(meteo_callback=meteo_callback_from(fn))
        mask = m.grid.roi
        if snow["model"] == "cryolayers" and bi % 2 == 0:
            # some cells lie on a glacier
            ice = np.zeros((ROWS, COLS))
            ice.ravel()[::3] = [r2.choice([.5, 5., 300., 8000.]) for _ in range(len(ice.ravel()[::3]))]
            m.state.snow.thickness[3][mask] = ice[mask] / 900.
            m.state.snow.ice_content[3][mask] = ice[mask]
            m.state.snow.density[3][mask] = 900.
        rec = record(m, mask)
        mt = [fx(x, TH) for x in m.config.snow.min_thickness]
        lw = m.config.snow.liquid_water_content
    except Exception as e:  # noqa: BLE001
        err, rec, mt, lw = errname(e), {}, [], None
    out(ev="setup", case=case, error=err, model=snow["model"], step=step, cells=PER, mint=mt,
        lwcmethod=lw.method if lw else "", lwcmax=fx(lw.max, 10000) if lw else 0,
        scf=fx(snow.get("snow_cover_fraction_depth_scale", 0.), TH),
        ice=rec.get("ice", []), liq=rec.get("liq", []))
    if err:
        continue
    for _ in range(n):
        try:
            m.run_single()
            e = ""
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        out(ev="step", case=case, error=e, **record(m, mask))
        if e:
            break
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
