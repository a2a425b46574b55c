"""C12: class transitions of the cryospheric layer model."""
from snowlib import *

a = args()
rnd = random.Random(a.seed * 1000 + 12)
words = read_words(a)
rnd.shuffle(words)
ROWS, COLS = 3, 8
PER = ROWS * COLS


def rec(m, mask):
    return dict(ice=layers(m, "ice_content", M, mask), liq=layers(m, "liquid_water_content", M, mask),
                th=layers(m, "thickness", TH, mask), dens=layers(m, "density", 100, mask))


out = Out(a.out / "t.ndjson")
jobs = []
for j in range(28 if a.quick else 120):
    fm = rnd.choice([10, 10, 1, 3, 7, 12])
    step = rnd.choice([60, 180, 360, 720, 1440, 1440])
    n = 26
    y = rnd.choice([2019, 2020])
    first = mins(y, fm, 1)
    # start before the transition month, exactly at it, or within it
    start = first - rnd.choice([0, 1, 3, 9, 15]) * step + rnd.choice([0, 0, 0, step // 2 if step > 60 else 0])
    thr = rnd.choice([200., 200., 150., 260.])
    method = rnd.choice([{}, {"method": "temperature_index", "degree_day_factor": 5.}])
    jobs.append((j, fm, step, n, start, thr, rnd.choice([900., 900., 850.]), method, rnd.randrange(10 ** 9)))
for j, fm, step, n, start, thr, ithr, method, seed in mine(jobs, a):
    r2 = random.Random(seed)
    case = f"cryo/{j}/{stamp(start)}/{step}/{fm}"
    ws = [r2.choice(words) + r2.choice(words) + r2.choice(words) for _ in range(PER)]
    holds = [[r2.choice([1, 2, 3, 5]) for _ in w] for w in ws]
    fn, _ = field(ws, holds, r2, min(step / 60, 6), ROWS, COLS)
    c = Case(a.out / f"c{j}", dem=np.full((ROWS, COLS), 2000.0), rasters={"svf": np.ones((ROWS, COLS))})
    snow = {"model": "cryolayers", "melt": method, "cryolayers": {"transition": {"old_snow": thr, "firn": fm, "ice": ithr}}}
    err = ""
    try:
        m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), {"snow": snow}))
        m.initialize(meteo_callback=meteo_callback_from(fn))
        mask = m.grid.roi
        s = m.state.snow
        # start from packs with all combinations of classes
        pick = np.arange(PER).reshape(ROWS, COLS)
        for lay, bit, dens in ((0, 1, thr - 40), (1, 2, 350.), (2, 4, None), (3, 8, ithr)):
            d = np.full((ROWS, COLS), dens if dens else 0.)
            if dens is None:
                d = np.where(pick % 3 == 0, ithr - .05, np.where(pick % 3 == 1, 600., ithr - 3))
            mass = np.where(pick % 16 & bit > 0, 20. + 60. * ((pick * 7) % 5), 0.)
            s.ice_content[lay][mask] = mass[mask]
            s.thickness[lay][mask] = (mass / d)[mask]
            s.density[lay][mask] = np.where(mass > 0, d, np.nan)[mask]
            s.layer_albedo[lay][mask] = np.where(mass > 0, .6, np.nan)[mask]
        r0 = rec(m, mask)
    except Exception as e:  # noqa: BLE001
        err, r0 = errname(e), dict(ice=[], liq=[], th=[], dens=[])
    out(ev="setup", case=case, error=err, step=step, cells=PER, firn=fm, old=fx(thr, 100), icethr=fx(ithr, 100), **r0)
    if err:
        continue
    pre = {}
    upd = getattr(m.snow, "update_layers", None)
    if upd is not None:
        def hook(*args_, _u=upd, **kw):
            pre["v"] = rec(m, mask)
            return _u(*args_, **kw)
        m.snow.update_layers = hook
    for i in range(n):
        pre.clear()
        try:
            m.run_single()
            e = ""
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        out(ev="step", case=case, error=e, t=start + i * step, **rec(m, mask), **({"pre": pre["v"]} if "v" in pre else {}))
        if e:
            break
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
