"""C13: canopy interception and below-canopy weather of real runs."""
from snowlib import *

a = args()
rnd = random.Random(a.seed * 1000 + 13)
words = read_words(a)
rnd.shuffle(words)
ROWS, COLS = 3, 8
PAIRS = ROWS * COLS // 2
DEF = {5: dict(min=38000, max=51000, add=32000, plant=1, cycles=[[0, 0, 366, 0]]),
       6: dict(min=5000, max=44000, add=19000, plant=60, cycles=[[20, 70, 120, 60]])}


def over_of(p):
    cyc = p["cycles"]
    return {"leaf_area_index": {"min": p["min"] / 1e4, "max": p["max"] / 1e4, "effective_add": p["add"] / 1e4},
            "plant_date": p["plant"], "growth_stage_lengths": cyc[0] if len(cyc) == 1 else cyc}


out = Out(a.out / "t.ndjson")
jobs = []
for j in range(28 if a.quick else 140):
    jobs.append((j, rnd.choice([60, 180, 1440, 1440, 720, 30, 360]), rnd.choice([44, 44, 20]), rnd.choice([50, 50, 30]),
                 rnd.choice([0, 0, .08]), rnd.choice([0, .05]), rnd.randrange(10 ** 9)))
for j, step, coef, ddf, gap_t, gap_p, seed in mine(jobs, a):
    r2 = random.Random(seed)
    doy0 = r2.choice([10, 62, 85, 140, 268, 300, 320])
    # classes 7 and 8 get steep seasons, several cycles, no leaves
    p7 = dict(min=r2.choice([0, 2000, 20000]), max=r2.choice([30000, 47000]), add=r2.choice([0, 0, 5000]),
              plant=max(doy0 + r2.choice([-4, 0, 2]), 1), cycles=r2.choice([[[0, 3, 2, 3]], [[1, 2, 1, 2], [0, 2, 0, 3]], [[0, 0, 4, 0]]]))
    p8 = dict(min=0, max=r2.choice([0, 20000]), add=0, plant=max(doy0 - 8, 1), cycles=[[2, 2, 4, 3]])
    params = {**DEF, 7: p7, 8: p8}
    cls = [r2.choice([5, 6, 7, 7, 8]) for _ in range(PAIRS)]
    case = f"{j}/{step}/{doy0}"
    ws = [r2.choice(words) + r2.choice(words) + r2.choice(words) for _ in range(PAIRS)]
    holds = [[r2.choice([1, 2, 3, 5]) for _ in w] for w in ws]
    ws2, holds2 = [w for w in ws for _ in (0, 1)], holds
    fn0, _ = field(ws, holds, r2, min(step / 60, 6) * r2.choice([.3, 1]), ROWS, COLS // 2)
    n = 26
    nan_t = np.array([[r2.random() < gap_t for _ in range(PAIRS)] for _ in range(n)])
    nan_p = np.array([[r2.random() < gap_p for _ in range(PAIRS)] for _ in range(n)])
    if gap_t and r2.random() < .5:
        nan_t[:2, :] = True

    def fn(i, d, r, c):
        f = {k: np.array(v) for k, v in fn0(i, d, ROWS, COLS // 2).items()}
        f["temp"][nan_t[i].reshape(ROWS, COLS // 2)] = np.nan
        f["precip"][nan_p[i].reshape(ROWS, COLS // 2)] = np.nan
        return {k: np.repeat(v, 2, axis=1) for k, v in f.items()}
    radius, exposure = r2.choice([500, 500, 400, 800]), r2.choice([10, 10, 25])
    start = mins(2021, 1, 1, r2.choice([0, 0, 9])) + (doy0 - 1) * 1440
    lc = np.zeros((ROWS, COLS))
    forest = np.zeros((ROWS, COLS), bool)
    opn = np.zeros((ROWS, COLS), bool)
    for p in range(PAIRS):
        r_, c_ = divmod(p, COLS // 2)
        lc[r_, 2 * c_] = cls[p]
        lc[r_, 2 * c_ + 1] = r2.choice([4, 0, 2])
        forest[r_, 2 * c_] = opn[r_, 2 * c_ + 1] = True
    c = Case(a.out / f"c{j}", dem=np.full((ROWS, COLS), 1500.0), rasters={"svf": np.ones((ROWS, COLS)), "lc": lc})
    ti = j % 4 == 1
    base = {"snow": {"model": ("multilayer", "cryolayers")[j % 2],
                     **({"melt": {"method": "temperature_index", "degree_day_factor": 5.}} if ti else {})},
            "reset_state_variables": bool(j % 3 == 0)}
    can = {"canopy": {"enabled": True, "max_interception_storage_coefficient": coef / 10, "degree_day_factor": ddf / 10,
                      "spherical_ice_particle_radius": radius * 1e-6, "exposure_coefficient_coefficient": exposure / 1000},
           "land_cover": {"classes": {7: {**over_of(p7), "is_forest": True}, 8: {**over_of(p8), "is_forest": True}}}}
    err, m, ref = "", None, None
    try:
        ms = []
        for cfg in (deep_merge(base, can), base):
            mm = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), cfg))
            mm.initialize(meteo_callback=meteo_callback_from(fn))
            ms.append(mm)
        m, ref = ms
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="setup", case=case, error=err, pairs=PAIRS, step=step, coef=coef, ddf=ddf, rc=8, ext=710, flow=900, radius=radius, exposure=exposure,
        cls=[str(x) for x in cls], params={str(k): v for k, v in params.items()})
    if err:
        continue
    g = lambda v, mask, sc: ints(arr(m, v)[mask], sc)  # noqa: E731
    for i in range(n):
        e = ""
        alb = g("surface.albedo", forest, 1e6)       # of the surface as the last step left it
        try:
            m.run_single()
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        t = from_minutes(start + i * step)
        if e:
            out(ev="step", case=case, error=e)
            break
        ref.run_single()
        inp = fn(i, None, ROWS, COLS)
        same = all(np.array_equal(arr(m, v)[..., opn], arr(ref, v)[..., opn], equal_nan=True)
                   for v in ("meteo.temp", "meteo.rel_hum", "meteo.wind_speed", "meteo.snowfall", "meteo.rainfall", "meteo.precip",
                             # (the radiation of all cells depends on the mean albedo of the region)
                             *(("snow.swe", "snow.thickness", "snow.liquid_water_content", "snow.runoff", "snow.melt") if ti else ())))
        ol = arr(m, "snow.canopy_intercepted_load")[opn]
        w = dict(temp=("meteo.temp", TK), hum=("meteo.rel_hum", 1000), wind=("meteo.wind_speed", 10000), lw=("meteo.lw_in", 100), sw=("meteo.sw_in", 10000))
        mass = dict(snowf="meteo.snowfall", rain="meteo.rainfall", precip="meteo.precip")
        out(ev="step", case=case, error="", doy=t.timetuple().tm_yday,
            lai=g("land_cover.lai_eff", forest, 10000), load=g("snow.canopy_intercepted_load", forest, M),
            icpt=g("snow.canopy_intercepted_snowfall", forest, M), subl=g("snow.canopy_sublimation", forest, M),
            melt=g("snow.canopy_melt", forest, M),
            alb=alb, sat=g("meteo.sat_vap_press", forest, 100),
            f={**{k: g(v, forest, s) for k, (v, s) in w.items()}, **{k: g(v, forest, M) for k, v in mass.items()}},
            top={k: g(v.replace("meteo.", "meteo.top_canopy_"), forest, s) for k, (v, s) in w.items()},
            open={**{k: g(v, opn, s) for k, (v, s) in w.items()}, **{k: g(v, opn, M) for k, v in mass.items()},
                  **{"i" + k: ints(inp[v.split(".")[1]][opn], s) for k, (v, s) in w.items() if k not in ("sw", "lw")},
                  "iprecip": ints(inp["precip"][opn], M)},
            opensame=bool(same), openload=bool(np.all(np.isnan(ol) | (ol == 0))))
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
