"""C14: evapotranspiration and soil water of real runs."""
from snowlib import *
import oalib

a = args()
rnd = random.Random(a.seed * 1000 + 14)
words = [json.loads(x)["w"] for x in open(Path(a.work) / "soilwords.ndjson")]
rnd.shuffle(words)
ROWS, COLS = 3, 8
N = ROWS * COLS
W5 = 100_000


def P(kind, plant, cycles, kc, height, depth, p, scale=True, sparse=0, maxint=0.):
    kc = kc or (0, 0, 0)
    return dict(kind=kind, plant=plant, cycles=cycles, ini=fx(kc[0], 1e6), mid=fx(kc[1], 1e6), end=fx(kc[2], 1e6), scale=scale,
                height=fx(height, 1000), depth=fx(depth, 1000), p=fx(p, 1000), sparse=fx(sparse, 1e6), maxint=fx(maxint, W5))


DEF = {1: P("water", 1, [[0, 183, 0, 183]], (1.25, .65, 1.25), 0, 0, 0),
       2: P("sealed", 1, [[0, 0, 0, 0]], None, 1.9, 0, 0, maxint=.935),
       4: P("dual", 60, [[10, 20, 210, 30]], (.3, .9, .8), .225, .5, .6),
       5: P("dual", 1, [[0, 0, 366, 0]], (.95, .95, .95), 26, 1.25, .7, scale=False),
       6: P("dual", 60, [[20, 70, 120, 60]], (.5, 1.05, .6), 24.8, 2.05, .5, scale=False),
       8: P("dual", 120, [[30, 40, 50, 25]], (.15, 1.10, .25), 2, 1.35, .55),
       10: P("dual", 1, [[0, 0, 366, 0]], (1.2, 1.2, 1.2), 3, .5, .5, sparse=.25)}


def weather(sym, rnd, h):
    j = rnd.uniform(-1, 1)
    return {"sun": (290 + 5 * j, 0, 45, 2 + j, .9), "hot": (303 + 4 * j, 0, 20, 6 + 2 * j, 1.),
            "rain": (281 + 3 * j, (2 + j) * h, 92, 2, .4), "pour": (283 + 3 * j, (14 + 8 * j) * h, 97, 3, .2),
            "snow": (268 + 2 * j, (2 + j) * h, 95, 2, .3), "shower": (288 + 4 * j, (.4 + .3 * j) * h, 70, 3, .7)}[sym]


out = Out(a.out / "t.ndjson")
jobs = []
for j in range(28 if a.quick else 140):
    jobs.append((j, rnd.choice([60, 180, 1440, 1440, 360]), rnd.choice([2, 2, 4, 1]), rnd.choice([45, 45, 70, 30]),
                 rnd.choice([125, 125, 100, 150]), rnd.choice([0, 0, .06]), rnd.randrange(10 ** 9)))
for j, step, u, rh, ze, gap, seed in mine(jobs, a):
    r2 = random.Random(seed)
    doy0 = r2.choice([58, 100, 118, 150, 185, 238, 268, 300])
    # class 9 with several cutting cycles, class 13 with one coefficient, 14 shallow roots, 15 small sealed store
    par = {**DEF,
           9: P("dual", doy0 - 3, [[1, 3, 2, 2], [1, 2, 3, 2], [0, 4, 0, 3]], (.3, 1.1, .45), .4, r2.choice([.05, .1]), .5),
           13: P("single", doy0 - 5, [[2, 10, 10, 5]], (.4, 1.0, .44), .5, r2.choice([.05, .2]), .6),
           14: P("dual", 1, [[0, 0, 366, 0]], (.8, .8, .8), .3, .03, .6, scale=False),
           16: P("dual", doy0 - 4, [[2, 4, 12, 20]], (.2, r2.choice([.6, 1.1]), .5), r2.choice([.3, 5.]), .4, .5, sparse=r2.choice([.05, .3, .6, 1.])),
           15: P("sealed", 1, [[0, 0, 0, 0]], None, .5, 0, 0, maxint=.2)}
    classes = {}
    for k in (9, 13, 14, 15, 16):
        p = par[k]
        cyc = p["cycles"]
        if p["kind"] == "sealed":
            classes[k] = dict(is_sealed=True, max_sealed_interception=p["maxint"] / W5, max_height=p["height"] / 1000,
                              depletion_fraction=float("nan"), rooting_depth=float("nan"))
        else:
            classes[k] = dict(crop_coefficient_type=p["kind"], crop_coefficients=[p["ini"] / 1e6, p["mid"] / 1e6, p["end"] / 1e6],
                              plant_date=p["plant"], growth_stage_lengths=cyc[0] if len(cyc) == 1 else cyc,
                              max_height=p["height"] / 1000, rooting_depth=p["depth"] / 1000, depletion_fraction=p["p"] / 1000,
                              scale_height=p["scale"])
            if p["sparse"]:
                classes[k] |= dict(is_sparse=True, sparse_vegetation_fraction=p["sparse"] / 1e6)
    case = f"{j}/{step}/{doy0}"
    cls = [r2.choice(list(par)) for _ in range(N)]
    soil = [r2.randint(1, 9) for _ in range(N)]
    n = 30
    seqs = []
    h = min(step / 60, 8)
    for _ in range(N):
        s = []
        while len(s) < n:
            for sym in r2.choice(words):
                v = weather(sym, r2, h)
                s += [v] * r2.choice([1, 1, 2, 4])
        seqs.append(s[:n])
    arrw = np.array(seqs, dtype=float)
    for v in range(5):
        arrw[..., v][np.array([[r2.random() < gap for _ in range(n)] for _ in range(N)])] = np.nan

    def fn(i, d, r, c):
        v = arrw[:, i, :].reshape(ROWS, COLS, 5)
        return dict(temp=v[..., 0], precip=v[..., 1], rel_hum=v[..., 2], wind_speed=v[..., 3], cloud_factor=v[..., 4],
                    cloud_fraction=1 - v[..., 4])
    start = mins(2021, 1, 1, r2.choice([0, 0, 9])) + (doy0 - 1) * 1440
    oalib.CRS = f"+proj=tmerc +lat_0={r2.choice([47, 47, 20, -35, 72, -60])} +lon_0=10 +datum=WGS84 +units=m"
    c = Case(a.out / f"c{j}", dem=np.full((ROWS, COLS), 900.0),
             rasters={"svf": np.ones((ROWS, COLS)), "lc": np.array(cls).reshape(ROWS, COLS), "soil": np.array(soil).reshape(ROWS, COLS)})
    over = {"snow": {"model": ("multilayer", "cryolayers")[j % 2]}, "reset_state_variables": bool(j % 3 == 0),
            "canopy": {"enabled": bool(j % 4 == 2)},
            "evapotranspiration": {"enabled": True, "mean_wind_speed": float(u), "mean_min_humidity": float(rh),
                                   "surface_soil_layer_evaporation_depth": ze / 1000},
            "land_cover": {"classes": classes}}
    err, m = "", None
    ET = "evapotranspiration."
    g = lambda v, sc=W5: ints(arr(m, v), sc)  # noqa: E731
    try:
        m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), over))
        m.initialize(meteo_callback=meteo_callback_from(fn))
        st = dict(de=g(ET + "cum_soil_surface_depletion"), dr=g(ET + "cum_root_zone_depletion"), si=g(ET + "sealed_interception"))
    except Exception as e:  # noqa: BLE001
        err, st = errname(e), {}
    out(ev="setup", case=case, error=err, cells=N, step=step, u=u, rh=rh, ze=ze, kmin=175000, cls=[str(x) for x in cls], soil=soil,
        params={str(k): v for k, v in par.items()}, lat=0 if err else fx(m.grid.center_lat, 1000), **st)
    if err:
        continue
    for i in range(n):
        e = ""
        try:
            m.run_single()
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        if e:
            out(ev="step", case=case, error=e)
            break
        t = from_minutes(start + i * step)
        out(ev="step", case=case, error="", doy=t.timetuple().tm_yday, decl=fx(m.sun_params["declination_angle"], 1000), snow=[bool(x > 0) for x in arr(m, "snow.swe").ravel()],
            rain=g("meteo.rainfall"), et0=g(ET + "et_ref"), kcb=g(ET + "basal_crop_coeff", 1e6), kc=g(ET + "crop_coeff", 1e6),
            height=g("land_cover.plant_height", 1000), e=g(ET + "evaporation"), t=g(ET + "transpiration"),
            et=g(ET + "evapotranspiration"), dr=g(ET + "cum_root_zone_depletion"), de=g(ET + "cum_soil_surface_depletion"),
            dp=g(ET + "deep_percolation"), dpe=g(ET + "deep_percolation_evaporation_layer"), si=g(ET + "sealed_interception"))
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
