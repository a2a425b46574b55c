"""C08: interpolated meteorological fields of real runs on station networks."""
from oalib import *

a = args()
rnd = random.Random(a.seed * 1000 + 8)
layouts = [json.loads(x)["st"] for x in open(Path(a.work) / "interp.ndjson")]
rnd.shuffle(layouts)
out = Out(a.out / "t.ndjson")
ROWS, COLS, RES = 3, 4, 100
CA, CB, CC = 610.78, 17.08, 234.18  # saturation vapour pressure over water (Magnus)


def es(t):
    return CA * np.exp(CB * (t - 273.15) / (CC + t - 273.15))


def dew(t, rh):
    with np.errstate(divide="ignore", invalid="ignore"):
        q = np.log(es(t) * rh / 100. / CA)
        return CC * q / (CB - q) + 273.15


MONTHS = [(2020, 1, 31, 21), (2020, 2, 29, 22), (2019, 12, 31, 20), (2020, 6, 30, 21), (2021, 8, 31, 23), (2020, 10, 15, 0)]
CFG = {"temp": "temperature", "precip": "precipitation", "dew": "humidity", "wind_speed": "wind"}
SCALE = {"temp": 100, "precip": 100, "dew": 100, "wind_speed": 100}


def job(j, layout, seed):
    r = random.Random(seed)
    case = f"interp/{j}" + ("/model" if layout else "")
    dem = np.array([[10. * r.choice([100, 100, 130, 150, 170, 220, 260]) for _ in range(COLS)] for _ in range(ROWS)])
    roi = np.array([[r.random() < .75 for _ in range(COLS)] for _ in range(ROWS)], dtype=float)
    roi[0, 0] = 1
    sts = []
    if layout:
        for s in layout:
            sts.append(dict(x=s["x"] + 5, y=s["y"] + 5, z=s["z"], base=s["d"]))
    else:
        n = r.choice([1, 1, 2, 2, 3, 4, 5, 6])
        level = r.random() < .15
        z0 = r.choice([100, 150, 200])
        zs = [100, 120, 150, 170, 200, 250, 300]
        r.shuffle(zs)
        used = set()
        for k in range(n):
            while True:
                x, y = r.choice([(5 + 10 * r.randrange(COLS), 5 + 10 * r.randrange(ROWS)), (r.randrange(-40, 90), r.randrange(-40, 80))])
                if (x, y) not in used:
                    break
            used.add((x, y))
            z = z0 if level else zs[k] if r.random() < .85 else zs[0]
            sts.append(dict(x=x, y=y, z=z, base=None))
    # co-located stations of the cell's own elevation
    for s in sts:
        ci, ri = (s["x"] - 5) // 10, ROWS - 1 - (s["y"] - 5) // 10
        if (s["x"] - 5) % 10 == 0 and (s["y"] - 5) % 10 == 0 and 0 <= ci < COLS and 0 <= ri < ROWS and r.random() < .6:
            dem[ri, ci] = 10. * s["z"]
    n_t = 6
    start = r.choice(MONTHS)
    start = mins(*start)
    step = r.choice([60, 60, 180, 360])
    dates = pd.DatetimeIndex([from_minutes(start + k * step) for k in range(n_t)])
    gap = r.choice([0, .15, .3, .6])
    lin = r.random() < .2
    data, dsets = [], []
    for s in sts:
        d = {}
        b = s["base"]
        for v, gen in (("temp", lambda: 27000 + (b if b is not None and b > NANV else r.randrange(-1500, 1500)) - (8 * (s["z"] - 150) if lin else 0)),
                       ("precip", lambda: r.choice([0, 0, 30, 120, 500, 1500, 37])),
                       ("rel_hum", lambda: r.choice([2000, 4500, 7000, 8000, 9100, 10000])),
                       ("wind_speed", lambda: r.choice([0, 5, 100, 250, 800, 2000])),
                       ("sw_in", lambda: 10000)):
            vals = [gen() for _ in range(n_t)]
            if lin and v == "temp":
                vals = [27000 - 8 * (s["z"] - 150) + 10 * k for k in range(n_t)]
            vals = [NANV if r.random() < gap or (b == NANV and v != "sw_in") else q for q in vals]
            d[v] = vals
        data.append(d)
        dsets.append(station_dataset(f"s{len(dsets)}", dates, X0 + 10 * s["x"], Y0 + 10 * s["y"], 10. * s["z"],
                                     {k: [float("nan") if q == NANV else q / 100 for q in w] for k, w in d.items()}))
    conf, over = {}, {}
    for p, key in CFG.items():
        ms = {"temp": ["regression", "fixed"], "precip": ["regression", "fractional", "adjustment_factor"],
              "dew": ["regression", "fixed"], "wind_speed": ["regression", "fixed"]}[p]
        m = r.choice(ms)
        lap = [r.randrange(5, 40) for _ in range(12)] if p == "precip" else [r.randrange(-700, 100) for _ in range(12)]
        if p == "wind_speed":
            lap = [r.randrange(-60, 200) for _ in range(12)]
        ex = r.random() < .6
        o = dict(trend_method=m, extrapolate=ex, lapse_rate=[q / 1e5 for q in lap])
        seg = 1
        if p in ("temp", "dew") and r.random() < .25:
            seg = r.choice([2, 3])
            o["regression_params"] = {"max_segments": seg, "min_points_per_segment": r.choice([2, 3, 4])}
        over[key] = o
        conf[p] = dict(method=m, lapses=lap, extrapolate=ex, segments=seg if m == "regression" else 1,
                       minpts=o.get("regression_params", {}).get("min_points_per_segment", 4),
                       lo={"temp": 0, "precip": 0, "dew": -FIX_MAX, "wind_speed": 100}[p], hi=FIX_MAX,
                       inexact=p == "dew", tol=12 if p == "dew" else 0)
    c = Case(a.out / f"c{j}", dem=dem, roi=roi, rasters={"svf": np.ones((ROWS, COLS))})
    err, cells = "", []
    try:
        m = new_model(c.config(stamp(start), stamp(start + (n_t - 1) * step), step_str(step),
                               {"meteo": {"interpolation": over}}, fmt="memory"))
        m.initialize(meteo=oa.forcing.combine_point_datasets(dsets))
        mask = roi.astype(bool)
        for ri, ci in np.argwhere(mask):
            cells.append(dict(x=5 + 10 * int(ci), y=5 + 10 * (ROWS - 1 - int(ri)), z=int(dem[ri, ci] / 10)))
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="setup", case=case, error=err, st=[dict(x=s["x"], y=s["y"], z=s["z"]) for s in sts], cells=cells, conf=conf)
    if err:
        return
    for k in range(n_t):
        try:
            m.run_single()
            e = ""
        except Exception as ex_:  # noqa: BLE001
            e = errname(ex_)
        s = m.state.meteo
        tair, rh = np.array(s.temp[mask], dtype=float), np.array(s.rel_hum[mask], dtype=float)
        # stations with both temperature and humidity take part in the humidity interpolation
        st_td = []
        ok = [i for i, d in enumerate(data) if d["temp"][k] != NANV and d["rel_hum"][k] != NANV]
        for i, d in enumerate(data):
            st_td.append(fx(dew(d["temp"][k] / 100, d["rel_hum"][k] / 100), 100) if i in ok else NANV)
        rhs = [data[i]["rel_hum"][k] / 100 for i in ok]
        lo = dew(tair, min(rhs)) if rhs else tair
        hi = dew(tair, max(rhs)) if rhs else tair
        out(ev="step", case=case, error=e, month=int(dates[k].month),
            d={**{p: [d[p][k] for d in data] for p in ("temp", "precip", "wind_speed")}, "dew": st_td},
            f={**{p: [fx(x, 1000) for x in s[p][mask]] for p in ("temp", "precip", "wind_speed")},
               "dew": [fx(x, 1000) for x in dew(tair, rh)]},
            tair=[fx(x, 1000) for x in tair], rh=[fx(x, 1000) for x in rh],
            tdlo=[fx(x, 1000) for x in lo], tdhi=[fx(x, 1000) for x in hi])
        if e:
            break
    shutil.rmtree(c.dir, ignore_errors=True)


jobs = [(f"m{i}", lay, rnd.randrange(10 ** 9)) for i, lay in enumerate(layouts[:40 if a.quick else 200])]
jobs += [(f"r{i}", None, rnd.randrange(10 ** 9)) for i in range(100 if a.quick else 600)]
for jb in mine(jobs, a):
    job(*jb)
out.close()
