"""C18: source of cloudiness and radiation in runs on stations with gaps."""
from oalib import *

a = args()
rnd = random.Random(a.seed * 1000 + 18)
words = [json.loads(x) for x in open(Path(a.work) / "clouds.ndjson")]
rnd.shuffle(words)
M = 10000
out = Out(a.out / "t.ndjson")
ROWS, COLS = 3, 4
SEASON = {"winter": [(2020, 12, 3), (2021, 1, 15)], "equinox": [(2021, 3, 15), (2020, 9, 18), (2020, 3, 30)], "summer": [(2020, 6, 1), (2021, 7, 8)]}
NIGHT = {"winter": (435, 1050), "equinox": (330, 1155), "summer": (230, 1250)}
DAY = {"winter": (525, 960), "equinox": (435, 1050), "summer": (310, 1170)}


def es(t):
    t = t - 273.15
    A, B, C = (610.78, 17.08, 234.18) if t >= 0 else (610.71, 22.44, 272.44)
    return A * math.exp(B * t / (C + t))


def dew(t, rh):
    q = math.log(rh / 100.) + 17.08 * (t - 273.15) / (234.18 + t - 273.15)
    return 234.18 * q / (17.08 - q) + 273.15


def clear_emissivity(t, rh):
    """Prata (1996); independent of the code under test"""
    w = 46.5 * es(t) * rh / 100. / 100. / t
    return 1 - (1 + w) * math.exp(-math.sqrt(1.2 + 3 * w))


def level(p):
    k = 1004.68506 * .02896968 / 8.314462618
    return (1 - (p * 100 / 101325) ** (1 / k)) * 1004.68506 * 288.15 / 9.80665


def job(j, kind, seed):
    r = random.Random(seed)
    season = r.choice(list(SEASON))
    step = r.choice([60, 60, 120, 180, 360, 1440])
    tz = r.choice([None, None, 1, 0, 3, -5])
    shift = 0 if tz is None else 60 * (1 - tz)
    start = mins(*r.choice(SEASON[season])) + r.choice([0, 0, 6, 12]) * 60
    n = 30
    w0 = r.choice(words)
    conf = w0["c"]
    offers = {True: [], False: []}
    for w in [w0] + [r.choice(words) for _ in range(60)]:
        for o in w["w"]:
            offers[o["sun"]].append(o)
    r.shuffle(offers[True]), r.shuffle(offers[False])
    dem = 1500 + 10. * np.arange(ROWS * COLS).reshape(ROWS, COLS) if r.random() < .5 else default_dem(ROWS, COLS)
    roi = np.array([[r.random() < .7 for _ in range(COLS)] for _ in range(ROWS)])
    roi[1, 1] = True
    roi[0, 3] = False
    ext = r.random() < .35
    rasters = {"svf": np.ones((ROWS, COLS))}
    c = Case(a.out / f"c{j}", dem=dem, roi=roi, rasters=rasters)
    E = 3
    if ext:
        big = np.pad(dem, E, mode="edge")
        write_asc(c.grids / f"extended-dem_{c.domain}_{c.res}.asc", big, c.res, X0 - E * c.res, Y0 - E * c.res)
        write_asc(c.grids / f"extended-svf_{c.domain}_{c.res}.asc", np.ones(big.shape), c.res, X0 - E * c.res, Y0 - E * c.res)
    # stations: inside the region, inside the grid only, outside
    spots = []
    inside = [(y, x) for y in range(ROWS) for x in range(COLS) if roi[y, x]]
    off = [(y, x) for y in range(ROWS) for x in range(COLS) if not roi[y, x]]
    if r.random() < .85:
        spots += r.sample(inside, min(len(inside), r.randint(1, 2)))
    if r.random() < .6 or not spots:
        spots += r.sample(off, 1)
    if r.random() < .5:
        spots.append(r.choice([(-2, 1), (ROWS + 1, 0), (1, COLS + 1)]))
    if r.random() < (.6 if ext else .2):   # beyond every raster, in one direction or both
        spots.append(r.choice([(-20, 30), (-20, 1), (ROWS + 20, 2), (1, -20), (0, COLS + 20), (-4, 1), (1, COLS + 3)]))
    dates = pd.DatetimeIndex([from_minutes(start + k * step) for k in range(n)])
    S = range(len(spots))
    V = ("temp", "rel_hum", "wind_speed", "precip", "sw_in", "cloud_fraction")
    data = [{v: [] for v in V} for _ in S]
    q = {True: 0, False: 0}
    gap = r.random() < .5
    for k in range(n):
        clock = (start + k * step + shift) % 1440
        day = DAY[season][0] <= clock <= DAY[season][1]
        o = offers[day][q[day] % len(offers[day])]
        q[day] += 1
        have = {}
        for f in ("cover", "rad", "hum"):
            have[f] = set(r.sample(list(S), r.randint(1, len(spots)))) if o[f] else set()
        if not o["rad"] and r.random() < .5:   # measured, but only where it is of no use
            have["rad"] = {s for s in S if spots[s] not in inside and r.random() < .8}
        for s in S:
            d = data[s]
            hum = s in have["hum"] or not gap and len(have["hum"]) > 0
            t, h = (True, True) if hum else r.choice([(True, False), (False, True), (False, False)])
            d["temp"].append(r.choice([255., 268.4, 272.9, 274., 281.5, 291.]) if t else float("nan"))
            d["rel_hum"].append(r.choice([12., 35., 60., 80., 97., 100.]) if h else float("nan"))
            d["wind_speed"].append(2.)
            d["precip"].append(0.)
            d["sw_in"].append((r.choice([0., 5., 40., 150., 300., 700., 1200.]) if day else r.choice([0., 0., 3.])) if s in have["rad"] else float("nan"))
            d["cloud_fraction"].append(r.choice([0., 10., 37., 50., 88., 100.]) if s in have["cover"] else float("nan"))
    emis = r.choice([.976, .976, .95, 1.])
    if kind == "given":
        conf = dict(conf, method="humidity")
    ci = {"method": conf["method"], "clear_sky_fraction_night_method": conf["night"], "allow_fallback": conf["fallback"]}
    sat, ef, pl = .832, 58.4, 700
    if r.random() < .3:
        sat, ef, pl = r.choice([.7, .95]), r.choice([50., 66.]), r.choice([650, 750])
        ci.update(saturation_cloud_fraction=sat, e_folding_humidity=ef, pressure_level=pl)
    lt = [round(r.uniform(-.008, 0), 4) for _ in range(12)]
    ltd = [round(r.uniform(-.008, 0), 4) for _ in range(12)]
    over = {"timezone": 1, "meteo": {"interpolation": {"cloudiness": ci, "temperature": {"lapse_rate": lt, "trend_method": "fixed"}, "humidity": {"lapse_rate": ltd}},
                                     "radiation": {"cloud_emissivity": emis}},
            "input_data": {"meteo": {"bounds": r.choice(["global", "grid"])}}, "reset_state_variables": r.random() < .3}
    if tz is not None:
        over["simulation_timezone"] = tz
    if r.random() < .4:
        over["snow"] = {"model": "cryolayers"}
    err = ""
    try:
        if kind == "given":
            m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), over))
            gf = np.array([[[r.choice([0., .2, .352, .5, .8, 1.]) for _ in range(COLS)] for _ in range(ROWS)] for _ in range(n)])
            gt = np.array([[[r.choice([255., 272., 280., float("nan") if gap else 270.]) for _ in range(COLS)] for _ in range(ROWS)] for _ in range(n)])
            m.initialize(meteo_callback=meteo_callback_from(lambda i, d, *_: dict(
                temp=gt[i], precip=0., rel_hum=70., wind_speed=2., cloud_factor=gf[i], cloud_fraction=np.where(gf[i] <= .352, 1., .2))))
        else:
            m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), over, fmt="memory"))
            alts = [float(dem[y, x]) if 0 <= y < ROWS and 0 <= x < COLS else 1700. for y, x in spots]
            dsets = [station_dataset(f"s{s}", dates, *c.xy(*spots[s]), alts[s], data[s]) for s in S]
            m.initialize(meteo=oa.forcing.combine_point_datasets(dsets))
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    mask = roi
    case = f"clouds/{j}/{kind}/{conf['method']}/{conf['night']}/{int(conf['fallback'])}" + ("/ext" if ext else "")
    out(ev="setup", case=case, error=err, kind=kind, conf=conf, cells=int(mask.sum()), season=season, sat=fx(sat, M), efold=fx(ef, 100), emis=fx(emis, 1000))
    if err:
        return
    for k in range(n):
        e = ""
        known = [bool(x_) for x_ in np.isfinite(m.state.surface.temp[mask])]
        try:
            m.run_single()
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        if e:
            out(ev="step", case=case, error=e)
            break
        s = m.state.meteo
        cover, ratio, hum = [], [], []
        mon = dates[k].month - 1
        for i in S if kind == "stations" else ():
            y, x = spots[i]
            d = {v: data[i][v][k] for v in V}
            cover.append(fx(d["cloud_fraction"], 100))
            th = d["temp"] == d["temp"] and d["rel_hum"] == d["rel_hum"]
            if th:
                dz = alts[i] - level(pl)
                hum.append(fx(100 * es(dew(d["temp"], d["rel_hum"]) - ltd[mon] * dz) / es(d["temp"] - lt[mon] * dz), 100))
            else:
                hum.append(NANV)
            v = NANV
            if d["sw_in"] == d["sw_in"]:
                if 0 <= y < ROWS and 0 <= x < COLS:
                    cs = float(s.sw_in_clearsky[y, x])
                    if cs > 0:
                        v = min(fx(d["sw_in"] / cs, M), 10 ** 8)
                elif ext and -E <= y < ROWS + E and -E <= x < COLS + E and th:
                    v = -2
            ratio.append(v)
        tt, hh = np.asarray(s.temp, dtype=float)[mask], np.asarray(s.rel_hum, dtype=float)[mask]
        eclear = [fx(clear_emissivity(x_, y_), M) if x_ == x_ and y_ == y_ else NANV for x_, y_ in zip(tt, hh)]
        g = lambda f, sc: [fx(q_, sc) for q_ in np.asarray(s[f], dtype=float)[mask]]  # noqa: E731
        out(ev="step", case=case, error="", sun=bool(m.sun_params["sun_over_horizon"]), clock=int((start + k * step + shift) % 1440),
            eclear=eclear, known=known, cover=cover, ratio=ratio, hum=hum, given=[fx(q_, M) for q_ in gf[k][mask]] if kind == "given" else [],
            factor=g("cloud_factor", M), fraction=g("cloud_fraction", M), clear=g("sw_in_clearsky", M), dir=g("dir_in_clearsky", M),
            diff=g("diff_in_clearsky", M), sw=g("sw_in", M), lw=g("lw_in", 100), temp=g("temp", 100), rh=g("rel_hum", 100))
    shutil.rmtree(c.dir, ignore_errors=True)


jobs = [(j, "given" if j % 8 == 7 else "stations", rnd.randrange(10 ** 9)) for j in range(72 if a.quick else 500)]
for jj in mine(jobs, a):
    job(*jj)
out.close()
