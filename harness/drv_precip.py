"""C09: phase and corrections of precipitation in real runs."""
from oalib import *

a = args()
rnd = random.Random(a.seed * 1000 + 9)
TK, M = 1000, 10000
out = Out(a.out / "t.ndjson")
pats = {}
for line in open(Path(a.work) / "precip.ndjson"):
    p = json.loads(line)
    pats.setdefault((p["range"], p["enforce"]), []).append(p["off"])
ROWS, COLS = 3, 6


def grid_jobs():
    j = 0
    for (rng, enf), offs in sorted(pats.items()):
        for method in ("temp", "wet_bulb_temp"):
            for rep in range(2 if a.quick else 10):
                yield j, rng / 1000., enf, method, offs, rnd.randrange(10 ** 9)
                j += 1


def ints(v, s):
    return [fx(x, s) for x in np.asarray(v).ravel()]


for j, rng, enf, method, offs, seed in mine(list(grid_jobs()), a):
    r2 = random.Random(seed)
    thr = r2.choice([273.65, 273.65, 274.15, 272.3])
    n = 16 if a.quick else 40
    # elevations repeat so that several cells lie at the rain limit
    dem = np.array([[r2.choice([800., 1500., 1500., 2100., 3000.]) for _ in range(COLS)] for _ in range(ROWS)])
    srf = np.array([[r2.choice([0., .5, 1., 1.8, 3.]) for _ in range(COLS)] for _ in range(ROWS)])
    use_srf = r2.random() < .4
    c = Case(a.out / f"g{j}", dem=dem, rasters={"svf": np.ones((ROWS, COLS)), "srf": srf})
    case = f"grid/{j}/{method}/{rng}/{enf}/{use_srf}"
    req = {}

    def fn(i, date, rows, cols, r2=r2, thr=thr, offs=offs, method=method, dem=dem, req=req):
        flat = []
        sel = r2.random()
        while len(flat) < rows * cols:
            flat += r2.choice(offs)
        off = np.array(flat[:rows * cols], dtype=float).reshape(rows, cols) / 1000.
        t = thr + off
        if sel < .3:      # lapse-rate field with an inversion
            t = thr + 6. - .0065 * (dem - 800.) * r2.choice([1., -.4, .3])
        rh = np.array([[r2.choice([30., 65., 100., 97.]) for _ in range(cols)] for _ in range(rows)])
        if method == "wet_bulb_temp" and sel >= .3:
            rh[:] = 100.
            rh[0, 0] = 40.
        p = np.array([[r2.choice([0., .1, 2.3456, 12.5, 40.]) for _ in range(cols)] for _ in range(rows)])
        req.update(p=p)
        return dict(temp=t, rel_hum=rh, precip=p, wind_speed=2., cloud_factor=.5, cloud_fraction=.5)

    err = ""
    try:
        cfg = c.config("2020-01-01 00:00", stamp(mins(2020, 1, 1) + 60 * (n - 1)), "h", {
            "meteo": {"precipitation_phase": {"method": method, "threshold_temp": thr, "temp_range": rng,
                                              "enforce_no_snow_below_rain": enf},
                      "precipitation_correction": [{"method": "srf"}] if use_srf else []}})
        m = new_model(cfg)
        m.initialize(meteo_callback=meteo_callback_from(fn))
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="setup", case=case, error=err, method=method, thr=fx(thr, TK), range=fx(rng, TK), enforce=enf,
        dem=ints(dem, 10), srf=ints(srf, 1000) if use_srf else [1000] * (ROWS * COLS))
    if err:
        continue
    for i in range(n):
        e = ""
        try:
            m.run_single()
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        s = m.state.meteo
        out(ev="step", case=case, error=e, temp=ints(s.temp, TK), wet=ints(s.wet_bulb_temp, TK), dew=ints(s.dew_point_temp, TK),
            pin=ints(req["p"], M), snow=ints(s.snowfall, M), rain=ints(s.rainfall, M), prec=ints(s.precip, M))
        if e:
            break
    shutil.rmtree(c.dir, ignore_errors=True)

# station corrections
CORR = [[("scf", 1.3)], [("scf", .7)], [("scf", 1.)]]
CORR += [[("wmo", g)] for g in ("nipher", "tretyakov", "us_sh", "us_unsh", "hellmann")]
CORR += [[("koch", g)] for g in ("us_un", "all_sa", "nor_sa", "us_sa", "us_da", "us_bda", "us_sdfir")]
CORR += [[("scf", 1.2), ("wmo", "hellmann")], [("wmo", "us_sh"), ("scf", 1.5)], [("scf", 1.1), ("scf", 1.4)], []]
FULL = {"scf": "constant_scf", "wmo": "wmo", "koch": "kochendorfer"}
jobs = []
for rep in range(1 if a.quick else 4):
    for ci, corr in enumerate(CORR):
        jobs.append((f"{rep}.{ci}", corr, ("temp", "wet_bulb_temp")[(ci + rep) % 2], rnd.randrange(10 ** 9)))
for j, corr, method, seed in mine(jobs, a):
    r2 = random.Random(seed)
    thr, rng = r2.choice([(273.65, 1.), (273.15, 0.), (274., 3.)] if corr and corr[0][0] != "wmo" else [(273.65, 2.), (274., 3.)])
    combos = [(t, w) for t in (thr - 12, thr - 2., thr - .7, thr - .3, thr, thr + .4, thr + .8, thr + 1.4, thr + 8)
              for w in (0., .5, 2., 4.7, 9.5, 14., float("nan"))]
    r2.shuffle(combos)
    n = len(combos)
    z0 = r2.choice([2e-3, 5e-4, 1e-2])
    hw = r2.choice([10., 10., 5.])
    dates = pd.date_range("2020-01-01", periods=n, freq="h")
    c = Case(a.out / f"s{j}", dem=np.full((2, 2), 1800.), rasters={"svf": np.ones((2, 2))})
    case = f"station/{j}/{method}/" + "+".join(f"{k}:{v}" for k, v in corr)
    temp = np.array([t for t, _ in combos])
    wind = np.array([w for _, w in combos])
    rh = np.array([r2.choice([70., 90., 100., 100.]) for _ in range(n)])
    prec = np.array([r2.choice([0., .2, 1.5, 8., 8., 30., 30., 30., float("nan")]) for _ in range(n)])
    two = r2.random() < .4
    if two:      # a second station without precipitation and wind supplies the missing temperatures
        miss = np.array([r2.random() < .4 for _ in range(n)])
        dsets = [station_dataset("a", dates, *c.xy(0, 0), 1800., dict(temp=np.where(miss, np.nan, temp), rel_hum=rh, wind_speed=wind, precip=prec,
                                                                   sw_in=np.full(n, np.nan))),
                 station_dataset("b", dates, *c.xy(1, 1), 1800., dict(temp=np.where(miss, temp, np.nan), rel_hum=np.where(miss, rh, np.nan),
                                                                   wind_speed=np.full(n, np.nan), precip=np.full(n, np.nan), sw_in=np.full(n, np.nan)))]
    else:
        dsets = [station_dataset("a", dates, *c.xy(0, 0), 1800., dict(temp=temp, rel_hum=rh, wind_speed=wind, precip=prec, sw_in=np.full(n, np.nan)))]
    err = ""
    try:
        cfg = c.config("2020-01-01 00:00", stamp(mins(2020, 1, 1) + 60 * (n - 1)), "h", {
            "snow": {"roughness_length": z0},
            "meteo": {"precipitation_phase": {"method": method, "threshold_temp": thr, "temp_range": rng},
                      "measurement_height": {"wind": hw},
                      "precipitation_correction": [{"method": FULL[k], ("scf" if k == "scf" else "gauge"): v} for k, v in corr]}}, fmt="memory")
        m = new_model(cfg)
        m.initialize(meteo=oa.forcing.combine_point_datasets(dsets))
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="setup", case=case, error=err, method=method, thr=fx(thr, TK), range=fx(rng, TK), enforce=False,
        corr=[dict(m=k, scf=fx(v, 1000)) if k == "scf" else dict(m=k, g=v) for k, v in corr])
    if err:
        continue
    k = math.log(2. / z0) / math.log(hw / z0)
    for i in range(n):
        e = ""
        try:
            m.run_single()
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        s = m.state.meteo
        tp = temp[i] if method == "temp" else s.wet_bulb_temp[0, 0]
        out(ev="station", case=case, error=e, raw=fx(prec[i], M), got=fx(m.meteo.precip.sel(station="a").values[i], M),
            cell=fx(s.precip[0, 1], M), t=fx(temp[i], TK), tp=fx(tp, TK), w=fx(wind[i], 1000), wg=fx(wind[i] * k, 1000))
        if e:
            break
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
