"""C30: the atmosphere's demand for water in real runs."""
from snowlib import *
import oalib

a = args()
rnd = random.Random(a.seed * 1000 + 30)
ROWS, COLS = 3, 7
N = ROWS * COLS
W5 = 100_000
ET = "evapotranspiration."
KIND = {0: "none", 1: "water", 2: "sealed", 4: "grass", 5: "forest", 15: "sealed", 16: "sealed", 99: "none"}

out = Out(a.out / "t.ndjson")
jobs = [(j, rnd.choice([60, 60, 30, 180, 360, 1440]), rnd.randrange(10 ** 9)) for j in range(35 if a.quick else 200)]
for j, step, seed in mine(jobs, a):
    r2 = random.Random(seed)
    doy0 = r2.choice([1, 58, 100, 150, 172, 238, 300, 355])
    case = f"{j}/{step}/{doy0}"
    cls = [r2.choice([0, 1, 2, 4, 5, 15, 15, 16, 2]) for _ in range(N)]
    hts = {2: 1.9, 15: r2.choice([.05, .5]), 16: r2.choice([1., 2.5])}
    zw, zt = r2.choice([(10, 2), (2, 2), (5, 3), (10, 10), (3, 2)])
    if zt - hts[16] * 2 / 3 < .4 or zw == 2:
        hts[16] = 1.
    classes = {k: dict(is_sealed=True, max_sealed_interception=r2.choice([.2, 2., 30.]), max_height=hts[k],
                       depletion_fraction=float("nan"), rooting_depth=float("nan")) for k in (15, 16)}
    galb, gem, salb, sem = r2.choice([(230, 985, 400, 920), (230, 985, 400, 920), (100, 950, 300, 1000), (250, 1000, 0, 900)])
    n = r2.choice([20, 30, 45])
    gap = r2.choice([0, 0, .05])
    # weather: persistent spells per cell
    arrw = np.zeros((N, n, 5))
    base_t = r2.choice([262, 275, 285, 295])
    for k in range(N):
        i = 0
        while i < n:
            hold = r2.choice([1, 2, 5, 9])
            wet = r2.random() < .25
            v = (base_t + r2.uniform(-8, 14), r2.choice([.02, .4, 3]) if wet else 0, r2.choice([8, 25, 50, 75, 95, 100]),
                 r2.choice([.1, .5, 1.5, 3, 8, 25]), r2.choice([0, .3, .8, 1]))
            arrw[k, i:i + hold] = v
            i += hold
    for v in range(5):
        arrw[..., v][np.array([[r2.random() < gap for _ in range(n)] for _ in range(N)])] = np.nan

    def fn(i, d, r, c):
        v = arrw[:, i, :].reshape(ROWS, COLS, 5)
        return dict(temp=v[..., 0], precip=v[..., 1], rel_hum=v[..., 2], wind_speed=v[..., 3], cloud_factor=v[..., 4],
                    cloud_fraction=1 - v[..., 4])
    start = mins(2022, 1, 1, r2.choice([0, 6, 9, 15])) + (doy0 - 1) * 1440
    lat = r2.choice([47, 47, 10, -35, 70])
    oalib.CRS = f"+proj=tmerc +lat_0={lat} +lon_0=15 +datum=WGS84 +units=m"
    dem = np.array([[r2.choice([0., 300., 1500., 3800.]) for _ in range(COLS)] for _ in range(ROWS)]) if j % 3 else np.full((ROWS, COLS), 500.)
    c = Case(a.out / f"c{j}", dem=dem,
             rasters={"svf": np.ones((ROWS, COLS)), "lc": np.array(cls).reshape(ROWS, COLS), "soil": np.full((ROWS, COLS), 4)})
    over = {"snow": {"model": ("multilayer", "cryolayers")[j % 2]}, "reset_state_variables": bool(j % 3 == 0),
            "canopy": {"enabled": bool(j % 4 == 2)},
            "meteo": {"measurement_height": {"wind": zw, "temperature": zt}},
            "evapotranspiration": {"enabled": True, "grass_albedo": galb / 1000, "grass_emissivity": gem / 1000,
                                   "sealed_albedo": salb / 1000, "sealed_emissivity": sem / 1000},
            "land_cover": {"classes": classes}}
    err, m = "", None
    g = lambda v, sc=W5: ints(arr(m, v), sc)  # noqa: E731
    try:
        m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), over))
        m.initialize(meteo_callback=meteo_callback_from(fn))
        st = dict(si=g(ET + "sealed_interception"))
    except Exception as e:  # noqa: BLE001
        err, st = errname(e), {}
    out(ev="setup", case=case, error=err, cells=N, step=step, kind=[KIND[x] for x in cls], zw=zw * 1000, zt=zt * 1000,
        height=[fx(hts.get(x, 0), 1000) for x in cls], galb=galb * 1000, gemis=gem * 1000, salb=salb * 1000, semis=sem * 1000, **st)
    if err:
        continue
    for i in range(n):
        e = ""
        try:
            m.run_single()
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        if e:
            out(ev="step", case=case, error=e)
            break
        out(ev="step", case=case, error="", up=bool(m.sun_params["sun_over_horizon"]), snow=[bool(x > 0) for x in arr(m, "snow.swe").ravel()],
            rain=g("meteo.rainfall"), sw=g("meteo.top_canopy_sw_in", 100), lw=g("meteo.top_canopy_lw_in", 100),
            t=g("meteo.top_canopy_temp", 1000), u=g("meteo.top_canopy_wind_speed", 1000), psy=g("meteo.psych_const", 1000),
            sat=g("meteo.sat_vap_press", 100), vap=g("meteo.vap_press", 100), rn=g(ET + "ref_net_radiation", 100),
            g=g(ET + "soil_heat_flux", 100), et0=g(ET + "et_ref"), e=g(ET + "evaporation"), si=g(ET + "sealed_interception"))
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
