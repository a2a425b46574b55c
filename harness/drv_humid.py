"""C26: derived meteorological variables, from the functions of meteo.atmosphere and in real runs."""
import json
from snowlib import *
from openamundsen import meteo as om
from openamundsen.meteo import atmosphere as at

a = args()
rnd = random.Random(a.seed * 1000 + 26)
words = [json.loads(x) for x in open(Path(a.work) / "humid.ndjson")]
rnd.shuffle(words)
out = Out(a.out / "h.ndjson")
E2, Q7, P0 = 100, 1e7, 1


def derived(d):
    """Scaled words of one set of arrays (dictionary of equally long vectors)."""
    sc = dict(t=TK, rh=1e4, z=1e2, p=P0, es=E2, e=E2, q=Q7, cp=1e3, lat=1, psy=1e4, twb=TK, td=TK, pw=1e4, rho=1e5, ah=1e7, rhb=1e4,
              rhd=1e4, zb=1e2, esw=E2, esi=E2)
    return {k: ints(np.asarray(v, dtype=float).ravel(), sc[k]) for k, v in d.items()}


def air(tt, rr, zz):
    p = at.atmospheric_pressure(zz)
    e = at.vapor_pressure(tt, rr)
    q = at.specific_humidity(p, e)
    cp, lat = at.specific_heat_capacity_moist_air(q), at.latent_heat_of_vaporization(tt)
    psy = at.psychrometric_constant(p, cp, lat)
    ah = at.absolute_humidity(tt, e)
    td = at.dew_point_temperature(tt, rr)
    return dict(t=tt, rh=rr, z=zz, p=p, es=at.saturation_vapor_pressure(tt), e=e, q=q, cp=cp, lat=lat, psy=psy,
                twb=at.wet_bulb_temperature(tt, rr, e, psy), td=td,
                pw=at.precipitable_water(tt, e), rho=at.dry_air_density(tt, p), ah=ah, rhb=at.relative_humidity(tt, ah),
                rhd=at.relative_humidity_from_dew_point_temperature(tt, td), zb=at.pressure_to_altitude(p),
                esw=at.saturation_vapor_pressure(tt, over="water"), esi=at.saturation_vapor_pressure(tt, over="ice"))


PERL = 24
# ---- functions ---------------------------------------------------------------
if a.part in ("-", "fn", None, ""):
    ws = words if not a.quick else words[:1200]
    chunks = [ws[i:i + PERL] for i in range(0, len(ws), PERL)]
    for j, ch in mine(list(enumerate(chunks)), a):
        rg = np.random.default_rng(a.seed * 100000 + j)
        n = len(ch)
        t = (np.array([w["t"] for w in ch]) + rg.integers(-700, 700, n)) / 1000
        t = np.where(rg.random(n) < .08, 273.15, t)
        rh = np.clip(np.array([w["rh"] for w in ch]) + rg.choice([0, -3.5, 2.25], n), 1, 100)
        z = np.round(np.array([w["z"] for w in ch]) / 100 + rg.uniform(-150, 150, n), 2)
        nan_t, nan_r = rg.random(n) < .06, rg.random(n) < .06
        t, rh = np.where(nan_t, np.nan, t), np.where(nan_r, np.nan, rh)
        err, d = "", {}
        form = ("row", "grid", "column", "scalar", "integer")[j % 5]
        if form == "integer":
            t = np.where(np.isnan(t), 281, np.round(t)).astype(int)
        shape = dict(grid=(2, n // 2), column=(n, 1)).get(form, (n,)) if n % 2 == 0 else (n,)
        tt, rr, zz = t.reshape(shape), rh.reshape(shape), z.reshape(shape)
        keep = [x.copy() for x in (tt, rr, zz)]
        try:
            if form == "scalar":
                ds = [air(float(x), float(y), float(w)) for x, y, w in zip(t, rh, z)]
                d = {k: [x[k] for x in ds] for k in ds[0]}
            else:
                d = air(tt, rr, zz)
            same = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(keep, (tt, rr, zz)))
        except Exception as ex:  # noqa: BLE001
            err, same = errname(ex), True
        out(ev="air", case=f"fn/{j}/{form}", error=err, untouched=bool(same), n=n, own=True, **derived(d))
    # precipitation phase, wind
    for j in [x for x, _ in mine(list(enumerate(range(40 if a.quick else 200))), a)]:
        rg = np.random.default_rng(a.seed * 70000 + j)
        thr, width = round(273.15 + rg.integers(-200, 300) / 100, 2), float(rg.choice([0, 0, .5, 2, 4, 1]))
        t = np.round(thr + rg.uniform(-3, 3, 24), 3)
        t[:3] = [thr, thr - width / 2, thr + width / 2]
        fr = np.asarray(at.precipitation_phase(t, threshold_temp=thr, temp_range=width))
        out(ev="phase", case=f"phase/{j}", t=ints(t, TK), thr=fx(thr, TK), width=fx(width, TK), frac=ints(fr, 1e6))
        k = rg.integers(0, 24, 24)
        v = np.round(rg.choice([0., .1, 1., 4.5, 17.3], 24) * 1.0, 3)
        u_, v_ = at.wind_to_uv(v, k * 15.)
        s, dr = at.wind_from_uv(u_, v_)
        s2, d2 = at.wind_from_uv(-v * np.sin(np.deg2rad(k * 15. + 360)), -v * np.cos(np.deg2rad(k * 15. - 360)))
        z0, h, r = rg.choice([.001, .005, .01, .03], 24), rg.choice([1.5, 2., 5., 10., 20., .5], 24), rg.choice([2., 10., 5.], 24)
        lw = at.log_wind_profile(v, r, h, z0)
        out(ev="wind", case=f"wind/{j}", k=[int(x) for x in k], v=ints(v, 1e3), u=ints(u_, 1e5), w=ints(v_, 1e5), s=ints(s, 1e5), d=ints(dr, 1e3),
            s2=ints(s2, 1e5), d2=ints(d2, 1e3), hr=ints(h / z0, 1e3), rr=ints(r / z0, 1e3), lw=ints(lw, 1e5))
# ---- runs --------------------------------------------------------------------
ROWS, COLS = 4, 6
for j in [x for x, _ in mine(list(enumerate(range(16 if a.quick else 80))), a)]:
    r2 = random.Random(a.seed * 31 + j * 7919)
    rg = np.random.default_rng(r2.randrange(10 ** 9))
    ws = [r2.choice(words) for _ in range(ROWS * COLS)]
    dem = np.array([w["z"] / 100 for w in ws]).reshape(ROWS, COLS).round(1)
    roi = np.where(rg.random((ROWS, COLS)) < .15, 0., 1.)
    step = r2.choice([60, 180, 1440])
    c = Case(a.out / f"c{j}", dem=dem, roi=roi, rasters={"svf": np.ones((ROWS, COLS))})
    seq = []
    for i in range(4):
        t = 233.15 + rg.integers(0, 75000, (ROWS, COLS)) / 1000
        rh = rg.choice([3., 20., 55.5, 83., 97., 100.], (ROWS, COLS))
        seq.append((np.where(rg.random((ROWS, COLS)) < .05, np.nan, t), np.where(rg.random((ROWS, COLS)) < .05, np.nan, rh)))

    def fn(i, d, r, cc):
        f = const_meteo()(i, d, r, cc).copy()
        f["temp"], f["rel_hum"] = seq[i]
        return f
    err = ""
    try:
        m = new_model(c.config(stamp(mins(2020, 3, 1)), stamp(mins(2020, 3, 1) + 3 * step), step_str(step),
                               {"snow": {"model": r2.choice(["multilayer", "cryolayers"])}}))
        m.initialize(meteo_callback=meteo_callback_from(fn))
        ok = m.grid.roi
        for i in range(4):
            m.run_single()
            s = m.state.meteo
            d = dict(t=seq[i][0][ok], rh=seq[i][1][ok], z=dem[ok], p=s.atmos_press[ok], es=s.sat_vap_press[ok], e=s.vap_press[ok],
                     q=s.spec_hum[ok], cp=s.spec_heat_cap_moist_air[ok], lat=s.lat_heat_vap[ok], psy=s.psych_const[ok], twb=s.wet_bulb_temp[ok],
                     td=s.dew_point_temp[ok], pw=s.precipitable_water[ok], rho=s.dry_air_density[ok])
            out(ev="air", case=f"run/{j}/{i}", error="", untouched=bool(np.array_equal(s.temp[ok], seq[i][0][ok], equal_nan=True)), n=int(ok.sum()),
                own=False, **derived(d))
    except Exception as ex:  # noqa: BLE001
        err = errname(ex)
        out(ev="air", case=f"run/{j}", error=err, untouched=True, n=0, own=False, t=[])
out.close()
