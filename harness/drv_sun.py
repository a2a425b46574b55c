"""C29: position of the sun, clear-sky radiation over terrain and incoming longwave radiation of real runs."""
import json
import oalib
from oalib import *
from openamundsen.modules import radiation

a = args()
rnd = random.Random(a.seed * 1000 + 29)
words = [json.loads(x) for x in open(Path(a.work) / "sun.ndjson")]
days = [w for w in words if w["k"] == "day"]
airs = [w for w in words if w["k"] == "air"]
rnd.shuffle(days)
rnd.shuffle(airs)
out = Out(a.out / "s.ndjson")
E6 = 1e6


def ints(v, s):
    return [fx(x, s) for x in np.asarray(v, dtype=float).ravel()]


def sun(p):
    sv = p["sun_vector"]
    return dict(da=fx(np.rad2deg(p["day_angle"]), 1000), eot=fx(p["equation_of_time"], 1e4), dec=fx(p["declination_angle"], 1e4),
                ha=fx(p["hour_angle"], 1000), sv=dict(x=fx(sv[0], E6), y=fx(sv[1], E6), z=fx(sv[2], E6)),
                th=fx(p["zenith_angle"], 1000), up=bool(p["sun_over_horizon"]))


def date_of(doy, minute, r):
    return (pd.Timestamp(2020 if doy == 366 else r.choice([2019, 2020, 2021, 2000, 1900]), 1, 1)
            + pd.Timedelta(days=doy - 1, minutes=minute))


def place(j, w):
    """sun_parameters for a place, a clock and the hour angle of the word"""
    r = random.Random(a.seed * 7919 + j)
    tz = r.choice([-12, -7, -1, 0, 1, 1, 3, 12])
    lon = round(min(180., max(-180., 15 * tz + r.choice([-30, -8.375, 0, 4.5, 29.999]))), 3)
    lat = round(min(90., max(-90., w["lat"] + r.choice([0, .25, -.333]))), 3)
    minute = min(1439, max(0, int(720 + w["ha"] / 250) + r.choice([0, 1, -7, 30])))
    d = date_of(w["doy"], minute, r)
    case, err, rec = f"place/{j}/{w['doy']}/{w['lat']}", "", {}
    try:
        rec = sun(radiation.sun_parameters(r.choice([d, d.to_pydatetime(), str(d)]), lon, lat, tz))
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="sun", case=case, error=err, doy=w["doy"], minute=minute, lon=fx(lon, 1000), lat=fx(lat, 1000), lstm=15000 * tz, **rec)


def job(j):
    r = random.Random(a.seed * 977 + j)
    dw, aw = days[j % len(days)], airs[j % len(airs)]
    rows, cols = r.choice([(3, 4), (4, 3), (4, 4), (3, 3), (1, 1), (2, 5)])
    lat, lon = round(min(78., max(-78., float(dw["lat"]))), 2), round(r.choice([10.3, -70.2, 0.05, 120., 86.9]), 2)
    tz = round(lon / 15) + r.choice([0, 0, 0, 1, -1])
    oalib.CRS = f"+proj=tmerc +lat_0={lat} +lon_0={lon} +x_0={X0} +y_0={Y0} +datum=WGS84 +units=m"
    ctr = to_lonlat(X0 + 50. * cols, Y0 + 50. * rows)
    z0 = aw["z"]
    kind = r.choice(["rough", "rough", "ramp", "flat"])
    rr, cc = np.mgrid[0:rows, 0:cols]
    dem = np.full((rows, cols), float(z0))
    if kind == "rough":
        dem += np.array([[r.choice([0., 15., 40., 90., 130.]) for _ in range(cols)] for _ in range(rows)])
    elif kind == "ramp":
        dem += r.choice([10., 30., -30.]) * rr + r.choice([0., -25., 60.]) * cc
    roi = np.array([[r.random() < .8 for _ in range(cols)] for _ in range(rows)])
    roi[r.randrange(rows), r.randrange(cols)] = True
    svf = np.round(np.array([[r.choice([1., .9, .75, .5]) for _ in range(cols)] for _ in range(rows)]), 3)
    ext = r.random() < .4
    c = Case(a.out / f"m{j}", rows=rows, cols=cols, dem=dem, roi=roi, rasters={"svf": svf})
    P, r0 = 0, 0
    big, bigsvf = dem, svf
    if ext:
        P = r.choice([1, 2, 3])
        r0 = P
        big = np.pad(dem, ((P, P + 1), (P, P)), mode="edge")
        wall = r.choice([0, 0, 150, 400])
        big[:P] += wall * (r.random() < .5)
        big[:, :P] += wall * (r.random() < .5)
        big[:, P + cols:] += wall * (r.random() < .5)
        big[P:P + rows, P:P + cols] = dem
        bigsvf = np.round(np.pad(svf, ((P, P + 1), (P, P)), constant_values=.8), 3)
        write_asc(c.grids / f"extended-dem_syn_{c.res}.asc", big, c.res, X0 - P * c.res, Y0 - (P + 1) * c.res)
        write_asc(c.grids / f"extended-svf_syn_{c.res}.asc", bigsvf, c.res, X0 - P * c.res, Y0 - (P + 1) * c.res)
    down = r.choice([1, 1, 1, 2, 3])
    sweeps = r.choice([1, 1, 2])
    sim = r.choice([None, None, tz + 2, tz - 7])
    par = dict(oz=r.choice([.0035, .0035, .0025, .005]), vis=float(aw["vis"]), ssa=r.choice([.9, .9, .85, .97]), csa=r.choice([.0685, .0685, .0, .15]))
    emis, rock = r.choice([.976, .976, .9, 1.]), r.choice([.01, .01, 0., .02])
    step = r.choice([60, 60, 180])
    NT = 24 * 60 // step
    start = int((date_of(min(dw["doy"], 365), 0, r) - pd.Timestamp(1970, 1, 1)).total_seconds() // 60) + r.choice([0, 17, 30]) * 0
    start = mins(*date_of(min(dw["doy"], 365), 0, random.Random(j)).timetuple()[:3])
    dates = pd.DatetimeIndex([from_minutes(start + k * step) for k in range(NT)])
    # humidity that gives about the water of the word at 275 K
    temp = [r.choice([262., 270., 274.5, 283.]) + 4 * math.sin(k / 4) for k in range(NT)]
    hum = [r.choice([min(100., max(6., aw["w"] / 1e4 * 4)), 60., 95.]) for k in range(NT)]
    snow = r.random() < .5
    prec = [r.choice([0., 0., 3.]) if snow else 0. for _ in range(NT)]
    sw = [r.choice([0., 30., 150., 400., 800.]) for _ in range(NT)]
    st_out = ext and r.random() < .7
    sr, sc = (r.choice([(-1, r.randrange(cols)), (r.randrange(rows), cols), (rows, 0)]) if st_out else (r.randrange(rows), r.randrange(cols)))
    alt = float(big[sr + r0, sc + r0]) if ext else float(dem[sr, sc])
    over = {"timezone": tz, "crs": oalib.CRS, "meteo": {
        "interpolation": {"cloudiness": {"method": "clear_sky_fraction", "clear_sky_fraction_night_method": r.choice(["constant", "humidity"])},
                          "temperature": {"trend_method": "fixed"}},
        "radiation": {"ozone_layer_thickness": par["oz"], "atmospheric_visibility": par["vis"], "single_scattering_albedo": par["ssa"],
                      "clear_sky_albedo": par["csa"], "num_shadow_sweeps": sweeps, "shadows_downsampling_factor": down,
                      "cloud_emissivity": emis, "rock_emission_factor": rock}},
        "input_data": {"meteo": {"bounds": "global"}}, "soil": {"albedo": r.choice([.15, .15, .3])},
        "snow": {"model": r.choice(["multilayer", "cryolayers"])}}
    if sim is not None:
        over["simulation_timezone"] = sim
    shift = 0 if sim is None else 60 * (tz - sim)
    err, mask, rec = "", roi.astype(bool), {}
    case = f"model/{j}/{kind}/{rows}x{cols}" + (f"/ext{P}" if ext else "") + (f"/down{down}" if down > 1 else "")
    try:
        m = new_model(c.config(stamp(start), stamp(start + (NT - 1) * step), step_str(step), over, fmt="memory"))
        x, y = c.xy(sr, sc)
        m.initialize(meteo=oa.forcing.combine_point_datasets([station_dataset("s0", dates, x, y, alt, dict(
            temp=temp, rel_hum=hum, precip=prec, wind_speed=[2.] * NT, sw_in=sw))]))
        b = m.state.base
        nv = b.normal_vec
        rec = dict(cells=[dict(n=dict(x=fx(nv[0][q], E6), y=fx(nv[1][q], E6), z=fx(nv[2][q], E6)), z=fx(dem[q], 10), svf=fx(svf[q], E6),
                               i=((q[0] + r0) // down) * (-(-big.shape[1] // down)) + (q[1] + r0) // down + 1)
                          for q in map(tuple, np.argwhere(mask))])
        st = dict(use=False)
        if st_out:
            ev = m.grid.extended_grid.normal_vec
            q = (sr + r0, sc + r0)
            st = dict(use=True, n=dict(x=fx(ev[0][q], E6), y=fx(ev[1][q], E6), z=fx(ev[2][q], E6)), z=fx(big[q], 10), svf=fx(bigsvf[q], E6),
                      i=(q[0] // down) * (-(-big.shape[1] // down)) + q[1] // down + 1)
        rec["st"] = st
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="setup", case=case, error=err, a=dict(oz=fx(par["oz"], E6), vis=int(par["vis"]), ssa=fx(par["ssa"], 1e4), csa=fx(par["csa"], 1e4)),
        soil=fx(over["soil"]["albedo"], E6), emis=fx(emis, E6), rock=fx(rock, E6), lon=fx(ctr[0], 1000), lat=fx(ctr[1], 1000), lstm=15000 * tz, **rec)
    if err:
        return
    for k in range(NT):
        s = m.state
        pre = dict(alb=ints(s.surface.albedo[mask], E6), ts=ints(s.surface.temp[mask], 1000), bare=[bool(x_ == 0) for x_ in s.snow.swe[mask]])
        try:
            m.run_single()
        except Exception as e:  # noqa: BLE001
            out(ev="step", case=case, error=errname(e))
            break
        t = start + k * step + shift
        p = m.sun_params
        w = s.meteo
        shade = []
        if p["sun_over_horizon"]:
            shade = [int(v) for v in radiation.shadows(np.ascontiguousarray(big[::down, ::down]), c.res * down, p["sun_vector"], num_sweeps=sweeps).ravel()]
        d = from_minutes(t)
        out(ev="step", case=case, error="", doy=d.timetuple().tm_yday, minute=60 * d.hour + d.minute, **sun(p), shade=shade, **pre,
            p=ints(w.atmos_press[mask], 1), w=ints(w.precipitable_water[mask], 1e4), ta=ints(w.temp[mask], 1000),
            dir=ints(w.dir_in_clearsky[mask], 1000), dif=ints(w.diff_in_clearsky[mask], 1000), tot=ints(w.sw_in_clearsky[mask], 1000),
            sw=ints(w.sw_in[mask], 1000), cf=ints(w.cloud_factor[mask], E6), cl=ints(w.cloud_fraction[mask], E6), lw=ints(w.lw_in[mask], 100),
            t1=fx(temp[k], 1000), h1=fx(hum[k], 100), sw1=fx(sw[k], 1000))
    shutil.rmtree(c.dir, ignore_errors=True)


for j, w in mine(list(enumerate(days[:(500 if a.quick else 4000)])), a):
    place(j, w)
for j in mine(list(range(90 if a.quick else 700)), a):
    job(j)
out.close()
