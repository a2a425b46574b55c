"""C03: time series output of real runs against the state after every step."""
import xarray as xr
from oalib import *

a = args()
rnd = random.Random(a.seed * 1000 + 3)


def bits(v, integer=False):
    """float32 bit pattern as signed integer (one NaN, one zero); integers as they are."""
    v = np.asarray(v)
    if integer:
        return [int(x) for x in v.ravel()]
    f = v.astype(np.float32).ravel()
    b = f.view(np.int32).copy()
    b[np.isnan(f)] = -1
    b[f == 0] = 0
    return [int(x) for x in b]


VARSETS = [
    [("meteo.temp", None), ("snow.swe", "my_swe"), ("snow.ice_content", None), ("snow.num_layers", "nl")],
    [("meteo.precip", "P"), ("soil.temp", None), ("surface.temp", "ts")],
    [("snow.depth", None), ("snow.temp", "Tsnow"), ("meteo.wind_speed", None)],
    [("base.dem", None), ("snow.albedo", None)],
]
DEFAULTS = None  # filled from the documented list below
DEFAULT_VARS = """meteo.temp meteo.precip meteo.snowfall meteo.rainfall meteo.rel_hum meteo.wind_speed meteo.sw_in
meteo.sw_out meteo.lw_in meteo.lw_out meteo.sw_in_clearsky meteo.dir_in_clearsky meteo.diff_in_clearsky
meteo.cloud_factor meteo.cloud_fraction meteo.wet_bulb_temp meteo.dew_point_temp meteo.atmos_press
meteo.sat_vap_press meteo.vap_press meteo.spec_hum surface.temp:surface_temp surface.heat_flux:surface_heat_flux
surface.sens_heat_flux surface.lat_heat_flux surface.advective_heat_flux surface.albedo:surface_albedo
soil.temp:soil_temp soil.heat_flux:soil_heat_flux snow.swe snow.depth:snow_depth snow.temp:snow_temp
snow.thickness:snow_thickness snow.density:snow_density snow.ice_content snow.liquid_water_content snow.melt
snow.runoff snow.sublimation snow.refreezing""".split()
DEFAULTS = [tuple(v.split(":")) if ":" in v else (v, None) for v in DEFAULT_VARS]

ROWS, COLS, RES = 2, 3, 100
DEM = [[1800.0, 1850.0, 1900.0], [2000.0, 2050.0, 2100.0]]
ROI = [[1, 1, 0], [1, 1, 1]]


def weather(i, d, r, c):
    g = np.arange(r * c).reshape(r, c)
    return dict(temp=266.0 + 0.7 * ((i * 3) % 13) + 0.31 * g, precip=0.4 * ((i + g) % 4), rel_hum=60. + g,
                wind_speed=1.0 + 0.1 * g + 0.01 * i, cloud_factor=0.8, cloud_fraction=0.3)


def stations(dates):
    ds = []
    for sid, (px, py), alt in (("sta_b", (150, 150), 1850.), ("sta_a", (250, 150), 1900.), ("out", (650, 50), 1700.)):
        k = np.arange(len(dates))
        ds.append(station_dataset(sid, dates, X0 + px, Y0 + py, alt, dict(
            temp=266. + (k * 3) % 11, precip=0.5 * (k % 3), rel_hum=70. + k % 5, wind_speed=2. + k % 3,
            sw_in=100. + k)))
    return oa.forcing.combine_point_datasets(ds)


def columns_of(model, vars_):
    """(column name, category.var, layer or None)"""
    cols = []
    for v, name in vars_:
        name = name or v.split(".")[-1]
        arr = model.state[v]
        if arr.ndim == 2:
            cols.append((name, v, None))
        else:
            cols += [(f"{name}#{i}", v, i) for i in range(arr.shape[0])]
    return cols


def read_output(fmt, model, results, points, cols):
    """-> times, point names, column names, {(point index, column): values}"""
    series = {}
    if fmt in ("netcdf", "memory"):
        if fmt == "netcdf":
            with xr.open_dataset(results / "output_timeseries.nc") as f:
                ds = f.load()
        else:
            ds = model.point_output.data
        times = [minutes(t) for t in ds.indexes["time"]]
        pn = [str(x) for x in ds.point.values]
        found = []
        for v in ds.data_vars:
            dv = ds[v]
            extra = [d for d in dv.dims if d not in ("time", "point")]
            if extra:
                for i in range(dv.sizes[extra[0]]):
                    found.append(f"{v}#{i}")
            else:
                found.append(str(v))
        for pi, p in enumerate(points):
            for name, _, layer in cols:
                base = name.split("#")[0]
                if base not in ds or p["name"] not in pn:
                    continue
                dv = ds[base].sel(point=p["name"])
                if layer is not None:
                    extra = [d for d in dv.dims if d != "time"][0]
                    dv = dv.isel({extra: layer})
                series[pi, name] = dv.transpose("time").values if dv.ndim else dv.values
        return times, pn, found, series
    pn, times, found = [], None, None
    files = {f.name for f in results.glob("point_*.csv")}
    for pi, p in enumerate(points):
        f = results / f"point_{p['name']}.csv"
        if f.name not in files:
            continue
        pn.append(p["name"])
        df = pd.read_csv(f, dtype=str, keep_default_na=False)
        t = [minutes(x) for x in pd.to_datetime(df.iloc[:, 0])]
        times = t if times is None or times == t else ["inconsistent"]
        names = list(df.columns[1:])
        # a layered variable <name> has columns <name>0, <name>1, ...
        layered = {f"{nm.split('#')[0]}{la}": nm for nm, _, la in cols if la is not None}
        found_p = [layered.get(x, x) for x in names]
        found = found_p if found is None or found == found_p else ["inconsistent"]
        for raw, nm in zip(names, found_p):
            series[pi, nm] = np.array([float(x) if x != "" else np.nan for x in df[raw]], dtype=float)
    return times, pn, found, series


def run_case(case, out, c, start, step, n, fmt, write_freq, vars_, defaults, snow, pts, meteo, extend=False,
             results="results"):
    end = start + (n - 1) * step
    ts = {"format": fmt, "write_freq": write_freq, "add_default_points": meteo == "memory",
          "add_default_variables": defaults,
          "points": [{"x": X0 + p["x"], "y": Y0 + p["y"], **({"name": p["name"]} if not p.get("unnamed") else {})}
                     for p in pts],
          "variables": [{"var": v, **({"name": nm} if nm else {})} for v, nm in vars_]}
    over = {"snow": {"model": snow}, "output_data": {"timeseries": ts}, "results_dir": str(c.dir / results),
            "extend_roi_with_stations": extend}
    cfg = c.config(stamp(start), stamp(end), step_str(step), over, fmt=meteo)
    allvars = (DEFAULTS if defaults else []) + vars_
    points = list(pts)
    if meteo == "memory":
        # default points: the stations inside the region of interest, in the order of the station table
        sp = [dict(name="sta_b", x=150, y=150)]
        if extend:
            sp.append(dict(name="sta_a", x=250, y=150))
        points = sp + points
    err, m = "", None
    try:
        m = new_model(cfg)
        if meteo == "memory":
            m.initialize(meteo=stations(pd.date_range(stamp(start), stamp(end), freq=step_str(step))))
        else:
            m.initialize(meteo_callback=meteo_callback_from(weather))
        cols = columns_of(m, allvars)
    except Exception as e:  # noqa: BLE001
        err, cols = errname(e), []
    out(ev="setup", case=case, start=start, end=end, step=step, error=err, rows=ROWS, cols=COLS, res=RES,
        points=[dict(name=p["name"], x=p["x"], y=p["y"]) for p in points], columns=[x[0] for x in cols],
        format=fmt, write_freq=write_freq)
    if err:
        return
    isint = {x[0]: np.issubdtype(m.state[x[1]].dtype, np.integer) for x in cols}
    for _ in range(n):
        try:
            m.run_single()
            e = ""
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        out(ev="step", case=case, error=e,
            vals=[bits(m.state[v] if la is None else m.state[v][la], isint[nm]) for nm, v, la in cols])
        if e:
            return
    try:
        times, pn, found, series = read_output(fmt, m, c.dir / results, points, cols)
        e = ""
    except Exception as ex:  # noqa: BLE001
        times, pn, found, series, e = [], [], [], {}, errname(ex)
    out(ev="output", case=case, error=e, times=times or [], points=pn, columns=found or [], format=fmt)
    for (pi, nm), v in series.items():
        k = [x[0] for x in cols].index(nm) if nm in [x[0] for x in cols] else None
        if k is None:
            continue
        out(ev="series", case=case, p=pi + 1, k=k + 1, column=nm, vals=bits(v, isint[nm]))


FREQS = ["ME", "YE", "D", "h", "3h", "5h", "7D", "90min", "2D", "12h", "MS", "W"]
STARTS = [mins(2020, 1, 1), mins(2020, 2, 28, 18), mins(2019, 12, 30), mins(2020, 3, 31, 6), mins(2020, 2, 27, 23),
          mins(2020, 6, 30)]
PTS = [
    [dict(name="p1", x=50, y=150), dict(name="q", x=210, y=30)],
    [dict(name="point1", x=199, y=101, unnamed=True), dict(name="point2", x=1, y=1, unnamed=True),
     dict(name="outside_roi", x=250, y=150)],
    [dict(name="A-1", x=299, y=99)],
]
cases = []
i = 0
for fmt in ("netcdf", "csv"):
    for fr in FREQS:
        for rep in range(2 if a.quick else 6):
            i += 1
            step = rnd.choice([60, 180, 720, 1440, 30, 420, 300, 360])
            n = rnd.choice([1, 2, 7, 13, 30, 45]) if rep else rnd.choice([24, 40, 60])
            if fr in ("ME", "MS", "W", "YE") and rep == 0:
                step, n = rnd.choice([(1440, 70), (720, 80), (420, 90), (360, 110), (1200, 70), (660, 100)])
            if fr in ("h", "90min") and n > 30:
                n = 20
            cases.append((f"{fmt}/{fr}/{rep}", rnd.choice(STARTS), step, n, fmt, fr, VARSETS[i % len(VARSETS)], False,
                          ("multilayer", "cryolayers")[i % 2], PTS[i % len(PTS)], "callback", False))
for j, fmt in enumerate(("netcdf", "csv", "memory")):
    cases.append((f"defaults/{fmt}", STARTS[j], 180, 20, fmt, "D", [("snow.num_layers", None)], True,
                  "multilayer", PTS[0], "callback", False))
    cases.append((f"defaults_cryo/{fmt}", STARTS[j], 180, 20, fmt, "D", [("snow.cold_content", None)], True,
                  "cryolayers", PTS[1], "callback", False))
    cases.append((f"stations/{fmt}", STARTS[j + 1], 180, 17, fmt, "D", VARSETS[0], False, "multilayer", PTS[1],
                  "memory", False))
    cases.append((f"stations_ext/{fmt}", STARTS[j + 2], 180, 17, fmt, "D", VARSETS[2], False, "multilayer", PTS[2],
                  "memory", True))
for k, vs in enumerate(VARSETS):
    cases.append((f"memory/{k}", STARTS[k], [60, 420, 1440, 30][k], 25, "memory", "ME", vs, False,
                  ("multilayer", "cryolayers")[k % 2], PTS[k % 3], "callback", False))
# >1-day steps: write frequency a multiple of the step
for fmt in ("netcdf", "csv"):
    cases.append((f"long/{fmt}", STARTS[0], 2880, 12, fmt, "6D", VARSETS[0], False, "multilayer", PTS[0], "callback", False))

out = Out(a.out / "t.ndjson")
n_ = 0
for ci, t in mine(list(enumerate(cases)), a):
    c = Case(a.out / f"case{ci}", dem=DEM, roi=ROI, rasters={"svf": np.full((2, 3), .9)})
    run_case(t[0], out, c, *t[1:])
    # an earlier run's files are in the results directory: run again over another period
    if t[4] != "memory" and ci % 3 == 0:
        run_case(t[0] + "/again", out, c, t[1] + t[2] * 1, t[2], max(1, t[3] // 2), *t[4:])
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
