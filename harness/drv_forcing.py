"""C06 / C07: station forcing of real initialized models."""
import xarray as xr

from oalib import *

a = args()
rnd = random.Random(a.seed * 1000 + (6 if a.part == "resample" else 7))
out = Out(a.out / "t.ndjson")
NCN = {"temp": "tas", "precip": "pr", "rel_hum": "hurs", "sw_in": "rsds", "wind_speed": "wss"}
UNITS = {"temp": "K", "precip": "kg m-2", "rel_hum": "%", "sw_in": "W m-2", "wind_speed": "m s-1"}
GEN = {"temp": lambda r: r.randint(250, 290), "precip": lambda r: r.choice([0, 0, 1, 2, 7, 12]), "rel_hum": lambda r: r.randint(20, 100),
       "sw_in": lambda r: r.randint(0, 900), "wind_speed": lambda r: r.randint(0, 9), "wind_speed_gust": lambda r: r.randint(3, 25),
       "wind_dir": lambda r: r.choice([0, 90, 180, 270]), "cloud_fraction": lambda r: r.randint(2, 100)}
DEFAULT_FILTERS = [dict(var="temp", filter="range", min=200, max=330), dict(var="rel_hum", filter="range", min=1, max=100),
                   dict(var="precip", filter="range", min=0), dict(var="wind_speed", filter="range", min=0, max=50),
                   dict(var="sw_in", filter="range", min=0, max=1500)]
BIG = 1000000


def nan(v):
    return float("nan") if v == NANV else float(v)


class St:
    def __init__(self, sid, start, dt, n, r, x, y, alt=1800, gaps=.08, wild=0., uniform=True, varset=None):
        self.id, self.start, self.dt, self.n, self.x, self.y, self.alt, self.uniform = sid, start, dt, n, x, y, alt, True
        vs = varset or ([v for v in ("temp", "precip", "rel_hum", "sw_in", "wind_speed") if r.random() < .92] +
                        [v for v in ("wind_speed_gust", "wind_dir", "cloud_fraction") if r.random() < .4])
        self.v = {}
        for v in vs:
            vals = []
            for _ in range(n):
                q = r.random()
                if q < gaps:
                    vals.append(NANV)
                elif q < gaps + wild and v in ("temp", "precip", "rel_hum", "sw_in", "wind_speed"):
                    vals.append(r.choice({"temp": [15, 199, 200, 330, 331], "precip": [-1, 0, 300], "rel_hum": [0, 1, 100, 101],
                                          "sw_in": [-5, 0, 1500, 1501], "wind_speed": [-1, 0, 50, 51]}[v]))
                else:
                    vals.append(GEN[v](r))
            if v == "cloud_fraction" and n:
                vals[0] = 60
            self.v[v] = vals
        t = [start + k * dt for k in range(n)]
        if not uniform and n > 3:
            t.pop(n // 2)
            self.v = {k: w[:n // 2] + w[n // 2 + 1:] for k, w in self.v.items()}
            self.n = n - 1
            self.uniform = False
        self.times = pd.DatetimeIndex([from_minutes(q) for q in t])

    def frame(self):
        return pd.DataFrame({k: [nan(x) for x in w] for k, w in self.v.items()}, index=self.times)

    def rec(self):
        return dict(id=self.id, x=fx(self.x - X0, 10), y=fx(self.y - Y0, 10), alt=self.alt, start=self.start, dt=self.dt, n=self.n,
                    uniform=self.uniform, v=self.v)


def write(dir_, fmt, sts, r):
    dir_.mkdir(parents=True)
    if fmt == "csv":
        pd.DataFrame([dict(id=s.id, name="N" + s.id, x=s.x, y=s.y, alt=s.alt) for s in sts],
                     columns=["id", "name", "x", "y", "alt"]).to_csv(dir_ / "stations.csv", index=False)
        for s in sts:
            df = s.frame()
            df.index.name = "date"
            df.to_csv(dir_ / f"{s.id}.csv")
    else:
        for s in sts:
            df = s.frame()
            df.index.name = "time"
            ds = df.to_xarray()
            for k in list(ds.data_vars):
                if k in UNITS:
                    ds[k].attrs["units"] = UNITS[k]
            if "precip" in ds and s.n >= 3 and s.uniform and r.random() < .5:
                ds["precip"] = ds["precip"] / (s.dt * 60.)
                ds["precip"].attrs["units"] = "kg m-2 s-1"
            ds = ds.rename({k: w for k, w in NCN.items() if k in ds})
            lon, lat = to_lonlat(s.x, s.y)
            ds["lon"], ds["lat"], ds["alt"] = lon, lat, float(s.alt)
            ds.attrs["station_name"] = "N" + s.id
            ds.to_netcdf(dir_ / f"{s.id}.nc")


def run_case(case, start, end, step, agg, sts, fmt, r, step_name=None, bounds="global", incl=(), excl=(), filters=None, check=True, grid=(2, 2)):
    c = Case(a.out / "w", *grid, rasters={"svf": np.ones(grid)})
    write(c.dir / "meteo", fmt, sts, r)
    met = {"aggregate_when_downsampling": agg, "bounds": bounds, "enable_missing_data_checks": check}
    if incl:
        met["include"] = list(incl)
    if excl:
        met["exclude"] = list(excl)
    if filters is not None:
        met["filters"] = filters
    fl = DEFAULT_FILTERS if filters is None else filters
    b = [] if bounds == "global" else [fx(v, 10) for v in (
        [0, 0, grid[1] * c.res, grid[0] * c.res] if bounds == "grid" else
        [bounds[0] - X0, bounds[1] - Y0, bounds[2] - X0, bounds[3] - Y0])]
    m = dict(start=start, end=end, step=step, agg=agg, check=check, bounds=b, incl=list(incl), excl=list(excl),
             filters=[dict(var=f["var"], min=f.get("min", -BIG), max=f.get("max", BIG)) for f in fl])
    over = {"input_data": {"meteo": met}, "output_data": {"timeseries": {"write_freq": "M"}}}
    if step > 1440:
        over["output_data"]["timeseries"]["write_freq"] = step_str(step)
    err, runerr, got, dates, table = "", "", [], [], {}
    try:
        mod = new_model(c.config(stamp(start), stamp(end), step_name or step_str(step), over, fmt=fmt))
        mod.initialize()
        ds = mod.meteo
        got = [str(s) for s in ds.station.values]
        dates = [minutes(t) for t in ds.indexes["time"]]
        for s in got:
            one = ds.sel(station=s)
            if one.sizes.get("station"):
                continue
            t = {v: [fx(x, 1000) for x in one[v].values] for v in GEN if v in ds and v != "wind_dir"}
            if "wind_dir" in ds:
                w = np.deg2rad(one["wind_dir"].values)
                t["wind_sin"], t["wind_cos"] = [fx(x, 10000) for x in np.sin(w)], [fx(x, 10000) for x in np.cos(w)]
            t.update(x=fx(float(one.x) - X0, 10), y=fx(float(one.y) - Y0, 10), alt=int(round(float(one.alt))))
            table[s] = t
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    if not err:
        try:
            for _ in range(min(len(mod.dates), 14)):
                mod.run_single()
        except Exception as e:  # noqa: BLE001
            runerr = errname(e)
    out(ev="init", case=case, m=m, stations=[s.rec() for s in sts], error=err, runerror=runerr, got=got, dates=dates, table=table)
    shutil.rmtree(c.dir, ignore_errors=True)


def names(step):
    if step == 1440:
        return ["D", "1D", "24h"]
    if step % 60 == 0:
        return [step_str(step), f"{step}min"] + (["1h", "h", "H"] if step == 60 else [])
    return [f"{step}min"]


if a.part == "resample":
    groups = {}
    for line in open(Path(a.work) / "forcing.ndjson"):
        q = json.loads(line)
        groups.setdefault((q["step"], q["end"], q["agg"]), []).append((q["off"], q["dt"], q["n"]))
    jobs = []
    for key, sc in sorted(groups.items()):
        rnd.shuffle(sc)
        k = 7 if a.quick else 90
        for i in range(k):
            jobs.append((key, sc[(i * 2) % len(sc)], sc[(i * 2 + 1) % len(sc)] if i % 3 else None, rnd.randrange(10 ** 9)))
    for n, ((step, end, agg), s1, s2, seed) in mine(list(enumerate(jobs)), a):
        r = random.Random(seed)
        day = mins(2020, *r.choice([(1, 10), (2, 28), (12, 31), (3, 29)]))
        start = day if step >= 1440 else day + r.choice([0, 0, 300, 780])
        sts = []
        for i, sc in enumerate((s1, s2)):
            if sc:
                sts.append(St("ab"[i], start + sc[0], sc[1], sc[2], r, X0 + 50 + 40 * i, Y0 + 50))
        if r.random() < .65:
            # a station that covers the whole run, finer than the step where possible
            dt = r.choice([d for d in (30, 60, 180, 360, 720, 1440, 2880) if step % d == 0] or [step])
            if step > 1440:
                dt = step
            pre = r.choice([2, 3]) * 1440
            sts.append(St("full", start - (pre if pre % dt == 0 else dt), dt, (pre + end + 2880) // dt + 1, r, X0 + 120, Y0 + 130, gaps=r.choice([0, 0, .1])))
        r.shuffle(sts)
        run_case(f"resample/{n}/{step}/{agg}", start, start + end, step, agg, sts, ("csv", "netcdf")[n % 2], r,
                 step_name=r.choice(names(step)), check=r.random() < .85)
else:
    N = 150 if a.quick else 1200
    jobs = [(n, rnd.randrange(10 ** 9)) for n in range(N)]
    for n, seed in mine(jobs, a):
        r = random.Random(seed)
        start = mins(2020, 1, 10)
        step = r.choice([60, 60, 180])
        end = start + r.choice([3, 6, 9]) * step
        fmt = ("csv", "netcdf")[n % 2]
        grid = (3, 4)
        eps = .3
        xe = [X0 - 500, X0 - eps, X0 + eps, X0 + 150, X0 + 400 - eps, X0 + 400 + eps, X0 + 5000]
        ye = [Y0 - 500, Y0 - eps, Y0 + eps, Y0 + 150, Y0 + 300 - eps, Y0 + 300 + eps, Y0 + 5000]
        if fmt == "csv":        # same coordinate system, no round trip: the edges themselves
            xe += [X0, X0 + 400, X0 + 50, X0 + 350]
            ye += [Y0, Y0 + 300, Y0 + 50, Y0 + 250]
        ids = r.sample(["alp", "bach", "101", "7", "x-1", "007", "Zz"], r.choice([1, 2, 3, 4]))
        sts = []
        for sid in ids:
            dt = r.choice([step, step, 60])
            s0 = start + dt * r.choice([-30, -1, 0, 0, 0, 1, 4, 200])
            ln = r.choice([0 if fmt == "csv" else 1, 1, 2, 3, 8, 60, 90, 90])
            near = r.random() < .6
            sts.append(St(sid, s0, dt, ln, r, X0 + r.choice([60, 150, 340]) if near else r.choice(xe), Y0 + r.choice([60, 240]) if near else r.choice(ye),
                          alt=r.choice([900, 1800, 3100]), gaps=.1, wild=.2, uniform=r.random() > .03))
        pool = ids + (["nope"] if r.random() < .1 else [])
        incl = r.sample(pool, 1) if r.random() < .3 else []
        excl = r.sample(ids + ["nope"], r.choice([1, 1, 2])) if r.random() < .45 else []
        bounds = r.choice(["grid", "grid", "global", [X0 + 50, Y0 + 50, X0 + 350, Y0 + 250], [X0, Y0, X0 + 400, Y0 + 300]])
        filters = r.choice([None, None, [], [dict(var="temp", filter="range", min=255, max=280)],
                            [dict(var="precip", filter="range", max=7), dict(var="wind_speed", filter="range", min=2), dict(var="precip", filter="range", min=1)],
                            [dict(var="cloud_fraction", filter="range", max=50), dict(var="sw_in", filter="range", min=0, max=400)]])
        run_case(f"stations/{n}/{fmt}", start, end, step, r.random() < .4, sts, fmt, r, bounds=bounds, incl=incl, excl=excl, filters=filters,
                 check=r.random() < .7, grid=grid)
out.close()
