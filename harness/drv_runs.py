"""C21: the same simulation, driven in different ways."""
from oalib import *
import gc
import pickle
import numba

a = args()
rnd = random.Random(a.seed * 1000 + 21)
out = Out(a.out / "t.ndjson")
START = mins(2020, 3, 28)


class Sim:
    """Grids, configuration and forcing of one simulation."""

    def __init__(self, name, r, rows=4, cols=5, step=None, blocks=3, per=4, start=None):
        self.name, self.r = name, r
        dem = default_dem(rows, cols) * r.choice([1, 1, .5])
        if r.random() < .3:
            dem[0, 0] = np.nan
        roi = np.array([[r.random() < .8 for _ in range(cols)] for _ in range(rows)])
        roi[1, 1] = True
        self.what = r.choice(["multi", "multi", "cryo", "canopy", "et", "glacier", "ti"])
        ras = {"lc": [[r.choice([1, 4, 5, 6, 8]) for _ in range(cols)] for _ in range(rows)],
               "soil": [[r.randint(1, 9) for _ in range(cols)] for _ in range(rows)],
               "glaciers": [[r.choice([0, 1, 2]) for _ in range(cols)] for _ in range(rows)]}
        if r.random() < .4:
            ras["svf"] = [[round(r.uniform(.5, 1), 2) for _ in range(cols)] for _ in range(rows)]
        self.case = Case(a.out / name, dem=dem, roi=roi if r.random() < .7 else None, rasters={k: np.array(v, dtype=float) for k, v in ras.items()})
        self.step = step or r.choice([60, 180, 1440])
        self.blocks, self.per = blocks, per
        self.n = blocks * per
        self.start = start if start is not None else START + (r.choice([0, 540, 720]) if self.step < 1440 else 0)
        self.dates = pd.DatetimeIndex([from_minutes(self.start + k * self.step) for k in range(self.n)])
        self.fine = self.step == 180 and r.random() < .4     # hourly data for a three-hourly run
        nst = r.randint(1, 3)
        self.st = []
        sec = 60 if self.fine else self.step
        cnt = self.n * self.step // sec
        times = pd.DatetimeIndex([from_minutes(self.start - (self.step - sec) + k * sec) for k in range(cnt)])
        for s in range(nst):
            q = lambda f: [float("nan") if r.random() < .04 else f() for _ in range(cnt)]  # noqa: E731
            e = lambda lo, hi: (lambda: math.floor(r.uniform(lo, hi) * 8) / 8)  # noqa: E731 (exact in binary)
            y, x = r.randint(-1, rows), r.randint(-1, cols)
            X, Y = self.case.xy(y, x)
            self.st.append((f"s{s}", X, Y, 1500. + 100 * s, times,
                            dict(temp=q(e(262, 282)), precip=q(lambda: r.choice([0., 0., 1.5, 4.25])), rel_hum=q(e(40, 100)),
                                 wind_speed=q(e(0, 6)), sw_in=q(e(0, 500)))))
        over = {"timezone": r.choice([1, 1, 4, 9]),
                "snow": {"model": "cryolayers" if self.what in ("cryo", "glacier", "ti") else "multilayer"},
                "meteo": {"precipitation_correction": r.choice([[], [{"method": "wmo", "gauge": "hellmann"}], [{"method": "constant_scf", "scf": 1.25}]]),
                          "interpolation": {"cloudiness": {"method": r.choice(["clear_sky_fraction", "humidity"])}}},
                "output_data": {"timeseries": {"points": [{"x": X0 + 150., "y": Y0 + 150., "name": "p"}], "variables": [{"var": "surface.albedo"}]},
                                "grids": {"format": "memory", "variables": [{"var": "snow.swe"}, {"var": "meteo.temp", "freq": "D", "agg": "mean"}]}}}
        if self.what == "canopy":
            over["canopy"] = {"enabled": True}
        elif self.what == "et":
            over["evapotranspiration"] = {"enabled": True}
        elif self.what == "glacier":
            over["glaciers"] = {"enabled": True}
        elif self.what == "ti":
            over["snow"]["melt"] = {"method": "temperature_index", "degree_day_factor": 4.}
        self.over = over
        self.k = 0

    def datasets(self):
        return [station_dataset(sid, t, x, y, alt, d) for sid, x, y, alt, t, d in self.st]

    def write(self, fmt):
        d = self.case.dir / f"meteo_{fmt}"
        if d.exists():
            return d
        d.mkdir(parents=True)
        if fmt == "csv":
            pd.DataFrame([dict(id=s[0], name=s[0], x=s[1], y=s[2], alt=s[3]) for s in self.st]).to_csv(d / "stations.csv", index=False)
        for sid, x, y, alt, t, data in self.st:
            df = pd.DataFrame(data, index=t)
            if fmt == "csv":
                df.index.name = "date"
                df.to_csv(d / f"{sid}.csv")
            else:
                df.index.name = "time"
                ds = df.to_xarray()
                for v, u in dict(temp="K", precip="kg m-2", rel_hum="%", wind_speed="m s-1", sw_in="W m-2").items():
                    ds[v].attrs["units"] = u
                ds = ds.rename(dict(temp="tas", precip="pr", rel_hum="hurs", wind_speed="wss", sw_in="rsds"))
                lon, lat = to_lonlat(x, y)
                ds["lon"], ds["lat"], ds["alt"] = lon, lat, alt
                ds.attrs["station_name"] = sid
                ds.to_netcdf(d / f"{sid}.nc")
        return d

    def new(self, r, nt="any", fmt=None):
        """An instance, in one of many equivalent forms."""
        self.k += 1
        fmt = fmt or r.choice(["csv", "netcdf"] + ([] if self.fine else ["memory"]))
        over = copy.deepcopy(self.over)
        over["numba_threads"] = r.choice([None, "auto", 1, 3]) if nt == "any" else nt
        over["results_dir"] = str(self.case.dir / f"results{self.k}")
        more = r.random() < .3
        if more:   # other outputs, same simulation
            over["output_data"]["grids"]["variables"].append({"var": "snow.depth", "freq": "6h" if self.step < 360 else "D", "agg": "mean", "name": "extra"})
            over["output_data"]["timeseries"]["format"] = "csv"
        if r.random() < .3:
            over["log_level"] = r.choice(["DEBUG", "ERROR"])
        cfg = self.case.config(stamp(self.start), stamp(self.start + (self.n - 1) * self.step), step_str(self.step), over, fmt=fmt)
        cfg["input_data"]["meteo"] = {"format": fmt, "bounds": "global"}
        if fmt != "memory":
            cfg["input_data"]["meteo"]["dir"] = str(self.write(fmt))
        if fmt == "csv":
            cfg["input_data"]["meteo"]["crs"] = CRS
        form = r.choice(["dict", "yaml", "config"])
        if form == "yaml":
            p = self.case.dir / f"c{self.k}.yml"
            p.write_text(json.dumps(cfg))       # JSON is YAML
            cfg = oa.read_config(p)
        elif form == "config":
            cfg = oa.Configuration.fromDict(cfg)
        m = oa.OpenAmundsen(cfg)
        m.initialize(**({"meteo": oa.forcing.combine_point_datasets(self.datasets())} if fmt == "memory" else {}))
        self.tag = f"{fmt}.{form}"
        return m, more, self.tag


def outputs(m, more):
    if more:
        return ""
    d = [m.point_output.data if hasattr(m.point_output, "data") else None, m.gridded_output.data if hasattr(m.gridded_output, "data") else None]
    return hashlib.sha256("".join(ds_digest(x) for x in d if x is not None).encode()).hexdigest()


def observe(case, sim, m, more, pos, err, tag):
    full = err == "" and pos == sim.blocks
    out(ev="obs", case=case + "/" + tag, sim=sim.name, osim=sim.name, pos=pos, error=err, state=state_digest(m) if not err else "", outputs=outputs(m, more) if full else "")


def forked(fn):
    """Run fn in a process of its own that starts from this one (in which no model ever ran)."""
    out.f.flush()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            fn()
            out.f.flush()
            rc = 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        sys.stderr.flush()
        os._exit(rc)
    if os.waitpid(pid, 0)[1] != 0:
        sys.exit("child failed")


def reference(case, s, seed):
    """One undisturbed instance, step by step."""
    m, more, tag = s.new(random.Random(seed))
    for p in range(1, s.blocks + 1):
        for _ in range(s.per):
            m.run_single()
        observe(case, s, m, more, p, "", tag)


def word_case(j, w, seed):
    r = random.Random(seed)
    per = r.choice([1, 4])
    sims = {"a": Sim(f"a{j}", r, per=per)}
    like = sims["a"] if r.random() < .7 else None       # often the same dates
    sims["b"] = Sim(f"b{j}", r, per=per, step=like.step if like else None, start=like.start if like else None)
    case = f"runs/{j}/{sims['a'].what}-{sims['b'].what}/" + "-".join(f"{o['op']}{o['i']}" for o in w)
    out(ev="begin", case=case)
    for s in sims.values():
        forked(lambda: reference(case, s, r.random()))
    forked(lambda: word(case, w, sims, r))
    for s in sims.values():
        shutil.rmtree(s.case.dir, ignore_errors=True)


def word(case, w, sims, r):
    inst = {}
    for s in sims.values():
        s.k += 10
    for o in w:
        s = sims["a" if o["i"] % 2 else "b"]
        err = ""
        try:
            if o["op"] == "new":
                inst[o["i"]] = [*s.new(r), 0]
                continue
            m, more, tag, p = inst[o["i"]]
            if o["op"] == "drop":
                del inst[o["i"]], m
                gc.collect()
                continue
            if o["op"] == "copy":
                inst[o["i"]][0] = pickle.loads(pickle.dumps(m)) if r.random() < .7 else copy.deepcopy(m)
                continue
            if o["op"] == "step":
                for _ in range(s.per):
                    m.run_single()
                p += 1
            else:
                m.run()
                p = s.blocks
            inst[o["i"]][3] = p
        except Exception as e:  # noqa: BLE001
            if os.environ.get("OA_DEBUG"):
                traceback.print_exc()
            err = errname(e)
            out(ev="obs", case=case, sim=s.name, osim=s.name, pos=0, error=err, state="", outputs="")
            break
        observe(case, s, m, more, p, "", tag)


def threads_case(j, seed):
    """With compiled kernels: any number of threads."""
    r = random.Random(seed)
    s = Sim(f"t{j}", r, 40, 45, blocks=1, per=6)
    case = f"runs/threads/{j}/{s.what}"
    out(ev="begin", case=case)
    for nt in (1, 2, 5, 8, 8, None):
        m, more, tag = s.new(r, nt, "csv")
        m.run()
        observe(case, s, m, more, 1, "", f"{tag}.{nt}")
    # terrain parameters
    from openamundsen import terrain
    rng = np.random.default_rng(seed)
    dem = rng.uniform(1000, 2500, (120, 130))
    sun = np.array([.3 * rng.uniform(-1, 1), .4 * rng.uniform(-1, 1), .2])
    from openamundsen.modules.radiation.shadows import shadows
    for nt in (1, 8, 3, 8):
        numba.set_num_threads(nt)
        for f, v in dict(openness=lambda: terrain.openness(dem, 10, 400), svf=lambda: terrain.sky_view_factor(dem, 10, azim_step=60, elev_step=10),
                         shadows=lambda: shadows(dem, 10, sun, 2)).items():
            x = v()
            out(ev="obs", case=f"{case}/{f}/{nt}", sim=f, osim=f, pos=j, error="", state=hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest(), outputs="")
    shutil.rmtree(s.case.dir, ignore_errors=True)


if a.part == "threads":
    for j in range(5 if a.quick else 40):
        if j % a.nshards == a.shard:
            threads_case(j, rnd.randrange(10 ** 9))
else:
    words = [json.loads(x) for x in open(Path(a.work) / "runs.ndjson")]
    rnd.shuffle(words)
    words.sort(key=lambda w: -len(w))
    jobs = [(j, words[(j * 7) % len(words)], rnd.randrange(10 ** 9)) for j in range(56 if a.quick else 500)]
    for jj in mine(jobs, a):
        word_case(*jj)
out.close()
