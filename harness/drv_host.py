"""C20: models and an application in one process."""
from oalib import *
import io
import locale
import logging
import numba

a = args()
rnd = random.Random(a.seed * 1000 + 20)
words = [json.loads(x) for x in open(Path(a.work) / "host.ndjson")]
rnd.shuffle(words)
out = Out(a.out / "t.ndjson")
PKG, ROOT = logging.getLogger("openamundsen"), logging.getLogger()
MAXT = numba.config.NUMBA_NUM_THREADS
START = mins(2020, 1, 3)
LEVELS = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR"}
sink = io.StringIO()


class AppHandler(logging.StreamHandler):
    def __init__(self, n):
        super().__init__(sink)
        self.n = n


class AppNull(logging.NullHandler):
    pass


def reset():
    for h in list(PKG.handlers):
        if not isinstance(h, logging.NullHandler):
            PKG.removeHandler(h)
    for h in list(ROOT.handlers):
        ROOT.removeHandler(h)
    PKG.setLevel(0)
    ROOT.setLevel(30)
    PKG.propagate = True


def logstate():
    return dict(own=sum(1 for h in PKG.handlers if not isinstance(h, (AppHandler, logging.NullHandler))),
                app=[h.n for h in PKG.handlers if isinstance(h, AppHandler)], level=PKG.level,
                root=[h.n if isinstance(h, AppHandler) else 99 for h in ROOT.handlers], rootlevel=ROOT.level, propagate=PKG.propagate)


def settings():
    return repr((np.geterr(), warnings.filters, os.getcwd(), dict(os.environ), random.getstate()[1][:5], np.random.get_state()[1][:5].tolist(),
                 locale.getlocale(), sys.getrecursionlimit(), pd.get_option("mode.chained_assignment"), np.get_printoptions(), os.umask(os.umask(0o022)), sys.path))


os.umask(0o022)
C = Case(a.out / "case", rasters={"svf": np.ones((3, 4)), "lc": np.full((3, 4), 5.)})
DATES = pd.DatetimeIndex([from_minutes(START + 60 * i) for i in range(8)])


class Boom(Exception):
    pass


class M:
    """One model of a word together with the caller's objects."""

    def __init__(self, m, enabled, r):
        self.m = m
        self.level = r.choice([10, 20, 30, 40])
        self.enabled = enabled
        self.nt = r.choice([None, "auto", 1, 2, 3, 100])
        self.fmt = r.choice(["callback", "memory"])
        self.boom = False
        self.during = []
        over = {"enable_default_logging": enabled, "log_level": LEVELS[self.level], "numba_threads": self.nt,
                "results_dir": str(C.dir / f"r{m}"), "land_cover": {"classes": {5: {"leaf_area_index": {"max": 3.}}, 11: {"is_forest": True}}},
                "output_data": {"timeseries": {"variables": [{"var": "surface.albedo"}], "points": [{"x": X0 + 150, "y": Y0 + 150, "name": "p"}]},
                                "grids": {"format": "memory", "variables": [{"var": "snow.swe", "freq": "3h", "agg": "mean"}]}},
                "meteo": {"precipitation_correction": [{"method": "constant_scf", "scf": 1.2}]}}
        if r.random() < .3:
            over["canopy"] = {"enabled": True}
        if r.random() < .3:
            over["snow"] = {"model": "cryolayers"}
        n = r.choice([3, 5])
        cfg = C.config(stamp(START), stamp(START + 60 * (n - 1)), "h", over, fmt=self.fmt)
        self.kind = r.choice(["dict", "config"])
        self.cfg = cfg if self.kind == "dict" else oa.Configuration.fromDict(cfg) if hasattr(oa, "Configuration") else cfg
        self.ds = None
        if self.fmt == "memory":
            gap = [float("nan") if r.random() < .2 else 1. for _ in range(n)]
            self.ds = oa.forcing.combine_point_datasets([station_dataset(
                f"s{i}", DATES[:n], *C.xy(i, i), 1500. + 100 * i, dict(temp=[270. + i] * n, precip=gap, rel_hum=[80.] * n, wind_speed=[2.] * n, sw_in=[50.] * n)) for i in range(2)])
        self.snap()

    def snap(self):
        self.c0, self.r0 = copy.deepcopy(self.cfg), repr(self.cfg)
        self.d0 = None if self.ds is None else self.ds.copy(deep=True)

    def kept(self):
        return self.c0 == self.cfg and repr(self.cfg) == self.r0 and (self.ds is None or bool(self.d0.identical(self.ds)))

    def cb(self, model):
        self.during.append(numba.get_num_threads())
        mt = model.state.meteo
        for k, v in dict(temp=268., precip=1., rel_hum=80., wind_speed=2., cloud_factor=.8, cloud_fraction=.3).items():
            mt[k][model.grid.roi] = v
        if self.boom:
            raise Boom

    def create(self):
        self.o = oa.OpenAmundsen(self.cfg)

    def initialize(self):
        self.o.initialize(**({"meteo": self.ds} if self.ds is not None else {"meteo_callback": self.cb}))

    def fails(self, call):
        """A failure in the middle of a step."""
        if self.fmt == "callback":
            self.boom = True
            try:
                call()
            finally:
                self.boom = False
        else:
            def bad(*_a, **_k):
                self.during.append(numba.get_num_threads())
                raise Boom
            keep = self.o.gridded_output.update
            self.o.gridded_output.update = bad
            try:
                call()
            finally:
                self.o.gridded_output.update = keep


def word(j, w, seed):
    r = random.Random(seed)
    reset()
    numba.set_num_threads(MAXT)
    nul = AppNull() if r.random() < .3 else None
    if nul:
        PKG.addHandler(nul)
    ms = [M(i + 1, e, r) for i, e in enumerate(w["d"])]
    case = f"host/{j}/" + "-".join(f"{o['op']}{o['m'] or ''}" for o in w["w"])
    out(ev="begin", case=case, threads=numba.get_num_threads(),
        models=[dict(enabled=m.enabled, level=m.level, threads=0 if m.nt is None else -1 if m.nt == "auto" else m.nt) for m in ms], **logstate())
    handlers = {}
    for o in w["w"]:
        op, k = o["op"], o["m"]
        m = ms[k - 1] if 0 < k <= len(ms) else None
        for x in ms:
            x.during = []
        s0 = settings()
        if op == "fork":
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                f = False
                try:
                    m.o.run_single()
                except BaseException:  # noqa: BLE001
                    f = True
                try:
                    os.write(wr, json.dumps(dict(failed=f, threads=numba.get_num_threads(), **logstate())).encode())
                finally:
                    os._exit(0)
            os.close(wr)
            buf = b""
            while True:
                d = os.read(rd, 65536)
                if not d:
                    break
                buf += d
            os.close(rd)
            os.waitpid(pid, 0)
            res = json.loads(buf) if buf else dict(failed=True, threads=0, own=0, app=[], level=0, root=[], rootlevel=0, propagate=True)
            out(ev="fork", case=case, m=k, **res)
            continue
        failed = False
        try:
            if op == "create":
                m.create()
            elif op == "badconfig":
                c2 = dict(ms[0].cfg, timestep="h", snow={"model": "no such model"})
                c3 = copy.deepcopy(c2)
                try:
                    oa.OpenAmundsen(c2)
                finally:
                    if c2 != c3:
                        ms[0].c0 = None
            elif op == "initialize":
                m.initialize()
            elif op == "badstart":
                p = C.grids / f"dem_{C.domain}_{C.res}.asc"
                t = p.read_text()
                p.write_text(t.replace("cellsize 100", "cellsize 50"))
                try:
                    m.initialize()
                finally:
                    p.write_text(t)
            elif op == "step":
                if m.o.date_idx is not None and m.o.date_idx >= len(m.o.dates) - 1:
                    m.o.date_idx = 0       # keep words of any length going
                m.o.run_single()
            elif op == "stepfails":
                if m.o.date_idx is not None and m.o.date_idx >= len(m.o.dates) - 1:
                    m.o.date_idx = 0
                m.fails(m.o.run_single)
            elif op == "run":
                m.o.run()
            elif op == "runfails":
                m.fails(m.o.run)
            elif op == "over":
                m.o.run_single()
            elif op == "addhandler":
                handlers[k] = AppHandler(k)
                PKG.addHandler(handlers[k])
            elif op == "drophandler":
                PKG.removeHandler(handlers[k])
            elif op == "setlevel":
                PKG.setLevel(k)
            elif op == "addroot":
                ROOT.addHandler(AppHandler(k))
            elif op == "setthreads":
                numba.set_num_threads(k)
        except Exception:  # noqa: BLE001
            failed = True
            if os.environ.get("OA_DEBUG"):
                traceback.print_exc()
        out(ev="op", case=case, op=op, m=k, failed=failed, threads=numba.get_num_threads(), max=MAXT, during=(m.during if m else [])[:4],
            kept=all(x.kept() for x in ms), settings=settings() == s0, **logstate())
        for x in ms:
            x.snap()
    if nul:
        PKG.removeHandler(nul)


long = [w for w in words if len(w["w"]) >= 5]
pick, seen = [], set()
for w in long:          # first a set that contains every pair of neighbouring operations
    ops = [f"{o['op']}{o['m']}" for o in w["w"]]
    new = {(x, y, tuple(w["d"])) for x, y in zip(ops, ops[1:])} - seen
    if new:
        pick.append(w)
        seen |= new
pick += [rnd.choice(long) for _ in range(150 if a.quick else 2500)]
jobs = [(j, w, rnd.randrange(10 ** 9)) for j, w in enumerate(pick)]
keep_err = sys.stderr
for jj in mine(jobs, a):
    sys.stderr = sink if not os.environ.get("OA_DEBUG") else keep_err
    try:
        word(*jj)
    finally:
        sys.stderr = keep_err
    sink.truncate(0)
out.close()
