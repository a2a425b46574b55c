"""C01: replays every call sequence enumerated by TLC (MCLifecycle) into real models, over many time axes."""
from oalib import *

a = args()
rnd = random.Random(a.seed)

AXES = [  # (start, step) - the number of dates comes from the behaviour
    (mins(2020, 1, 1), 60), (mins(2020, 2, 28, 22), 60), (mins(2019, 12, 31, 21), 180),
    (mins(2020, 3, 1), 1440), (mins(2020, 2, 27, 6), 1440), (mins(2021, 6, 30, 23, 30), 30),
    (mins(2020, 9, 30, 7), 420), (mins(2020, 9, 30, 12), 720), (mins(2020, 10, 1), 2880),
    (mins(2019, 2, 27, 3), 300), (mins(2020, 12, 31, 23, 50), 10), (mins(2024, 2, 28), 360),
]


class Watch:
    def __init__(self):
        self.seen = []

    def __call__(self, model):
        self.seen.append(minutes(model.date))
        roi = model.grid.roi
        m = model.state.meteo
        k = len(self.seen)
        for key, v in dict(temp=265. + k, precip=1.0, rel_hum=80., wind_speed=2.0, cloud_factor=.8,
                           cloud_fraction=.3).items():
            m[key][roi] = v


def nrec_point(model):
    """Number of leading dates for which the in-memory point table holds a record."""
    ds = model.point_output.data
    v = ds["temp"].values
    ok = np.isfinite(v).all(axis=tuple(i for i, d in enumerate(ds["temp"].dims) if d != "time"))
    n = int(ok.sum())
    return n if ok[:n].all() else -1


def nrec_grid(model):
    ds = model.gridded_output.data
    v = ds["temp"]
    ok = np.isfinite(v.values).any(axis=tuple(i for i, d in enumerate(v.dims) if not d.startswith("time")))
    n = int(ok.sum())
    return n if ok[:n].all() else -1


def digest(model, w):
    return (state_digest(model), ds_digest(model.point_output.data), ds_digest(model.gridded_output.data),
            str(model.date), str(model.date_idx), len(w.seen))


def setup(case, out, c, start, step, n, dateonly=False):
    end = start + (n - 1) * step
    endcfg, endm = stamp(end), end
    if dateonly:
        endm = end + step - 1440
        endcfg = datestr(endm)
    over = {
        "snow": {"model": rnd.choice(["multilayer", "cryolayers"])},
        "output_data": {
            "timeseries": {"points": [{"x": c.xy(0, 0)[0], "y": c.xy(0, 0)[1], "name": "p"}],
                           "write_freq": step_str(step * rnd.choice([1, 2, 3]))},
            "grids": {"variables": [{"var": "meteo.temp", "name": "temp"}]},
        },
    }
    cfg = c.config(stamp(start), endcfg, step_str(step), over)
    w = Watch()
    err, model = "", None
    try:
        model = new_model(cfg)
        model.initialize(meteo_callback=w)
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    rec = dict(ev="setup", case=case, start=start, end=endm, step=step, dateonly=dateonly, error=err)
    if err == "":
        rec.update(ndates=len(model.dates), dates=[minutes(d) for d in model.dates],
                   idx=0 if model.date_idx is None else model.date_idx + 1, seen=w.seen)
    out(**rec)
    return model, w


def call(case, out, model, w, op):
    k = len(w.seen)
    before = digest(model, w)
    try:
        model.run_single() if op == "step" else model.run()
        res = "ok"
    except Exception as e:  # noqa: BLE001
        res = "refused" if is_oa_runtime_error(e) else "error:" + errname(e)
    out(ev="call", case=case, op=op, outcome=res, idx=0 if model.date_idx is None else model.date_idx + 1,
        date=minutes(model.date), seen=w.seen[k:], unchanged=before == digest(model, w),
        npoint=nrec_point(model), ngrid=nrec_grid(model))


out = Out(a.out / "t.ndjson")
behaviours = [json.loads(x) for x in open(Path(a.work) / "lifecycle.ndjson")]
behaviours.sort(key=lambda b: json.dumps(b))
if a.quick:
    # all behaviours of short runs; every call sequence appears with every n at least once
    behaviours = [b for b in behaviours if b["n"] in (1, 3)] + rnd.sample(
        [b for b in behaviours if b["n"] not in (1, 3)], 40)
c = Case(a.out / "case", dem=[[1800.0, 1900.0]], rasters={"svf": [[1.0, 1.0]]}, roi=[[1, 1]])
for i, b in mine(list(enumerate(behaviours)), a):
    start, step = AXES[(i * 5 + a.seed) % len(AXES)]
    case = f"b{i}/n{b['n']}/{''.join(x['op'][0] for x in b['calls'])}"
    model, w = setup(case, out, c, start, step, b["n"])
    if model is not None:
        for x in b["calls"]:
            call(case, out, model, w, x["op"])
# long runs on every axis, also with a date-only end
long_cases = []
for j, (start, step) in enumerate(AXES):
    long_cases.append((f"long{j}", start, step, 9 + 5 * (j % 3), False, "run" if j % 2 else "steps"))
    if 1440 % step == 0 and step < 1440:
        d0 = (start // 1440) * 1440
        nd = 1 + j % 2
        long_cases.append((f"dateonly{j}", d0 + step * (j % 2), step, nd * 1440 // step - (j % 2), True, "run"))
long_cases.append(("dateonly_D", mins(2020, 2, 25), 1440, 7, False, "run"))
for case, start, step, n, dateonly, how in mine(long_cases, a):
    if n > 150:
        continue
    model, w = setup(case, out, c, start, step, n, dateonly)
    if model is None:
        continue
    if how == "run":
        call(case, out, model, w, "run")
    else:
        for _ in range(n):
            call(case, out, model, w, "step")
    call(case, out, model, w, "step")
    call(case, out, model, w, "run")
out.close()
