"""C28: wind speed and direction of real runs with the Liston interpolation, next to the same run on level ground."""
import json
from oalib import *
import random

a = args()
rnd = random.Random(a.seed * 1000 + 28)
words = [json.loads(x) for x in open(Path(a.work) / "wind.ndjson")]
rnd.shuffle(words)
out = Out(a.out / "w.ndjson")
NT = 4


def ints(v, s):
    return [fx(x, s) for x in np.asarray(v, dtype=float).ravel()]


def job(j, w, r):
    rows, cols = r.choice([(4, 5), (5, 4), (3, 3), (6, 5), (4, 4), (4, 5), (1, 1), (2, 4), (1, 3)])
    res = 100
    small = min(rows, cols) < 3
    kind = r.choice(["hills", "hills", "plane", "ridge", "flat", "hills"])
    rr, cc = np.mgrid[0:rows, 0:cols]
    dem = np.full((rows, cols), 1500.)
    if kind == "hills":
        dem += np.array([[r.choice([0, 20, 45.5, 80, 120]) for _ in range(cols)] for _ in range(rows)])
    elif kind == "plane":
        dem += r.choice([10, 30]) * rr + r.choice([0, -25, 40]) * cc
    elif kind == "ridge":
        dem += 60 * np.abs(cc - cols // 2)
    roi = np.array([[r.random() < .85 for _ in range(cols)] for _ in range(rows)], dtype=float)
    roi[r.randrange(rows), r.randrange(cols)] = 1
    ns = r.choice([1, 1, 2, 3, 4])
    gust = r.choice(["none", "none", "scaled", "own"])
    method = r.choice(["fixed", "regression"])
    step = r.choice([60, 180, 1440])
    start = r.choice([mins(2020, 2, 28), mins(2020, 7, 1), mins(2020, 12, 31)])
    dates = pd.DatetimeIndex([from_minutes(start + k * step) for k in range(NT)])
    sts, dsets, used, data = [], [], set(), []
    dirs = [w["d"] // 15 * 15] + [x * 15 for x in w["a"]] + [0, 90, 345]
    for i in range(ns):
        while True:
            x, y = r.choice([(5 + 10 * r.randrange(cols), 5 + 10 * r.randrange(rows)), (r.randrange(-40, 90), r.randrange(-40, 80))])
            if (x, y) not in used:
                break
        used.add((x, y))
        n = [r.choice([0, .5, 1., 2.5, 4., 10., 20., 3.]) for _ in range(NT)]
        k = [r.choice(dirs) % 360 for _ in range(NT)]
        n = [float("nan") if r.random() < .12 else v for v in n]
        k = [float("nan") if r.random() < .12 else v for v in k]
        d = dict(wind_speed=n, wind_dir=k, temp=[270.] * NT, precip=[0.] * NT, rel_hum=[70.] * NT, sw_in=[0.] * NT)
        g = [v * 1.5 if gust == "scaled" else v + r.choice([1., 3.]) for v in n]
        if gust == "own":
            g = [float("nan") if r.random() < .15 else v for v in g]
        if gust != "none":
            d["wind_speed_gust"] = g
        sts.append(dict(x=x, y=y))
        data.append((n, k, g))
        dsets.append(station_dataset(f"s{i}", dates, X0 + 10 * x, Y0 + 10 * y, 1500., d))
    sw, cw = r.choice([.58, .58, 1., .3, 0.]), r.choice([.42, .42, 0., .7])
    res_f = [[], []]
    err, cells, base = "", [], {}
    for which in (0, 1):     # 1: the same on level ground
        c = Case(a.out / f"c{j}_{which}", rows=rows, cols=cols, dem=dem if which == 0 else np.full((rows, cols), 1500.), roi=roi,
                 rasters={"svf": np.ones((rows, cols))})
        try:
            m = new_model(c.config(stamp(start), stamp(start + (NT - 1) * step), step_str(step), {"meteo": {"interpolation": {"wind": {
                "method": "liston", "trend_method": method, "extrapolate": r.random() < .5, "lapse_rate": [0.] * 12, "slope_weight": sw,
                "curvature_weight": cw, "curvature_length_scale": res * r.choice([1, 2]) if min(rows, cols) > 2 else res}}}}, fmt="memory"))
            m.initialize(meteo=oa.forcing.combine_point_datasets(dsets))
            mask = m.grid.roi
            if which == 0:
                b = m.state.base
                base = dict(slope=ints(b.slope[mask], 1000), aspect=ints(b.aspect[mask], 1000), curv=ints(b.scaled_curvature[mask], 1e6))
                cells = [dict(x=5 + 10 * int(q[1]), y=5 + 10 * (rows - 1 - int(q[0]))) for q in np.argwhere(mask)]
            for k in range(NT):
                m.run_single()
                s = m.state.meteo
                f = dict(v=ints(s.wind_speed[mask], 1e4), d=ints(s.wind_dir[mask], 1000))
                f["g"] = ints(s.wind_speed_gust[mask], 1e4) if gust != "none" else []
                res_f[which].append(f)
        except Exception as e:  # noqa: BLE001
            err = err or errname(e)
        shutil.rmtree(c.dir, ignore_errors=True)
    case = f"wind/{j}/{kind}/{rows}x{cols}/{ns}/{gust}"
    out(ev="setup", case=case, error=err, st=sts, cells=cells, sw=fx(sw, 1e4), cw=fx(cw, 1e4), gust=gust, level=bool(np.ptp(dem) == 0), **base)
    if err:
        return
    for k in range(NT):
        u = [[fx(v, 1e4) for v in (n[k], kk[k], g[k])] for n, kk, g in data]
        q = [(x[0], x[1] // 150000 if x[1] != -210000000 else x[1], x[2]) for x in u]
        out(ev="step", case=case, v=[x[0] for x in q], k=[x[1] for x in q], g=[x[2] for x in q], f=res_f[0][k], flat=res_f[1][k])


for j, w in mine(list(enumerate(words[:(90 if a.quick else 700)])), a):
    job(j, w, random.Random(a.seed * 977 + j))
out.close()
