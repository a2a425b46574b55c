"""C19: model starts on raster files that do or do not fit together."""
from oalib import *
import rasterio

a = args()
rnd = random.Random(a.seed * 1000 + 19)
words = [json.loads(x) for x in open(Path(a.work) / "rasters.ndjson")]
rnd.shuffle(words)
out = Out(a.out / "t.ndjson")
BX, BY = 600000, 5180000
N = lambda x: x is None  # noqa: E731
NAME = {"extdem": "extended-dem", "extsvf": "extended-svf"}
LC = [0, 1, 4, 5, 6, 8, 9]


def vary(b, k, r):
    b = dict(b)
    h = b["dx"] // 2
    if k == "absent":
        return dict(b, here=False, rows=0, cols=0, x=0, top=0, dx=0, dy=0)
    s = r.choice([-1, 1])
    if k == "east":
        b["x"] += s * b["dx"]
    elif k == "north":
        b["top"] += s * b["dy"]
    elif k == "half":
        b["x"] += s * h
    elif k == "halfnorth":
        b["top"] += s * h
    elif k in ("fine", "finecover"):
        b["dx"] = b["dy"] = h
        if k == "finecover":
            b["rows"] *= 2
            b["cols"] *= 2
    elif k == "rows":
        b["rows"] = b["rows"] + s or 2
    elif k == "cols":
        b["cols"] = b["cols"] + s or 2
    elif k == "swap":
        b["rows"], b["cols"] = b["cols"], b["rows"]
    elif k == "rect":
        b["dy"] *= 2
    elif k == "small":
        b["rows"] = max(b["rows"] - 2, 1)
        b["cols"] = max(b["cols"] - 3, 1)
    return b


def write(path, f, vals, nodata, style, r):
    g = lambda t: f"{t / 10:.1f}" if style else f"{t / 10:g}" if t % 10 == 0 and abs(t) < 10 ** 6 else repr(t / 10)  # noqa: E731
    yll = BY * 10 + f["top"] - f["rows"] * f["dy"]
    L = [f"ncols {f['cols']}", f"nrows {f['rows']}"]
    if style == 2:
        L += [f"xllcenter {(BX * 10 + f['x'] + f['dx'] / 2) / 10!r}", f"yllcenter {(yll + f['dy'] / 2) / 10!r}"]
    else:
        L += [f"xllcorner {(BX * 10 + f['x']) / 10!r}", f"yllcorner {yll / 10!r}"]
    L += [f"cellsize {g(f['dx'])}"] if f["dx"] == f["dy"] else [f"dx {g(f['dx'])}", f"dy {g(f['dy'])}"]
    L.append(f"NODATA_value {nodata}")
    rows = []
    for i in range(f["rows"]):
        rows.append(" ".join(str(nodata) if v is None else (f"{v:g}" if style == 1 else repr(v)) for v in vals[i * f["cols"]:(i + 1) * f["cols"]]))
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text("\n".join(L + rows) + "\n")


def job(j, w, seed):
    r = random.Random(seed)
    conf = dict(w["c"])
    res = r.choice([10, 25, 50, 100, 100, 1000])
    conf["res"] = res * 10
    rows, cols = r.choice([(3, 4), (4, 3), (3, 3), (5, 3), (2, 6), (4, 5)])
    if r.random() < .1:
        rows, cols = r.choice([(1, 5), (4, 1), (1, 1), (2, 2)])
    base = dict(here=True, rows=rows, cols=cols, x=r.choice([0, 3, 5, 1234, -70]), top=r.choice([0, 5, 2000, -333]), dx=res * 10, dy=res * 10)
    n1, n2, n3, n4 = (r.randint(0, 3) for _ in range(4))
    ebase = dict(base, rows=rows + n1 + n2, cols=cols + n3 + n4, x=base["x"] - n3 * res * 10, top=base["top"] + n1 * res * 10)
    d = r.choice(["/absolute", "x y", "gr"])
    dirn = a.out / f"c{j}"
    grids = dirn / d.strip("/")
    dom = r.choice(["syn", "Rofental", "a-b"])
    nan = r.choice([0, 0, .15])
    files, paths = {}, {}
    for k in ("dem", "roi", "svf", "srf", "lc", "soil", "glaciers", "extdem", "extsvf"):
        f = vary(ebase if k.startswith("ext") else base, w["v"][k], r)
        f["v"] = []
        if f["here"]:
            cnt = f["rows"] * f["cols"]
            if k in ("dem", "extdem"):
                vals = [round(1200 + 60 * (i // f["cols"]) + r.uniform(0, 40), 1) for i in range(cnt)]
            elif k in ("svf", "extsvf"):
                vals = [round(r.uniform(.3, 1), 2) for _ in range(cnt)]
            elif k == "roi":
                vals = [r.choice([0, 1, 1, 1]) if nan == 0 else r.choice([0, 1, 1, 2, 7]) for _ in range(cnt)]
                vals[0] = 1
            elif k == "srf":
                vals = [round(r.uniform(.2, 2), 2) for _ in range(cnt)]
            elif k == "lc":
                vals = [r.choice(LC) for _ in range(cnt)]
            elif k == "soil":
                vals = [r.randint(1, 9) for _ in range(cnt)]
            else:
                vals = [r.choice([0, 0, 1, 2, 5]) for _ in range(cnt)]
            p = nan if k in ("dem", "roi", "lc", "glaciers", "srf", "extdem") else 0
            vals = [None if i and r.random() < p else x for i, x in enumerate(vals)]
            nod = r.choice([-9999, -9999, -99] + ([0] if k == "lc" else []) + ([-32768] if k == "dem" else []))
            if k in ("lc",) and nod == 0:
                vals = [x if x else None for x in vals]
            paths[k] = grids / f"{NAME.get(k, k)}_{dom}_{res}.asc"
            write(paths[k], f, vals, nod, r.choice([0, 0, 1]) if k != "srf" else r.choice([0, 2]), r)
            f["v"] = [NANV if x is None else fx(x, 100) for x in vals]
        files[k] = f
    extend = r.random() < .4
    # stations in the middle of cells, in and around the grid
    spots = {(r.randint(-2, rows + 1), r.randint(-2, cols + 1)) for _ in range(r.randint(1, 3))}
    st = []
    for y, x in sorted(spots):
        st.append(dict(x=base["x"] + int((x + r.choice([.5, .1, .9])) * res * 10), y=base["top"] - int((y + r.choice([.5, .1, .9])) * res * 10)))
    start = mins(2020, r.choice([1, 7]), 3, 12)
    dates = pd.DatetimeIndex([from_minutes(start + 60 * i) for i in range(3)])
    dsets = [station_dataset(f"s{i}", dates, BX + s["x"] / 10, BY + s["y"] / 10, 1300. + i,
                             dict(temp=[270. + i] * 3, precip=[1.] * 3, rel_hum=[70.] * 3, wind_speed=[2.] * 3, sw_in=[100.] * 3)) for i, s in enumerate(st)]
    for s in st:
        s.update(row=0, col=0, ingrid=False, inroi=False)
    over = {"extend_roi_with_stations": extend, "meteo": {"precipitation_correction": [{"method": "srf", "file": str(paths["srf"])}]
            if conf["srf"] and "srf" in paths and r.random() < .5 else [{"method": "srf"}] if conf["srf"] else []},
            "canopy": {"enabled": conf["lc"]}, "evapotranspiration": {"enabled": conf["soil"]}, "glaciers": {"enabled": conf["glaciers"]}}
    if conf["glaciers"] or r.random() < .3:
        over["snow"] = {"model": "cryolayers"}
    cfg = deep_merge({"domain": dom, "start_date": stamp(start), "end_date": stamp(start + 120), "resolution": res, "timestep": "h", "crs": CRS, "timezone": 1,
                      "results_dir": str(dirn / "results"), "enable_default_logging": False,
                      "input_data": {"grids": {"dir": str(grids)}, "meteo": {"format": "memory"}},
                      "output_data": {"timeseries": {"format": "memory", "add_default_points": False}, "grids": {"format": "memory", "variables": []}}}, over)
    bad = {k: v for k, v in w["v"].items() if v != "ok"}
    case = f"rasters/{j}/" + "+".join(f"{k}.{v}" for k, v in bad.items()) + "/" + "".join(k[0] for k in ("srf", "lc", "soil", "glaciers") if conf[k])
    rec = dict(ev="start", case=case, conf=conf, files=files, extend=extend, stations=st)
    try:
        m = new_model(cfg)
        m.initialize(meteo=oa.forcing.combine_point_datasets(dsets))
        oc = "ready"
    except oa.errors.RasterFileError:
        oc = "raster"
    except OSError:      # includes FileNotFoundError and rasterio's
        oc = "missing"
    except Exception as e:  # noqa: BLE001
        oc = errname(e)
        if os.environ.get("OA_DEBUG"):
            traceback.print_exc()
    rec.update(outcome=oc, wrote=(dirn / "results").exists())
    if oc == "ready":
        g = m.grid
        fl = lambda x, sc: [fx(q, sc) for q in np.asarray(x, dtype=float).ravel()]  # noqa: E731
        il = lambda x: [int(q) if abs(int(q)) < 10 ** 6 else -9999 for q in np.asarray(x).ravel()]  # noqa: E731
        rec.update(dem=fl(m.state.base.dem, 100), svf=fl(m.state.base.svf, 100), roi=[bool(q) for q in g.roi.ravel()],
                   points=[[fx(p[0] - BX, 10), fx(p[1] - BY, 10)] for p in g.roi_points],
                   xs=[fx(q - BX, 10) for q in g.xs], ys=[fx(q - BY, 10) for q in g.ys],
                   srf=fl(m.state.base.srf, 100) if conf["srf"] else [], lc=il(m.state.land_cover.land_cover) if conf["lc"] or conf["soil"] else [],
                   soil=il(m.state.evapotranspiration.soil_texture) if conf["soil"] else [], glaciers=il(m.state.glaciers.glacier) if conf["glaciers"] else [])
        for i, s in enumerate(st):
            q = m.meteo.sel(station=f"s{i}")
            s.update(row=int(q.row), col=int(q.col), ingrid=bool(q.within_grid_extent), inroi=bool(q.within_roi))
        rec["stepped"] = ""
        try:
            m.run_single()
        except Exception as e:  # noqa: BLE001
            rec["stepped"] = errname(e)
            if os.environ.get("OA_DEBUG"):
                traceback.print_exc()
        rec["temp"] = [bool(q) for q in np.isfinite(m.state.meteo.temp).ravel()]
    out(**rec)
    shutil.rmtree(dirn, ignore_errors=True)


nj = 420 if a.quick else 4000
good = [w for w in words if all(v == "ok" for k, v in w["v"].items() if not k.startswith("ext"))]
jobs = []
single = {}
for w in words:      # one set for every kind of fault of every file that is asked for
    odd = [(k, v) for k, v in w["v"].items() if v != "ok" and not (v == "absent" and k.startswith("ext"))]
    req = {"srf": w["c"]["srf"], "lc": w["c"]["lc"] or w["c"]["soil"], "soil": w["c"]["soil"], "glaciers": w["c"]["glaciers"]}
    if len(odd) == 1 and req.get(odd[0][0], True):
        single.setdefault((odd[0], w["v"]["extdem"]), w)
for j, w in enumerate(single.values()):
    jobs.append((j, w, rnd.randrange(10 ** 9)))
for j in range(len(jobs), nj):
    w = rnd.choice(good) if j % 5 == 0 else words[j % len(words)] if j % 3 else None
    if w is None:      # two files at fault
        w1, w2 = rnd.choice(words), rnd.choice(words)
        w = dict(c=w1["c"], v={k: w1["v"][k] if w1["v"][k] != "ok" else w2["v"][k] for k in w1["v"]})
    jobs.append((j, w, rnd.randrange(10 ** 9)))
for jj in mine(jobs, a):
    job(*jj)
out.close()
