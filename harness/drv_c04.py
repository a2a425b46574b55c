"""C04/C05: gridded output of real runs (schedule, windows, values) against the recorded states."""
import re

import rasterio
import xarray as xr
from oalib import *

a = args()
MODE = a.part or "c04"
rnd = random.Random(a.seed * 1000 + 4)
ROWS, COLS, RES = 2, 3, 100
DEM = [[1800.0, 1850.0, 1900.0], [2000.0, 2050.0, 2100.0]]
ROIS = [[[1, 1, 0], [1, 1, 1]], [[0, 1, 0], [1, 0, 1]], [[1, 1, 1], [1, 1, 1]], [[0, 0, 0], [0, 1, 0]]]
EXACT = {"meteo.temp", "meteo.precip"}
INTS = {"snow.num_layers"}
LAYERED = {"snow.ice_content", "soil.temp", "snow.temp"}


def weather(i, d, r, c):
    g = np.arange(r * c).reshape(r, c)
    return dict(temp=266.0 + 0.5 * ((i * 5) % 17) + 0.5 * g, precip=0.25 * ((i + 3 * g) % 7) * (i % 5 < 3),
                rel_hum=60. + g, wind_speed=1.0 + 0.1 * g + 0.01 * (i % 50), cloud_factor=0.8, cloud_fraction=0.3)


def bits(v):
    f = np.asarray(v).astype(np.float32).ravel()
    b = f.view(np.int32).astype(np.int64)
    b[np.isnan(f)] = NANV
    b[f == 0] = 0
    return [int(x) for x in b]


def enc(v, f, isint):
    """values of a whole grid as integers (NANV: no data)"""
    v = np.asarray(v)
    if isint:
        sc = 1000 if f["agg"] == "mean" else 1
        return [NANV if (isinstance(x, float) and math.isnan(x)) or x <= -2e9 else int(round(x * sc))
                for x in v.ravel().tolist()]
    if f["agg"] == "none":
        return bits(v)
    sc = scale_of(f)
    return [fx(x, sc) for x in v.ravel()]


def scale_of(f):
    if f["var"] in EXACT:
        return 1000 if f["agg"] == "mean" else 4
    return 10 if f["agg"] == "sum" else 100


def place(vals, xs, ys):
    """place values on the grid by their coordinates (independent of the code's index arithmetic)"""
    g = np.full((ROWS, COLS), np.nan)
    for r, y in enumerate(ys):
        for c, x in enumerate(xs):
            col = (float(x) - X0) / RES - 0.5
            row = ROWS - (float(y) - Y0) / RES - 0.5
            if abs(col - round(col)) < 1e-6 and abs(row - round(row)) < 1e-6 and 0 <= round(row) < ROWS \
                    and 0 <= round(col) < COLS:
                g[int(round(row)), int(round(col))] = vals[r][c]
    return g


FREQ_STR = {60: "h", 180: "3h", 360: "6h", 720: "12h", 1440: "D", 30: "30min", 90: "90min", 2880: "2D", 10080: "7D"}


def field_cfg(f):
    d = {"var": f["var"]}
    if f.get("name"):
        d["name"] = f["name"]
    if f["agg"] != "none":
        d["agg"] = f["agg"]
    if f["kind"] == "dates":
        d["dates"] = [stamp(x) for x in f["dates"]]
    elif f["kind"] == "tick":
        if not f.get("default"):
            d["freq"] = step_str(f["freq"])
    else:
        d["freq"] = f["kind"]
    return d


def emit_ds(out, case, fields, ds, isint, suffix=""):
    for k, f in enumerate(fields):
        nm = f["out"]
        if nm not in ds:
            out(ev="field", case=case + suffix, k=k + 1, error="", present=False, times=[])
            continue
        dv = ds[nm]
        td = dv.dims[0]
        rec = dict(ev="field", case=case + suffix, k=k + 1, error="", present=True,
                   times=[minutes(t) for t in ds.indexes[td]])
        if f["agg"] != "none":
            bn = ds[td].attrs.get("bounds", f"{td}_bounds")
            rec["bounds"] = [[minutes(x) for x in b] for b in ds[bn].values] if bn in ds.variables else []
        out(**rec)
        ld = [d for d in dv.dims[1:] if d not in ("x", "y", "pixel")]
        for i in range(dv.sizes[td]):
            for la in range(dv.sizes[ld[0]] if ld else 1):
                sl = dv.isel({td: i, **({ld[0]: la} if ld else {})})
                if "pixel" in sl.dims:
                    g = np.full(ROWS * COLS, np.nan)
                    g[ds["pixel"].values.astype(int)] = sl.values
                    g = g.reshape(ROWS, COLS)
                else:
                    g = place(sl.transpose("y", "x").values, ds["x"].values, ds["y"].values)
                out(ev="grid", case=case + suffix, k=k + 1, i=i + 1, la=la + 1, vals=enc(g, f, isint[k]))


def read_asc(p):
    toks = p.read_text().split()
    h, i = {}, 0
    while toks[i][0].isalpha() and toks[i].lower() != "nan":
        h[toks[i].lower()] = float(toks[i + 1])
        i += 2
    nr, nc = int(h["nrows"]), int(h["ncols"])
    d = np.array([float(x) for x in toks[i:]]).reshape(nr, nc)
    if "nodata_value" in h:
        d[d == h["nodata_value"]] = np.nan
    cs = h.get("cellsize", h.get("dx"))
    return d, [h["xllcorner"] + (c + .5) * cs for c in range(nc)], [h["yllcorner"] + (nr - r - .5) * cs for r in range(nr)]


def emit_files(out, case, fields, resdir, ext, isint, nlayers):
    names = sorted(p.name for p in resdir.glob(f"*.{ext}"))
    for k, f in enumerate(fields):
        pat = re.compile(re.escape(f["out"]) + (r"_(\d+)" if nlayers[k] else "()")
                         + r"(?:_(\d{4}-\d\d-\d\dT\d{4}))?_(\d{4}-\d\d-\d\dT\d{4})\." + ext)
        found = {}
        for nm in names:
            m = pat.fullmatch(nm)
            if m:
                t = pd.to_datetime(m.group(3), format="%Y-%m-%dT%H%M")
                s = pd.to_datetime(m.group(2), format="%Y-%m-%dT%H%M") if m.group(2) else None
                found.setdefault((minutes(t), minutes(s)), {})[int(m.group(1) or 0)] = nm
        keys = sorted(found)
        out(ev="field", case=case, k=k + 1, error="", present=bool(keys), times=[t for t, _ in keys],
            starts=[s for _, s in keys])
        for i, key in enumerate(keys):
            for la, nm in sorted(found[key].items()):
                if ext == "asc":
                    data, xs, ys = read_asc(resdir / nm)
                    g = place(data, xs, ys)
                    out(ev="grid", case=case, k=k + 1, i=i + 1, la=la + 1, vals=enc(g, f, isint[k]))
                    continue
                with rasterio.open(resdir / nm) as r:
                    data = r.read(1).astype(float)
                    if r.nodata is not None:
                        data[data == r.nodata] = np.nan
                    xs = [r.transform * (c + .5, .5) for c in range(r.width)]
                    ys = [r.transform * (.5, j + .5) for j in range(r.height)]
                g = place(data, [x[0] for x in xs], [y[1] for y in ys])
                out(ev="grid", case=case, k=k + 1, i=i + 1, la=la + 1, vals=enc(g, f, isint[k]))


def run_case(case, out, ci, start, step, n, fields, fmt, layout, append, compress, snow, roi):
    c = Case(a.out / f"case{ci}", dem=DEM, roi=roi, rasters={"svf": np.full((2, 3), .9)})
    end = start + (n - 1) * step
    for f in fields:
        f["out"] = f.get("name") or f["var"].split(".")[-1]
        f["int"] = f["var"] in INTS
        f["exact"] = f["var"] in EXACT
        f.setdefault("dates", [])
        f.setdefault("freq", 0)
    over = {"snow": {"model": snow}, "output_data": {"grids": {
        "format": fmt, "layout": layout, "append": append, "compress": compress,
        "variables": [field_cfg(f) for f in fields]},
        "timeseries": {"write_freq": "ME" if step <= 1440 else step_str(step)}}}
    err = ""
    try:
        m = new_model(c.config(stamp(start), stamp(end), step_str(step), over))
        m.initialize(meteo_callback=meteo_callback_from(weather))
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="setup", case=case, start=start, end=end, step=step, error=err, cells=ROWS * COLS,
        roi=[bool(x) for row in roi for x in row], fields=[{k: f[k] for k in (
            "kind", "freq", "agg", "dates", "int", "exact")} for f in fields], format=fmt, layout=layout)
    if err:
        shutil.rmtree(c.dir, ignore_errors=True)
        return
    isint = [f["int"] for f in fields]
    for _ in range(n):
        e = ""
        try:
            m.run_single()
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        vals = []
        for k, f in enumerate(fields):
            v = np.asarray(m.state[f["var"]])
            v = v[None] if v.ndim == 2 else v
            vals.append([enc(x, f, isint[k]) for x in v])
        out(ev="step", case=case, error=e, vals=vals)
        if e:
            return
    nl = [m.state[f["var"]].ndim == 3 for f in fields]
    try:
        if fmt == "netcdf":
            p = c.dir / "results" / "output_grids.nc"
            if p.exists():
                with xr.open_dataset(p, mask_and_scale=False) as d:
                    ds = d.load()
            else:
                ds = xr.Dataset()
            emit_ds(out, case, fields, ds, isint)
        elif fmt == "memory":
            ds = m.gridded_output.data
            ds = xr.Dataset() if ds is None else ds
            emit_ds(out, case, fields, ds, isint)
        else:
            emit_files(out, case, fields, c.dir / "results", "asc" if fmt == "ascii" else "tif", isint, nl)
        if layout == "roi_pixel" and len(ds.data_vars):
            emit_ds(out, case, fields, oa.util.convert_roi_pixel_dataset_to_grid(ds), isint, "/converted")
    except Exception as ex:  # noqa: BLE001
        out(ev="field", case=case, k=1, error=errname(ex) + str(ex)[:80], present=True, times=[])
    shutil.rmtree(c.dir, ignore_errors=True)


STARTS = [mins(2020, 1, 1), mins(2020, 2, 28, 18), mins(2019, 12, 30), mins(2020, 3, 31, 6), mins(2021, 2, 27, 23),
          mins(2020, 6, 30), mins(2019, 11, 15, 12), mins(2020, 12, 30, 3)]


def tick(var, freq, agg="none", name=None, **kw):
    return dict(var=var, kind="tick", freq=freq, agg=agg, name=name, **kw)


def anch(var, kind, agg="none", name=None):
    return dict(var=var, kind=kind, agg=agg, name=name)


def dates(var, ds, agg="none", name=None):
    return dict(var=var, kind="dates", dates=ds, agg=agg, name=name)


cases = []
FMT = [("memory", "grid", False, False), ("netcdf", "grid", False, False), ("netcdf", "grid", True, True),
       ("ascii", "grid", False, False), ("geotiff", "grid", False, True), ("memory", "roi_pixel", False, False),
       ("netcdf", "roi_pixel", False, False), ("netcdf", "roi_pixel", True, False)]
if MODE == "c04":
    # schedules: (step, n) x start x all field kinds; one field set per run
    grid = [(60, 60), (180, 40), (360, 30), (720, 70), (1440, 70), (30, 60), (420, 50), (1440, 400)]
    for si, st in enumerate(STARTS):
        for gi, (step, n) in enumerate(grid):
            if a.quick and (si + gi) % 2:
                continue
            if n == 400 and si not in (2, 5):
                continue
            k = rnd.choice([1, 2, 3, 4, 5, 8])
            n2 = n if rnd.random() < .6 else max(1, n - rnd.randrange(1, min(n, 30)))
            fs = [tick("meteo.temp", step, default=True), tick("meteo.precip", step * k, "sum", "psum"),
                  tick("meteo.temp", step * k, "none", "tk"), tick("meteo.temp", step * k, "mean", "tm"),
                  anch("meteo.temp", "ME", name="t_me"), anch("meteo.precip", "ME", "sum", "p_me"),
                  anch("meteo.temp", "YE", name="t_ye"), anch("meteo.precip", "YE", "sum", "p_ye"),
                  anch("meteo.temp", "MS", "mean", "t_ms_a"),
                  dates("meteo.temp", [st - step, st, st + 2 * step, st + 5 * step, st + n * step], name="t_d"),
                  dates("meteo.precip", [st + step, st + 4 * step, st + 5 * step], "sum", "p_d"),
                  dates("meteo.temp", [st - 5 * step, st - step], name="none")]
            if 1440 % step == 0:
                fs += [anch("meteo.temp", "MS", name="t_ms"), anch("meteo.temp", "YS", name="t_ys"),
                       tick("meteo.precip", 1440, "sum", "p_day"), tick("meteo.temp", 1440, "none", "t_day"),
                       tick("meteo.temp", 1440, "mean", "tm_day")]
            fm = FMT[(si * 3 + gi) % len(FMT)]
            if fm[0] in ("ascii", "geotiff") and n2 > 100:
                fm = FMT[2]
            cases.append((f"sched/{stamp(st)}/{step}x{n2}/{fm[0]}", st, step, n2, fs, *fm,
                          "multilayer", ROIS[si % 4]))
    # frequencies that do not fit the step are refused
    for step, fr in ((180, 60), (180, 240), (60, 90), (1440, 2160), (1440, 720)):
        for agg in ("none", "sum"):
            cases.append((f"refuse/{step}/{fr}/{agg}", STARTS[0], step, 4, [tick("meteo.temp", fr, agg)], *FMT[0],
                          "multilayer", ROIS[0]))
    # a multi-day step
    cases.append(("long", STARTS[0], 2880, 20, [tick("meteo.temp", 5760, "mean"), tick("meteo.precip", 2880)], *FMT[1],
                  "multilayer", ROIS[0]))
else:
    VARS = [("meteo.temp", "t"), ("meteo.precip", "p"), ("snow.swe", None), ("snow.ice_content", "ic"), ("snow.temp", None),
            ("snow.num_layers", "nl"), ("soil.temp", "soilT"), ("surface.temp", "ts"), ("snow.depth", None)]
    reps = 3 if a.quick else 8
    for rep in range(reps):
        for fi, fm in enumerate(FMT):
            for snow in ("multilayer", "cryolayers"):
                step, n = rnd.choice([(180, 21), (60, 26), (360, 17), (1440, 12), (720, 15)])
                st = rnd.choice(STARTS)
                vs = [v for v in VARS if snow == "multilayer" or v[0] not in ("snow.num_layers", "soil.temp")]
                rnd.shuffle(vs)
                fs = []
                for j, (v, nm) in enumerate(vs[:rnd.choice([1, 3, 5, 6])]):
                    agg = ("none", "sum", "mean")[(j + rep + fi) % 3]
                    kind = rnd.choice(["tick", "tick", "tick", "dates", "ME"])
                    nm2 = f"{nm or v.split('.')[-1]}{j}" if rnd.random() < .7 else nm
                    if kind == "tick":
                        fs.append(tick(v, step * rnd.choice([1, 2, 3, 4]), agg, nm2))
                    elif kind == "dates":
                        ks = sorted(rnd.sample(range(n), rnd.choice([1, 2, 4])))
                        fs.append(dates(v, [st + k * step for k in ks], agg, nm2))
                    else:
                        fs.append(anch(v, "ME", agg, nm2))
                if len({(f["name"] or f["var"].split(".")[-1]) for f in fs}) < len(fs):
                    for j, f in enumerate(fs):
                        f["name"] = f"v{j}"
                cases.append((f"val/{rep}/{fm[0]}-{fm[1]}-{fm[2]}/{snow}", st, step, n, fs, *fm, snow,
                              ROIS[(rep + fi) % 4]))

out = Out(a.out / "t.ndjson")
for ci, t in mine(list(enumerate(cases)), a):
    run_case(t[0], out, ci, *t[1:])
out.close()
