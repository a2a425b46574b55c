"""C16: confinement to the region of interest, independence of cells, resetting of state variables."""
from snowlib import *

a = args()
rnd = random.Random(a.seed * 1000 + 16)
words = read_words(a)
rnd.shuffle(words)
ROWS, COLS = 4, 6
N = ROWS * COLS
FORCING = ("temp", "precip", "rel_hum", "wind_speed", "cloud_factor", "cloud_fraction")
SNOWS = [{"model": "multilayer"}, {"model": "cryolayers"},
         {"model": "cryolayers", "melt": {"method": "temperature_index", "degree_day_factor": 5.}},
         {"model": "multilayer", "snow_cover_fraction_depth_scale": .1},
         {"model": "cryolayers", "melt": {"method": "enhanced_temperature_index", "degree_day_factor": 3., "albedo_factor": .2}}]
MODS = [{}, {"canopy": {"enabled": True}, "evapotranspiration": {"enabled": True}}, {"evapotranspiration": {"enabled": True}},
        {"glaciers": {"enabled": True}}, {"canopy": {"enabled": True}}]


def variables(m):
    return [f"{c}.{v}" for c in m.state.categories for v in m.state[c]._meta]


def digests(m, names):
    """one 30-bit number per cell over all state variables"""
    mask = m.grid.roi
    h = np.zeros(mask.shape, dtype=np.uint64)
    for n in names:
        v = arr(m, n)
        v = v if v.ndim == 3 else v[None]
        for x in v:
            b = np.ascontiguousarray(np.where(x == x, x, -1.25e300) + 0.0).astype(float).view(np.uint64)
            h = (h * np.uint64(1099511628211) + b) & np.uint64(0xFFFFFFFFFFFFFFFF)
            h ^= h >> np.uint64(29)
    h = (h >> np.uint64(7)) & np.uint64(0x3FFFFFFF)
    return [int(x) if ok else 0 for x, ok in zip(h.ravel(), mask.ravel())]


out = Out(a.out / "t.ndjson")
jobs = [(j, rnd.choice([60, 180, 360, 1440]), rnd.randrange(10 ** 9)) for j in range(28 if a.quick else 140)]
for j, step, seed in mine(jobs, a):
    r2 = random.Random(seed)
    snow, mods = SNOWS[j % 5], MODS[(j // 5 + j) % 5]
    if "glaciers" in mods and snow["model"] != "cryolayers":
        mods = {}
    dark = r2.random() < .5 or "enhanced" in str(snow)      # no shortwave: then cells share nothing
    # in the light, the mean albedo of the region enters the radiation of all cells
    subset = dark or ("temperature_index" == snow.get("melt", {}).get("method") and not {"evapotranspiration", "canopy"} & set(mods))
    roi = np.array([[r2.random() < .75 for _ in range(COLS)] for _ in range(ROWS)])
    roi[1, 1:3] = True
    sub = roi & np.array([[r2.random() < .5 for _ in range(COLS)] for _ in range(ROWS)])
    sub[1, 1] = True
    n = 26
    ws = [r2.choice(words) + r2.choice(words) + r2.choice(words) for _ in range(N)]
    holds = [[r2.choice([1, 2, 3, 5]) for _ in w] for w in ws]
    fn0, _ = field(ws, holds, r2, min(step / 60, 6), ROWS, COLS)
    gap = r2.choice([0, 0, .04])
    gaps = np.array([[r2.random() < gap for _ in range(N)] for _ in range(n)]).reshape(n, ROWS, COLS)

    def fn(i):
        f = {k: np.array(v) for k, v in fn0(i, None, ROWS, COLS).items()}
        if dark:
            f["cloud_factor"] = np.zeros((ROWS, COLS))
        f["temp"][gaps[i]] = np.nan
        return f
    start = r2.choice([mins(2020, 9, 29), mins(2020, 4, 3), mins(2020, 6, 10), mins(2020, 2, 27)])
    lc = np.array([r2.choice([1, 2, 4, 5, 6, 8, 10]) for _ in range(N)]).reshape(ROWS, COLS)
    soil = np.array([r2.randint(1, 9) for _ in range(N)]).reshape(ROWS, COLS)
    gl = np.array([r2.choice([0, 1, 1, 2]) for _ in range(N)]).reshape(ROWS, COLS)
    dem = default_dem(ROWS, COLS)
    case = f"{j}/{snow['model']}/{'+'.join(mods)}/{step}/{'dark' if dark else 'light'}"
    rasters = dict(svf=np.ones((ROWS, COLS)), lc=lc, soil=soil, glaciers=gl)
    other = {k: np.where(roi, v, np.roll(v, 5)) for k, v in rasters.items()}
    over = deep_merge({"snow": snow}, mods)
    err, ms = "", {}
    stale, lost, after = [], [], {}
    try:
        for name in ("base", "outer", "dirty", "sub", "reset"):
            c = Case(a.out / f"c{j}{name}", dem=dem, roi=sub if name == "sub" else roi, rasters=other if name == "outer" else rasters)
            m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step),
                                   deep_merge(over, {"reset_state_variables": name == "reset"})))

            def cb(model, name=name):
                if name == "reset":
                    for v in variables(model):
                        x = arr(model, v)
                        if model.state.meta(v).retain:
                            if v in after and not np.array_equal(x, after[v], equal_nan=True):
                                lost.append(v)
                        elif not (np.all(np.isnan(x)) if x.dtype.kind == "f" else np.all(x == 0)):
                            stale.append(v)
                f = fn(model.date_idx)
                mask = model.grid.roi
                if name == "dirty":     # whatever is outside
                    g = random.Random(model.date_idx + 1)
                    for v in variables(model):
                        x = arr(model, v)
                        if x.dtype.kind == "f" and not v.startswith("base."):
                            model.state[v][..., ~mask] = g.choice([.5, 1., np.nan, 250., .1])
                for k, v in f.items():
                    if name == "outer":
                        g = random.Random(model.date_idx)
                        model.state.meteo[k][:] = np.where(mask, v, g.choice([1., 280., 50., np.nan, .5]))
                    else:
                        model.state.meteo[k][mask] = v[mask]
            m.initialize(meteo_callback=cb)
            ms[name] = m
            if "glaciers" in mods:
                ok = m.grid.roi & (gl > 0)
                m.state.snow.ice_content[3][ok] = 30000.
                m.state.snow.density[3][ok] = 900.
                m.state.snow.thickness[3][ok] = 30000 / 900.
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    if err:
        out(ev="setup", case=case, error=err)
        continue
    names = {k: variables(m) for k, m in ms.items()}
    cmpn = [v for v in names["base"] if all(v in names[k] for k in names)]
    # the mean albedo of the region enters the clear-sky radiation of all cells
    subn = [v for v in cmpn if not v.startswith("base.") and not any(
        s in v for s in ("sw_in_clearsky", "dir_in_clearsky", "diff_in_clearsky", "sw_in", "sw_out", "net_radiation", "top_canopy_sw"))]
    cfg = ms["base"].config
    bare = {"surface.albedo": fx(cfg.soil.albedo, M), "surface.roughness_length": fx(cfg.soil.roughness_length, M)}
    out(ev="setup", case=case, error="", cells=N, subset=bool(subset), bare=bare,
        roi={k: [bool(x) for x in m.grid.roi.ravel()] for k, m in ms.items()})
    init = {k: {v: arr(m, v).copy() for v in names[k]} for k, m in ms.items()}

    def outside(k):
        m = ms[k]
        o = ~m.grid.roi
        d = {}
        for v in names[k]:
            if k == "outer" and v in ["meteo." + f for f in FORCING] + ["meteo.last_24h_temps"]:
                continue
            x, y = arr(m, v)[..., o], init[k][v][..., o]
            new = x[~((x == y) | ((x != x) & (y != y)))]
            if len(new):
                d[v] = sorted({fx(q, M) for q in new})[:6]
        return d
    for i in range(n):
        e = ""
        stale.clear(), lost.clear()
        for k, m in ms.items():
            try:
                m.run_single()
            except Exception as ex:  # noqa: BLE001
                e = k + errname(ex)
        if e:
            out(ev="step", case=case, error=e)
            break
        after.update({v: arr(ms["reset"], v).copy() for v in names["reset"]})
        h = {k: digests(m, cmpn) for k, m in ms.items()}
        if subset:
            # compared on the variables that do not depend on the region's mean albedo
            hb = digests(ms["base"], subn)
            hs = digests(ms["sub"], subn)
            full = h["base"]
            h["sub"] = [f if x == y else -1 for f, x, y in zip(full, hb, hs)]
        out(ev="step", case=case, error="", h=h, outside={k: outside(k) for k in ("base", "outer")}, stale=list(stale), lost=list(lost))
    for k in ms:
        shutil.rmtree(a.out / f"c{j}{k}", ignore_errors=True)
out.close()
