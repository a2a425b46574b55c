"""C17: acceptance, completion and normalisation of configurations."""
from oalib import *
import copy, datetime, io
from confval import canon, flatten
import pandas as pd

a = args()
PIN = json.load(open(Path(__file__).parent / "data" / "config_schema.json"))
LEAVES, DEFAULTS = PIN["leaves"], PIN["defaults"]
rnd = random.Random(a.seed * 1000 + 17)
BASE = pd.Timestamp(2020, 2, 28)
ADDR = dict(domain="d", start_date="2020-01-01", end_date="2020-01-02", crs="epsg:32632", resolution=50, timezone=1)
STEPS = {60: ["h", "1h", "H", "60min", "1H"], 180: ["3h", "3H", "180min"], 1440: ["D", "1D", "24h", "24H", "1440min"], 2880: ["2D", "48h"],
         4320: ["3D", "72h"], 7200: ["5D", "120h"]}
FREQS = {0: ["ME", "YE", "MS"], 60: ["60min", "1h"]}
warnings.simplefilter("ignore")


def put(cfg, path, v):
    ks = path.split(".")
    for k in ks[:-1]:
        k = int(k) if k.isdigit() else k
        cfg = cfg.setdefault(k, {})
    cfg[ks[-1]] = v


def spell(m, table, r2):
    if m in table:
        return r2.choice(table[m])
    return r2.choice([f"{m // 1440}D"] if m % 1440 == 0 else [f"{m}min"] + ([f"{m // 60}h", f"{m // 60}H"] if m % 60 == 0 else []))


def build(r, r2):
    c = dict(domain="d", crs="epsg:32632" if r["projected"] else r2.choice(["epsg:4326", "epsg:4258"]), resolution=50, timezone=1)
    s = BASE + pd.Timedelta(minutes=r["start"])
    c["start_date"] = r2.choice([str(s), s, s.to_pydatetime()] + ([str(s.date())] if r["start"] % 1440 == 0 else []))
    e = BASE + pd.Timedelta(minutes=r["end"])
    c["end_date"] = r2.choice([str(e.date()), e.date(), f" {e.date()} "] if r["dateonly"] else [str(e), e, e.to_pydatetime(), e.strftime("%Y-%m-%d %H:%M")])
    if r["step"] != 60 or r2.random() < .8:
        c["timestep"] = spell(r["step"], STEPS, r2)
    if r["wf"] or r2.random() < .3 or r["step"] > 1440:
        put(c, "output_data.timeseries.write_freq", spell(r["wf"], FREQS, r2))
    simple = {"snow": "snow.model", "melt": "snow.melt.method", "ddf": "snow.melt.degree_day_factor", "af": "snow.melt.albedo_factor",
              "albedo": "snow.albedo.method", "det": "snow.albedo.decay_timescale_determination_temperature", "how": "snow.albedo.refresh_method",
              "day_method": "meteo.interpolation.cloudiness.day_method", "method": "meteo.interpolation.cloudiness.method",
              "night_method": "meteo.interpolation.cloudiness.night_method",
              "csf_night_method": "meteo.interpolation.cloudiness.clear_sky_fraction_night_method",
              "wind_speed": "meteo.interpolation.wind_speed.method", "wind": "meteo.interpolation.wind.method"}
    scaled = {"thresh": ("meteo.precipitation_phase.threshold_temp", 1000), "cold": ("snow.albedo.cold_snow_decay_timescale", 1000),
              "melting": ("snow.albedo.melting_snow_decay_timescale", 1000), "refresh": ("snow.albedo.refresh_snowfall", 100),
              "k_neg": ("snow.albedo.k_neg", 1000), "k_pos": ("snow.albedo.k_pos", 1000), "sig": ("snow.albedo.significant_snowfall", 100)}
    for k, p in simple.items():
        if r[k] not in ("", -1):
            put(c, p, r[k])
    for k, (p, f) in scaled.items():
        if r[k] != -1:
            put(c, p, r[k] / f)
    if r["glaciers"] or r2.random() < .3:
        put(c, "glaciers.enabled", r["glaciers"])
    return c


def effective(c):
    m = lambda t: int((t - BASE) / pd.Timedelta(minutes=1))  # noqa: E731
    alb = c.snow.albedo
    wf = c.output_data.timeseries.write_freq
    opt = lambda v: -1 if v is None else int(v)  # noqa: E731
    try:
        wfm = int(pd.Timedelta(pd.tseries.frequencies.to_offset(wf)) / pd.Timedelta(minutes=1))
    except ValueError:
        wfm = 0
    return dict(start=m(c.start_date), end=m(c.end_date), step=int(pd.Timedelta(pd.tseries.frequencies.to_offset(c.timestep)) / pd.Timedelta(minutes=1)),
                snow=c.snow.model, melt=c.snow.melt.method, ddf=opt(c.snow.melt.degree_day_factor), af=opt(c.snow.melt.albedo_factor),
                glaciers=bool(c.glaciers.enabled), thresh=fx(c.meteo.precipitation_phase.threshold_temp, 1000),
                albedo=dict(method=alb.method, cold=fx(alb.cold_snow_decay_timescale, 1000), melting=fx(alb.melting_snow_decay_timescale, 1000),
                            temp=alb.decay_timescale_determination_temperature, refresh=fx(alb.refresh_snowfall, 100), how=alb.refresh_method),
                method=c.meteo.interpolation.cloudiness.method, csf_night_method=c.meteo.interpolation.cloudiness.clear_sky_fraction_night_method,
                wind=c.meteo.interpolation.wind.method, wf=wfm)


def parse(c):
    """result, error, whether the caller's configuration was left alone"""
    before = copy.deepcopy(c)
    try:
        r, err = oa.parse_config(c), ""
    except Exception as e:  # noqa: BLE001
        r, err = None, errname(e)
    return r, err, before == c and flatten(before) == flatten(c)


def again(r):
    f = flatten(r)
    r2, e, _ = parse(r)
    first = e or ("" if flatten(r2) == f else "changed")
    try:  # written out and read in again
        c = oa.Configuration.from_yaml(repr(r))
        c["end_date"] = str(c["end_date"])
        r3, e, _ = parse(c)
        second = e or ("" if flatten(r3) == f else "changed")
    except Exception as ex:  # noqa: BLE001
        second = errname(ex)
    return first, second


def raws():
    out = []
    for ln in open(Path(a.work) / "configs.ndjson"):
        out.append(json.loads(ln))
    return out


def cross(rs, r2):
    """a configuration with one aspect from each of several enumerated ones"""
    x = dict(r2.choice(rs))
    for keys in (("start", "end", "dateonly", "step", "wf", "projected"), ("snow", "melt", "ddf", "af", "glaciers"),
                 ("day_method", "method"), ("night_method", "csf_night_method"), ("wind_speed", "wind"),
                 ("albedo", "cold", "melting", "det", "refresh", "how", "k_neg", "k_pos", "sig"), ("thresh",)):
        y = r2.choice(rs)
        for k in keys:
            x[k] = y[k]
    return x


SKIP = {"start_date", "end_date", "timestep", "crs", "snow.melt.method", "snow.model", "glaciers.enabled", "glaciers.model", "snow.albedo.method",
        "land_cover.classes", "output_data.timeseries.write_freq", "input_data.meteo.format", "input_data.meteo.crs"}
SPECIAL = {"numba_threads": [1, 3, None, "auto"], "input_data.meteo.bounds": ["global", "grid", [1., 2., 3., 4.]],
           "input_data.meteo.exclude": [["a"], ["a", "b"]], "input_data.meteo.include": [["c"]],
           "input_data.meteo.filters": [[{"var": "temp", "filter": "range", "min": 250}], []],
           "output_data.grids.variables": [[{"var": "snow.swe", "name": "x", "freq": "D", "agg": "mean"}], [{"var": "meteo.temp"}]],
           "output_data.timeseries.points": [[{"x": 1., "y": 2., "name": "p"}], [{"x": 1, "y": 2}]],
           "output_data.timeseries.variables": [[{"var": "snow.swe", "name": "z"}]],
           "liveview.variables": [[{"var": "snow.swe", "min": 0., "max": 4.}]],
           "meteo.precipitation_correction": [[{"method": "wmo", "gauge": "us_un"}, {"method": "constant_scf", "scf": 1.5}]],
           "snow.min_thickness": [[.1, .2], [.05, .1, .2, .4, .8]], "soil.thickness": [[.1, .3], [.2, .2, .2, .2, .2]],
           "meteo.precipitation_phase.threshold_temp": [272.5, 275.], "timezone": [0, 5, -3], "simulation_timezone": [None, 2, -4]}
LC = [("max_height", 3.5), ("rooting_depth", .75), ("depletion_fraction", .41), ("plant_date", 77), ("is_forest", True), ("scale_height", False),
      ("leaf_area_index.min", 1.5), ("leaf_area_index.max", 8.5), ("leaf_area_index.effective_add", 2.5), ("crop_coefficients", [.1, .2, .3]),
      ("growth_stage_lengths", [10, 20, 30, 40]), ("growth_stage_lengths", [[10, 20, 30, 40], [5, 6, 7, 8]]), ("is_sealed", True),
      ("is_water_body", True), ("crop_coefficient_type", "single"), ("sparse_vegetation_fraction", .25), ("max_sealed_interception", .5)]


def good(p, d, r2):
    if p in SPECIAL:
        return r2.choice(SPECIAL[p])
    if "allowed" in d:
        return r2.choice(d["allowed"])
    t = d.get("type")
    if t == "boolean":
        return r2.random() < .5
    if t in ("number", "integer", "float"):
        lo, hi = d.get("min"), d.get("max")
        if t == "integer":
            return r2.randint(lo if lo is not None else 1, hi if hi is not None else 60)
        v = round(r2.uniform(lo if lo is not None else .1, hi if hi is not None else 90.), 3)
        return r2.choice([v, int(v)]) if lo is None else v
    if t == "list" and "minlength" in d:
        return [round(r2.uniform(-.01, .01), 5) for _ in range(12)]
    if t == "string" or p == "results_dir":
        return r2.choice(["abc", "some/dir", "X1"])
    return None


def bad(p, d, r2):
    """a value the schema must refuse"""
    c = []
    if "allowed" in d:
        c += ["nonsense", 17]
    t = d.get("type")
    if t == "boolean":
        c += ["maybe", 3, [1]]
    if t in ("number", "integer", "float"):
        c += ["many", [1], {"a": 1}]
        if t == "integer":
            c += [1.5]
        if "min" in d:
            c += [d["min"] - 1]
        if "max" in d:
            c += [d["max"] + 1]
    if t == "list":
        c += ["text", 5] + ([[0.1] * 11, [.1] * 13] if "minlength" in d else [])
    if t == "string" and "coerce" not in d:
        c += [5, [1]]
    return r2.choice(c) if c else None


out = Out(a.out / "t.ndjson")
rs = raws()
rnd.shuffle(rs)
# every enumerated configuration of the module/name/date aspects (a sample in the quick tier), then random combinations
jobs = [("enum", r) for r in (rs[:500] if a.quick else rs[:9000])] + [("cross", None)] * (160 if a.quick else 3000) + \
       [("leaf", None)] * (140 if a.quick else 2000) + [("bad", None)] * (80 if a.quick else 1500) + [("model", None)] * (8 if a.quick else 40)
# every setting is set and refused at least once
jobs += [("leaf1", p) for p in LEAVES if p not in SKIP] + [("bad1", p) for p in LEAVES] + [("unknown", p) for p in sorted({q.rpartition(".")[0] + ".x" for q in LEAVES})] + [("missing", k) for k in ADDR]
jobs = [(i, k, x, rnd.randrange(10 ** 9)) for i, (k, x) in enumerate(jobs)]
out(ev="pin", case="pin", defaults=DEFAULTS)
for i, kind, x, seed in mine(jobs, a):
    r2 = random.Random(seed)
    if kind in ("enum", "cross"):
        r = x or cross(rs, r2)
        c = build(r, r2)
        res, err, kept = parse(c)
        eff = effective(res) if res is not None else {}
        ag = again(res) if res is not None and r2.random() < (.25 if a.quick else 1) else ("", "")
        out(ev="cfg", case=f"{kind}{i}", raw=r, text=str(c)[:600], accepted=res is not None, error=err, eff=eff, kept=kept, again=ag[0], rewritten=ag[1])
    elif kind in ("leaf", "leaf1", "model"):
        ps = [x] if x else r2.sample([p for p in LEAVES if p not in SKIP], r2.randint(1, 6))
        c, st = copy.deepcopy(ADDR), {}
        for p in ps:
            v = good(p, LEAVES[p], r2)
            if v is None and not LEAVES[p].get("nullable"):
                continue
            put(c, p, v)
            st[p] = canon(v)
            for q in [q for q in DEFAULTS if q.startswith(p + ".")]:
                st[q] = "absent"
        if not x:
            for k in r2.sample(["4", "5", "1", "33"], r2.randint(0, 2)):
                for f, v in r2.sample(LC, r2.randint(1, 3)):
                    p = f"land_cover.classes.{k}.{f}"
                    put(c, p, v)
                    st[p] = canon(v)
        how = r2.choice(["dict", "yaml", "munch"])
        if kind == "model":
            from oalib import Case  # the configuration a model works with
            how = "model"
        try:
            if how == "model":
                before = copy.deepcopy(c)
                res, err, kept = oa.OpenAmundsen(c).config, "", None
                kept = before == c
            elif how == "yaml":
                f = a.out / f"c{i}.yml"
                f.write_text(repr(oa.Configuration.fromDict(c)))
                res, err, kept = parse(oa.read_config(f))
                f.unlink()
            else:
                res, err, kept = parse(oa.Configuration.fromDict(c) if how == "munch" else c)
        except Exception as e:  # noqa: BLE001
            res, err, kept = None, errname(e), True
        eff = flatten(res) if res is not None else {}
        out(ev="leaf", case=f"{kind}{i}/{how}/{'+'.join(st)}"[:150], set=st, accepted=res is not None, error=err,
            eff={p: v for p, v in eff.items() if p in DEFAULTS or p in st}, kept=kept)
    else:
        c = copy.deepcopy(ADDR)
        if kind == "missing":
            del c[x]
            what = x
        elif kind == "unknown":
            p = x.rsplit(".", 1)
            what = (p[0] + "." if p[0] else "") + "no_such_setting"
            put(c, what, 1)
        else:
            p = x or r2.choice(list(LEAVES))
            v = bad(p, LEAVES[p], r2)
            if v is None and "nullable" in LEAVES[p] or p in ("numba_threads", "end_date", "start_date", "results_dir", "land_cover.classes", "input_data.meteo.bounds"):
                continue
            for q in ([] if x else r2.sample([q for q in LEAVES if q not in SKIP], 2)):
                g = good(q, LEAVES[q], r2)
                if g is not None:
                    put(c, q, g)
            put(c, p, v)
            what = f"{p}={v}"
        res, err, kept = parse(c)
        out(ev="bad", case=f"{kind}{i}/{what}"[:150], accepted=res is not None, error=err, kept=kept)
out.close()
