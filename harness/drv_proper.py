"""C31/C32: settling and depth of snow, properties of soil and surface in real runs."""
from snowlib import *

a = args()
rnd = random.Random(a.seed * 1000 + 31 + (a.part == "ground"))
words = read_words(a)
rnd.shuffle(words)
ROWS, COLS = 3, 6
PER = ROWS * COLS
L6 = 1e6
out = Out(a.out / "t.ndjson")


def lay(m, name, scale, mask):
    return [ints(x[mask], scale) for x in arr(m, name)]


def flags(v, mask):
    return [[bool(y) for y in x[mask]] for x in v]


def before(m, mask, model):
    d = dict(pnl=[int(x) for x in arr(m, "snow.num_layers")[mask]], pice=lay(m, "snow.ice_content", M, mask),
             pliq=lay(m, "snow.liquid_water_content", M, mask), pth=lay(m, "snow.thickness", L6, mask),
             pbare=[bool(x) for x in (arr(m, "snow.thickness") > 0).sum(axis=0)[mask] == 0], pwet=flags(arr(m, "snow.liquid_water_content") > 0, mask))
    if model == "multilayer":
        t = arr(m, "snow.temp")
        d.update(pcold=flags(t < 273.15, mask), pst=[ints(x[mask] - 273.15, 1e4) for x in t],
                 pgst=[ints(x[mask] - 273.15, 1e6) for x in arr(m, "soil.temp")])
    else:
        d.update(pcold=flags(np.ones_like(arr(m, "snow.thickness")) > 0, mask))
    return d


def rec(m, mask, model):
    g = lambda n, s: ints(arr(m, n)[mask], s)  # noqa: E731
    d = dict(ta=g("meteo.temp", TK), twb=g("meteo.wet_bulb_temp", TK), snowf=g("meteo.snowfall", M), melt=g("snow.melt", M),
             subl=g("snow.sublimation", M), refr=g("snow.refreezing", M), th=lay(m, "snow.thickness", L6, mask),
             ice=lay(m, "snow.ice_content", M, mask), liq=lay(m, "snow.liquid_water_content", M, mask),
             nl=[int(x) for x in arr(m, "snow.num_layers")[mask]], depth=g("snow.depth", L6), sca=g("snow.area_fraction", 1e6),
             fell=[bool(x > 0) for x in arr(m, "meteo.snowfall")[mask]], bare=[bool(x == 0) for x in arr(m, "snow.depth")[mask]], cap=lay(m, "snow.heat_cap", 1, mask), alb=g("snow.albedo", AL),
             salb=g("surface.albedo", AL), rough=g("surface.roughness_length", L6))
    if model == "multilayer":
        d.update(cond=g("surface.conductance", L6), sd=g("surface.thickness", L6), sk=g("surface.therm_cond", L6),
                 st=[ints(x[mask] - 273.15, 1e4) for x in arr(m, "snow.temp")],
                 stl=ints(arr(m, "surface.layer_temp")[mask] - 273.15, 1e4), gth=lay(m, "soil.vol_moisture_content", L6, mask),
                 gsu=lay(m, "soil.frac_unfrozen_moisture_content", L6, mask), gsf=lay(m, "soil.frac_frozen_moisture_content", L6, mask),
                 gcap=lay(m, "soil.heat_cap", .1, mask), gk=lay(m, "soil.therm_cond", L6, mask), gd=lay(m, "soil.thickness", L6, mask))
    return d


jobs = []
for j in range(28 if a.quick else 160):
    model = ("multilayer", "cryolayers", "multilayer")[j % 3] if a.part == "depth" else ("multilayer", "multilayer", "multilayer", "cryolayers")[j % 4]
    jobs.append((j, model, rnd.choice([60, 60, 180, 30, 360, 360 if model == "multilayer" else 1440]), rnd.randrange(10 ** 9)))
for j, model, step, seed in mine(jobs, a):
    r2 = random.Random(seed)
    ws = [r2.choice(words) + r2.choice(words) + r2.choice(words) for _ in range(PER)]
    holds = [[r2.choice([1, 2, 3, 5]) for _ in w] for w in ws]
    fn0, _ = field(ws, holds, r2, min(step / 60, 6), ROWS, COLS)
    gap = {i: r2.choice(["temp", "rel_hum", "rel_hum"]) for i in range(24) if r2.random() < r2.choice([0, .2])}
    off = np.array([r2.choice([0, 0, -8, 2]) for _ in range(PER)]).reshape(ROWS, COLS)

    def fn(i, d, r, c):
        f = fn0(i, d, r, c)
        f["temp"] = f["temp"] + off
        if i in gap:
            f[gap[i]] = np.full_like(f["temp"], np.nan)
        return f
    n = 24
    start = r2.choice([mins(2020, 1, 10), mins(2020, 4, 3, 9), mins(2020, 9, 29, 20)])
    c = Case(a.out / f"c{j}", dem=np.full((ROWS, COLS), 2000.0), rasters={"svf": np.ones((ROWS, COLS))})
    comp = "empirical" if model == "multilayer" and r2.random() < .4 else "anderson"
    scale, mc, mw = r2.choice([200, 50, 12]), r2.choice([300, 300, 260]), r2.choice([500, 500, 420])
    scf = r2.choice([0, .1, .1, 1., .03])
    sand, clay = r2.choice([(.6, .3), (.6, .3), (.1, .8), (.9, .05), (0, 1.), (1., 0), (.33, .33), (.2, .05)])
    wet = r2.choice([.5, .5, 1., .05, .8, 0])
    zs, zg, kg, ks = r2.choice([.01, .001, .02]), r2.choice([.1, .03, .2]), r2.choice([.01, .02, .002]), r2.choice([.24, .4, .1])
    sa = r2.choice([.15, .25, .1])
    icedens = r2.choice([900, 900, 850])
    over = {"meteo": {"precipitation_phase": {"method": r2.choice(["temp", "wet_bulb_temp"]), "threshold_temp": 273.65, "temp_range": 0.0}},
            "snow": {"model": model, "snow_cover_fraction_depth_scale": scf, "roughness_length": zs, "thermal_conductivity": ks,
                     "compaction": {"method": comp, "timescale": scale, "max_cold_density": mc, "max_melting_density": mw},
                     "cryolayers": {"transition": {"ice": icedens}}},
            "soil": {"init_temp": r2.choice([273.15, 278., 268., 272.9, 255.]), "sand_fraction": sand, "clay_fraction": clay,
                     "init_moisture_content": wet, "roughness_length": zg, "saturated_soil_surface_conductance": kg, "albedo": sa,
                     "thickness": r2.choice([[.1, .2, .4, .8]] * 3 + [[.1, .2], [.05, .1, .2, .4, .8, 1.6], [.3]])}}
    if model == "multilayer":
        over["snow"]["min_thickness"] = r2.choice([[.1, .2, .4]] * 3 + [[.1, .1], [.02, .03, .05, .1, .2], [.2]])
    elif r2.random() < .4:
        over["snow"]["melt"] = {"method": r2.choice(["temperature_index"]), "degree_day_factor": 6., "threshold_temp": 273.15}
    case = f"{model}/{j}/{step}/{comp}/{sand}-{clay}-{wet}/{scf}{'/gaps' if gap else ''}"
    err = ""
    try:
        m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), over))
        m.initialize(meteo_callback=meteo_callback_from(fn))
        mask = m.grid.roi
        s = m.state.snow
        pick = np.arange(PER).reshape(ROWS, COLS)
        if model == "cryolayers":
            for k, bit, dens in ((1, 4, 350.), (2, 1, 600.), (3, 2, 900.)):
                mass = np.where(pick % 8 & bit > 0, 120. + 30 * k, 0.)
                s.ice_content[k][mask] = mass[mask]
                s.thickness[k][mask] = mass[mask] / dens
                s.density[k][mask] = np.where(mass > 0, dens, np.nan)[mask]
                s.layer_albedo[k][mask] = np.where(mass > 0, .5, np.nan)[mask]
        else:
            mt = m.config.snow.min_thickness
            for p in range(PER):
                if p % 3 == 1:
                    q = divmod(p, COLS)
                    nl = r2.randint(1, len(mt))
                    s.num_layers[q] = nl
                    for k in range(nl):
                        s.thickness[k][q] = mt[k]
                        s.ice_content[k][q] = mt[k] * r2.uniform(100, 400)
                        s.liquid_water_content[k][q] = r2.choice([0, 0, mt[k] * 10])
                        s.temp[k][q] = 273.15 if s.liquid_water_content[k][q] > 0 else 273.15 - r2.uniform(0, 8)
                    s.albedo[q] = .7
        s.swe[mask] = (s.ice_content + s.liquid_water_content).sum(axis=0)[mask]
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    extra = {}
    if not err and model == "multilayer":
        so = m.state.soil
        g1 = lambda n, s: fx(np.asarray(so[n])[mask][0], s)  # noqa: E731
        extra = dict(vs=g1("vol_moisture_content_sat", L6), b=g1("clapp_hornberger", 1e4), psi=g1("sat_water_pressure", L6),
                     vc=g1("vol_moisture_content_crit", L6), dry=g1("vol_heat_cap_dry", 1e-3), kd=g1("therm_cond_dry", L6),
                     th0=[fx(x[mask][0], L6) for x in so.vol_moisture_content])
    out(ev="setup", case=case, error=err, part=a.part, model=model, step=step, cells=PER, compact=comp, scale=scale, maxcold=mc * 1000,
        maxwarm=mw * 1000, scf=fx(scf, L6), icedens=icedens * 1000, sand=fx(sand, 1e4), clay=fx(clay, 1e4), wet=fx(wet, 1e4), zsnow=fx(zs, L6),
        zsoil=fx(zg, L6), gsat=fx(kg, L6), ksnow=fx(ks, L6), soilalb=fx(sa, L6), **extra)
    if err:
        continue
    for i in range(n):
        pre = before(m, mask, model)
        try:
            m.run_single()
            e = ""
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        out(ev="step", case=case, error=e, **pre, **rec(m, mask, model))
        if e:
            break
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
