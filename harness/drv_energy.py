"""C24/C25: energy exchange at the surface and within snow and soil of real runs."""
from snowlib import *

a = args()
rnd = random.Random(a.seed * 1000 + 24)
words = read_words(a)
rnd.shuffle(words)
ROWS, COLS = 3, 8
PER = ROWS * COLS
W = 100          # fluxes 1e-2 W m-2
out = Out(a.out / "t.ndjson")


def rec(m, mask, model, before):
    g = lambda n, s: ints(arr(m, n)[mask], s)  # noqa: E731
    d = dict(swin=g("meteo.sw_in", W), swout=g("meteo.sw_out", W), lwin=g("meteo.lw_in", W), lwout=g("meteo.lw_out", W),
             net=g("meteo.net_radiation", W), alb=g("surface.albedo", AL), ts=g("surface.temp", TK), ta=g("meteo.temp", TK),
             twb=g("meteo.wet_bulb_temp", TK), H=g("surface.sens_heat_flux", W), LE=g("surface.lat_heat_flux", W),
             adv=g("surface.advective_heat_flux", W), G=g("surface.heat_flux", W), E=g("surface.moisture_flux", 1e10),
             lat=g("surface.lat_heat", 1), rho=g("meteo.dry_air_density", 1e5), ch=g("surface.turbulent_exchange_coeff", 1e9),
             u=g("meteo.wind_speed", 1e3), q=g("meteo.spec_hum", 1e7), qs=g("surface.sat_spec_hum", 1e7), p=g("meteo.atmos_press", 1),
             av=g("surface.moisture_availability", 1e6), rain=g("meteo.rainfall", M), snowf=g("meteo.snowfall", M),
             melt=g("snow.melt", M), subl=g("snow.sublimation", M), refr=g("snow.refreezing", M),
             ice=layers(m, "ice_content", M, mask), liq=layers(m, "liquid_water_content", M, mask),
             th=layers(m, "thickness", TH, mask), nl=[int(x) for x in arr(m, "snow.num_layers")[mask]],
             sca=g("snow.area_fraction", 10 ** 6), cond=g("surface.conductance", 1e9),
             at0=[bool(x) for x in arr(m, "surface.temp")[mask] == 273.15])
    if model == "cryolayers":
        d["cc"] = layers(m, "cold_content", M, mask)
    else:
        t = arr(m, "snow.temp")
        d.update(k=g("surface.therm_cond", 1e6), d=g("surface.thickness", TH), tl=g("surface.layer_temp", TK),
                 st=[ints(x[mask] - 273.15, 1e4) for x in t], cap=layers(m, "heat_cap", 1, mask), sk=layers(m, "therm_cond", 1e6, mask),
                 gst=[ints(x[mask] - 273.15, 1e4) for x in arr(m, "soil.temp")],
                 gdt=[ints((x - y)[mask], 1e5) for x, y in zip(arr(m, "soil.temp"), before)],
                 gcap=[ints(x[mask], 1) for x in arr(m, "soil.heat_cap")], gk=[ints(x[mask], 1e6) for x in arr(m, "soil.therm_cond")],
                 gd=[ints(x[mask], TH) for x in arr(m, "soil.thickness")], gflux=g("soil.heat_flux", 1000))
    return d


jobs = []
for j in range(36 if a.quick else 180):
    jobs.append((j, ("multilayer", "cryolayers", "multilayer")[j % 3], rnd.choice([60, 60, 180, 30, 360, 1440]), rnd.randrange(10 ** 9)))
for j, model, step, seed in mine(jobs, a):
    r2 = random.Random(seed)
    meth = r2.choice(["secant", "secant", "legacy"])
    emis = r2.choice([.99, .99, .97, 1.])
    flux = r2.choice([-2, -2, 0, 5])
    stab, adj = r2.random() < .35, r2.random() < .3
    hold, fac = r2.choice([.05, .05, .2, 0.]), r2.choice([1., 1., .5])
    scf = r2.choice([0, 0, .1])
    calm = r2.random() < .25
    case = f"{model}/{j}/{step}/{meth if model[0] == 'c' else ''}{'/stab' if stab else ''}{'/calm' if calm else ''}"
    ws = [r2.choice(words) + r2.choice(words) + r2.choice(words) for _ in range(PER)]
    holds = [[r2.choice([1, 2, 3, 5]) for _ in w] for w in ws]
    fn0, _ = field(ws, holds, r2, min(step / 60, 4), ROWS, COLS)
    still = np.array([r2.random() < .1 for _ in range(PER)]).reshape(ROWS, COLS)
    hot = np.array([r2.choice([0, 0, 3, -8]) for _ in range(PER)]).reshape(ROWS, COLS)

    def fn(i, d, r, c):
        f = fn0(i, d, r, c)
        f["wind_speed"] = np.where(still | calm, 0., f["wind_speed"])
        f["temp"] = f["temp"] + hot
        return f
    n = 24
    start = r2.choice([mins(2020, 1, 10), mins(2020, 4, 3, 9), mins(2020, 5, 20, 6), mins(2020, 9, 29, 20)])
    c = Case(a.out / f"c{j}", dem=np.full((ROWS, COLS), 2000.0), rasters={"svf": np.ones((ROWS, COLS))})
    over = {"snow": {"model": model, "snow_cover_fraction_depth_scale": scf, "measurement_height_adjustment": adj,
                     "cryolayers": {"surface_temperature_iteration_method": meth, "surface_heat_flux": flux, "cold_holding_capacity": hold,
                                    "refreezing_factor": fac}},
            "meteo": {"stability_correction": stab, "radiation": {"snow_emissivity": emis}},
            "soil": {"init_temp": r2.choice([273.15, 278., 268.]),
                     "thickness": r2.choice([[.1, .2, .4, .8]] * 3 + [[.1, .2], [.1, .1, .2, .4, .8, 1.6], [.3]])}}
    if model == "multilayer":
        over["snow"]["min_thickness"] = r2.choice([[.1, .2, .4]] * 3 + [[.1, .1], [.1, .1, .2, .4], [.2]])
    err, r0 = "", {}
    try:
        m = new_model(c.config(stamp(start), stamp(start + (n - 1) * step), step_str(step), over))
        m.initialize(meteo_callback=meteo_callback_from(fn))
        mask = m.grid.roi
        if model == "cryolayers":
            pick = np.arange(PER).reshape(ROWS, COLS)
            for lay, bit, dens in ((1, 4, 350.), (2, 1, 600.), (3, 2, 900.)):
                mass = np.where(pick % 8 & bit > 0, 120., 0.)
                m.state.snow.ice_content[lay][mask] = mass[mask]
                m.state.snow.thickness[lay][mask] = mass[mask] / dens
                m.state.snow.density[lay][mask] = np.where(mass > 0, dens, np.nan)[mask]
                m.state.snow.layer_albedo[lay][mask] = np.where(mass > 0, .5, np.nan)[mask]
            m.state.snow.swe[mask] = (m.state.snow.ice_content + m.state.snow.liquid_water_content).sum(axis=0)[mask]
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="setup", case=case, error=err, model=model, step=step, dt=step * 60, cells=PER, meth=meth, emis=fx(emis, 1e6), flux=fx(flux, W),
        hold=fx(hold, 1e6), fac=fx(fac, 1e6), calm=calm, stab=stab, plain=not adj and scf == 0,
        zw=fx(m.config.meteo.measurement_height.wind, 1000) if not err else 0, zt=fx(m.config.meteo.measurement_height.temperature, 1000) if not err else 0,
        zsnow=fx(m.config.snow.roughness_length, 1e6) if not err else 0, zsoil=fx(m.config.soil.roughness_length, 1e6) if not err else 0)
    if err:
        continue
    for i in range(n):
        before = [x.copy() for x in arr(m, "soil.temp")] if model == "multilayer" else []
        try:
            m.run_single()
            e = ""
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        out(ev="step", case=case, error=e, first=i == 0, **rec(m, mask, model, before))
        if e:
            break
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
