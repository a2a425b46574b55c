"""C15: glacier geometry updates of real runs against a twin run without the glacier model."""
from snowlib import *

a = args()
rnd = random.Random(a.seed * 1000 + 15)
ROWS, COLS = 3, 8
N = ROWS * COLS
G = 10  # 1e-1 kg

out = Out(a.out / "t.ndjson")
jobs = [(j, rnd.randint(1, 12), rnd.choice([1440, 1440, 1440, 720]), rnd.choice([100, 100, 1000]), rnd.randrange(10 ** 9))
        for j in range(21 if a.quick else 84)]
for j, sm, step, res, seed in mine(jobs, a):
    r2 = random.Random(seed)
    kind = j % 7
    dem = np.array([[2400 + 60 * r + 25 * c + r2.choice([0, 5, 13]) for c in range(COLS)] for r in range(ROWS)], dtype=float)
    ids = np.array([r2.choice([1, 1, 1, 2, 2, 3, 0]) for _ in range(N)]).reshape(ROWS, COLS)
    thick = np.array([r2.choice([0, 4, 9.97, 10.03, 11, 15, 30, 60, 60]) for _ in range(N)]).reshape(ROWS, COLS).astype(float)
    if kind == 1:      # flat glaciers
        dem[ids == 1] = 2600
    if kind == 2:      # a glacier of two cells, cells at the same height
        ids[ids == 3] = 0
        ids[2, 6:] = 3
        thick[2, 6:] = 20
        dem = np.round(dem, -2)
    if kind == 3:      # thin everywhere: more loss than ice in places
        thick = np.where(thick > 0, 11 + np.arange(N).reshape(ROWS, COLS) % 5, 0)
    roi = np.ones((ROWS, COLS))
    if kind == 4:
        roi[0, :3] = 0
    amp = r2.choice([0, 6, 25 if kind == 3 else 12])   # overall warmth
    start = mins(2019, sm, 1) + r2.choice([0, 0, -20 * 1440, 9 * 1440, -step, step, -100 * 1440]) + r2.choice([0, 0, 6 * 60])
    years = 2 if j % 3 == 0 else 1
    n = int((years * 366 + r2.choice([0, 5, 40])) * 1440 / step)
    ph = np.array([r2.uniform(0, 4) for _ in range(N)]).reshape(ROWS, COLS)

    def fn(i, d, r, c):
        doy = d.dayofyear
        t = 272 + amp + 10 * np.sin((doy - 110) / 365 * 2 * np.pi) - (dem - 2500) * .0065 + ph
        p = 10. if (i * 7 + seed) % 11 < 2 else 0.
        return dict(temp=t, precip=p, rel_hum=70., wind_speed=2., cloud_factor=.7, cloud_fraction=.3)
    case = f"{j}/{sm}/{stamp(start)}/{step}/{kind}"
    c = Case(a.out / f"c{j}", dem=dem, res=res, roi=roi, rasters={"svf": np.ones((ROWS, COLS)), "glaciers": ids})
    over = {"snow": {"model": "cryolayers", "cryolayers": {"transition": {"firn": r2.choice([10, sm, 9])}},
                     "melt": {"method": "temperature_index", "degree_day_factor": r2.choice([4., 8., 14.])}},
            "reset_state_variables": bool(j % 4 == 1)}
    end = stamp(start + (n - 1) * step)
    err, ms = "", []
    try:
        for gl in (True, False):
            m = new_model(c.config(stamp(start), end, step_str(step),
                                   deep_merge(over, {"glaciers": {"enabled": gl, "delta_h": {"mass_balance_year_start_month": sm}}})))
            m.initialize(meteo_callback=meteo_callback_from(fn))
            s = m.state.snow
            ok = m.grid.roi & (thick > 0)
            s.ice_content[3][ok] = thick[ok] * 917.
            s.density[3][ok] = 900.
            s.thickness[3][ok] = thick[ok] * 917. / 900.
            fi = ok & (ids != 2)
            s.ice_content[2][fi] = 800.
            s.density[2][fi] = 600.
            s.thickness[2][fi] = 800. / 600
            ms.append(m)
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    idv = np.where(roi > 0, ids, 0)
    out(ev="setup", case=case, error=err, cells=N, sm=sm, res=res, z=ints(dem, 10), id=[int(x) for x in idv.ravel()])
    if err:
        continue
    A, B = ms
    mask = A.grid.roi

    def col(m, lay):
        v = arr(m, "snow.ice_content")[lay] + arr(m, "snow.liquid_water_content")[lay]
        return ints(np.where(mask, v, 0), G)
    for i in range(n):
        e = ""
        try:
            A.run_single()
        except Exception as ex:  # noqa: BLE001
            e = errname(ex)
        if e:
            out(ev="step", case=case, error=e)
            break
        B.run_single()
        t, tp, tn = (from_minutes(start + (i + k) * step) for k in (0, -1, 1))
        first, last = tp.month != t.month, tn.month != t.month
        icea, iceb = arr(A, "snow.ice_content")[3], arr(B, "snow.ice_content")[3]
        names = [v for v in A.state.snow._meta if v in B.state.snow._meta]
        diff = [v for v in names if not np.array_equal(arr(A, "snow." + v)[..., mask], arr(B, "snow." + v)[..., mask], equal_nan=True)]
        same = not diff
        # other layers and fluxes of the step are not the glacier model's business
        rest = not (set(diff) - {"ice_content", "thickness", "depth", "swe", "density", "num_layers", "layer_albedo", "albedo",
                                 "area_fraction", "cold_content", "heat_cap"})
        for v in ("ice_content", "liquid_water_content"):
            rest = rest and np.array_equal(arr(A, "snow." + v)[:3], arr(B, "snow." + v)[:3], equal_nan=True)
        th, we, de = arr(A, "snow.thickness"), arr(A, "snow.ice_content") + arr(A, "snow.liquid_water_content"), arr(A, "snow.density")
        cons = bool(np.allclose(arr(A, "snow.swe")[mask], we.sum(axis=0)[mask], rtol=1e-9, atol=1e-9)
                    and np.allclose(arr(A, "snow.depth")[mask], th.sum(axis=0)[mask], rtol=1e-9, atol=1e-9)
                    and np.allclose(np.where(th > 0, th * de, 0)[:, mask], we[:, mask], rtol=1e-6, atol=1e-6)
                    and np.array_equal(arr(A, "snow.num_layers")[mask], (th > 0).sum(axis=0)[mask]))
        if first or last or not same or not rest or not cons:
            out(ev="step", case=case, error="", month=t.month, first=bool(first), last=bool(last), same=bool(same), restsame=bool(rest),
                consistent=cons, a=dict(ice=col(A, 3), firn=col(A, 2)), b=dict(ice=col(B, 3), firn=col(B, 2)))
        if not same:
            for v in names:
                B.state.snow[v][...] = A.state.snow[v]
    shutil.rmtree(c.dir, ignore_errors=True)
out.close()
