"""C27: terrain parameters, shadows and sky view of elevation models (functions and model fields)."""
import json
from oalib import *
import random
import importlib
from openamundsen import terrain
shadows = importlib.import_module("openamundsen.modules.radiation.shadows").shadows

a = args()
rnd = random.Random(a.seed * 1000 + 27)
words = [json.loads(x) for x in open(Path(a.work) / "terrain.ndjson")]
rnd.shuffle(words)
out = Out(a.out / "g.ndjson")


def ints(v, s):
    return [fx(x, s) for x in np.asarray(v, dtype=float).ravel()]


def grid(v, s):
    return [ints(r, s) for r in np.asarray(v)]


def dem_of(w, r2):
    rows, cols = r2.choice([(4, 4), (5, 6), (6, 5), (7, 4), (4, 8), (3, 3), (4, 4), (10, 3)])
    rr, cc = np.mgrid[1:rows + 1, 1:cols + 1]
    d = r2.choice([2000., 2000., 0., -60., 4.]) + w["tilt"][0] * rr + w["tilt"][1] * cc
    oy, ox = r2.randrange(max(rows - 3, 1)), r2.randrange(max(cols - 3, 1))
    for i, j, h in w["cells"]:
        if i - 1 + oy < rows and j - 1 + ox < cols:
            d[i - 1 + oy, j - 1 + ox] += h
    k = r2.random()
    if k < .5:
        d = d + np.array([[r2.choice([0, 0, 3.5, 11.25, -7.5, 31.]) for _ in range(cols)] for _ in range(rows)])
    return np.round(d, 2)


def fields(case, dem, res, slope, aspect, nv, how):
    out(ev="field", case=case, how=how, g=grid(dem, 100), res=res, s=grid(slope, 1000), a=grid(aspect, 1000), nx=grid(nv[0], 1e6),
        ny=grid(nv[1], 1e6), nz=grid(nv[2], 1e6))


N = 260 if a.quick else 1500
for j, w in mine(list(enumerate(words[:N])), a):
    r2 = random.Random(a.seed * 13 + j)
    dem, res = dem_of(w, r2), r2.choice([10, 25, 50, 50, 100, 250])
    kind = r2.choice(["float", "float", "int", "f32"])
    use = np.round(dem).astype(int) if kind == "int" else np.round(dem).astype(np.float32) if kind == "f32" else dem
    dem = dem if kind == "float" else np.round(dem)
    keep = use.copy()
    err = ""
    case = f"{j}/{dem.shape[0]}x{dem.shape[1]}/{res}/{kind}"
    try:
        slope, aspect = terrain.slope_aspect(use, res)
        nv = terrain.normal_vector(use, res)
        fields(case, dem, res, slope, aspect, nv, "function")
        n = r2.choice([1, 1, 2, 3])
        if n <= min(dem.shape) - 1:
            length = n * res if r2.random() < .6 else round((n - .3) * res)
            cv = terrain.curvature(use, res, "liston", L=None if n == 1 and length == res else length)
            out(ev="curv", case=case, g=grid(dem, 100), res=res, n=n, len=length, c=grid(cv, 1e6))
        # sun in a main direction, or anywhere
        for _ in range(5):
            el = r2.choice([2, 5, 10, 20, 35, 50, 65, 80]) + r2.choice([0, .37])
            az = r2.choice([0, 45, 90, 135, 180, 225, 270, 315] + [r2.randrange(0, 360000) / 1000 for _ in range(6)])
            er, ar = np.deg2rad(el), np.deg2rad(az)
            sv = np.array([np.sin(ar) * np.cos(er), -np.cos(ar) * np.cos(er), np.sin(er)])
            if az % 90 == 0:
                sv[np.abs(sv) < 1e-9] = 0
            elif az % 45 == 0:
                sv[:2] = np.sign(sv[:2]) * np.cos(er) * np.sqrt(.5)
            lit = shadows(use, res, sv, num_sweeps=r2.choice([1, 1, 2, -1]))
            out(ev="sun", case=f"{case}/{az}/{el}", g=grid(dem, 100), res=res, az=fx(az, 1000), el=fx(el, 1000), main=az % 45 == 0,
                lit=[[int(x) for x in r] for r in lit])
        if dem.size <= 30 or not a.quick:
            svf = terrain.sky_view_factor(use, res, azim_step=45)
            sall = terrain.sky_view_factor(use, res, azim_step=120)
            out(ev="view", case=case, g=grid(dem, 100), res=res, steep=int(np.ceil(np.nanmax(slope) - 1e-9)) or 1, svf=grid(svf, 1e6), other=grid(sall, 1e6))
        L = r2.choice([1, 2, 3]) * res
        op = terrain.openness(use, res, L, mean=False)
        opn = terrain.openness(use, res, L, negative=True, mean=False)
        opm = terrain.openness(use, res, L)
        out(ev="open", case=case, g=grid(dem, 100), res=res, n=int(L / res), o=[grid(np.rad2deg(x), 1000) for x in op],
            neg=[grid(np.rad2deg(x), 1000) for x in opn], m=grid(np.rad2deg(opm), 1000))
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="done", case=case, error=err, untouched=bool(np.array_equal(keep, use)), at=a.shard)

# ---- small grids and whole models -------------------------------------------
for j in [x for x, _ in mine(list(enumerate(range(14 if a.quick else 60))), a)]:
    r2 = random.Random(a.seed * 17 + j)
    w = r2.choice(words)
    dem, res = dem_of(w, r2), r2.choice([50, 100])
    if j % 5 == 4:
        dem = dem[:r2.choice([1, 2]), :]
    ext = j % 3 == 1 and min(dem.shape) >= 3
    err, case = "", f"model/{j}/{'ext' if ext else 'own'}"
    rows, cols = dem.shape
    c = Case(a.out / f"m{j}", rows=rows, cols=cols, res=res, dem=dem)
    try:
        svfd = dem
        r0 = c0 = 0
        cfg = c.config("2020-06-01 00:00", "2020-06-01 03:00", "3H", {"meteo": {"interpolation": {"wind": {
            "method": "liston", "curvature_length_scale": res}}}})
        d = Path(cfg["input_data"]["grids"]["dir"])
        if ext:
            pad = r2.choice([1, 2, 3])
            svfd = np.pad(dem, ((pad, pad + 1), (pad, pad)), mode="edge") + 0.
            svfd[:pad] += 80
            svfd = np.round(svfd, 2)
            svfd[pad:pad + rows, pad:pad + cols] = dem
            r0 = c0 = pad
            write_asc(d / f"extended-dem_syn_{res}.asc", svfd, res, xll=X0 - pad * res, yll=Y0 - (pad + 1) * res)
        for f in d.glob("*svf*"):
            f.unlink()
        m = new_model(cfg)
        m.initialize(meteo_callback=meteo_callback_from(const_meteo()))
        b = m.state.base
        fields(case, dem, res, b.slope, b.aspect, b.normal_vec, "model")
        want = terrain.sky_view_factor(svfd, res)[r0:r0 + rows, c0:c0 + cols]
        out(ev="base", case=case, g=grid(dem, 100), dem=grid(b.dem, 100), svf=grid(b.svf, 1e6), want=grid(want, 1e6),
            flat=bool(np.ptp(svfd) == 0))
        if min(dem.shape) >= 3:
            out(ev="scaled", case=case, g=grid(dem, 100), res=res, n=1, len=res, c=grid(b.scaled_curvature, 1e6))
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    out(ev="done", case=case, error=err, untouched=True, at=a.shard)
out.close()
