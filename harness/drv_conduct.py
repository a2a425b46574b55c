"""C25: temperature changes in stacks of layers, as computed by the heat conduction scheme."""
import json
from snowlib import *
from openamundsen import heatconduction as hc

a = args()
rnd = random.Random(a.seed * 1000 + 25)
words = [json.loads(x) for x in open(Path(a.work) / "heat.ndjson")]
rnd.shuffle(words)
out = Out(a.out / "p.ndjson")
for j, w in mine(list(enumerate(words if not a.quick else words[:500])), a):
    n = len(w["t"])
    r2 = random.Random(rnd.random() * 1e9 + j + a.seed)
    cols = 4
    dt = r2.choice([1800., 3600., 10800., 86400.])
    rg = np.random.default_rng(r2.randrange(10 ** 9))
    T = 273.15 + np.array([[x * -2.5 for x in w["t"]]] * cols).T + rg.uniform(-.4, .4, (n, cols)).round(4)
    dx = rg.choice([.1, .2, .05, .4, .015], (n, cols))
    k = rg.choice([.24, .3, .62517, 1.1], (n, cols))
    cap = rg.choice([2e4, 6e4, 3e5, 1.2e6], (n, cols))
    base = 273.15 + w["base"] * -2.5 + rg.uniform(-.4, .4, cols).round(4)
    dxb, kb = rg.choice([.1, .2], cols), rg.choice([.62517, .7], cols)
    flux = np.array([(0, -1, 1)[w["flux"]]] * cols) * rg.choice([3., 20., 60.], cols)
    args_ = (dx, dt, T, k, base, dxb, kb, flux, cap)
    keep = [np.copy(x) for x in args_]
    err, res, one = "", np.full((n, cols), np.nan), np.full((n, cols), np.nan)
    try:
        res = np.asarray(hc.temp_change_array(*args_))
        for c in range(cols):
            one[:, c] = hc.temp_change(dx[:, c], dt, T[:, c], k[:, c], base[c], dxb[c], kb[c], flux[c], cap[:, c])
    except Exception as e:  # noqa: BLE001
        err = errname(e)
    same = all(np.array_equal(x, y) for x, y in zip(keep, args_))
    for c in range(cols):
        for how, d in (("array", res[:, c]), ("single", one[:, c])):
            out(ev="stack", case=f"stack/{n}/{j}/{c}/{how}", error=err, untouched=bool(same), n=n, dt=int(dt), d=ints(dx[:, c], 1e5), k=ints(k[:, c], 1e6),
                t=ints(T[:, c] - 273.15, 1e4), dT=ints(d, 1e5), cap=ints(cap[:, c], 1), flux=fx(flux[c], 1e3), base=fx(base[c] - 273.15, 1e4),
                db=fx(dxb[c], 1e5), kb=fx(kb[c], 1e6))
out.close()
