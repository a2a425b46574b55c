"""Runs the snow models of the real code on weather words and records the pack of every cell."""
from oalib import *

M = 10_000     # masses: 1e-4 kg m-2
TH = 100_000   # lengths: 1e-5 m
TK = 1000      # temperatures: 1e-3 K
AL = 1_000_000  # albedo


def weather_of(sym, rnd):
    """(temp, precip per hour, rel_hum, wind, cloud_factor)"""
    j = rnd.uniform(-1, 1)
    return {
        "cold": (258 + 6 * j, 0, 60, 1, .9), "snow": (268 + 3 * j, 1 + .8 * j, 85, 2, .4),
        "heavy": (270 + 2 * j, 8 + 4 * j, 95, 3, .3), "mixed": (274.0 + .6 * j, 2 + j, 95, 2, .4),
        "rain": (278 + 3 * j, 3 + 2 * j, 95, 2, .4), "icy": (274.9 + .2 * j, 1.5 + j, 97, 1, .5),
        "warm": (276 + 2 * j, 0, 60, 2, .8), "hot": (289 + 5 * j, 0, 35, 4, 1.),
        "windy": (267 + 4 * j, 0, 15, 12 + 3 * j, 1.), "frost": (264 + 3 * j, 0, 100, 4, 1.),
    }[sym]


def read_words(a):
    p = Path(a.work) / "words.ndjson"
    return [json.loads(x)["w"] for x in open(p)]


def field(words, holds, rnd, step_h, rows, cols, nan_precip=0.0):
    """words: per cell a list of symbols; -> fn(i, date, r, c) with the symbols held"""
    seqs = []
    for w, h in zip(words, holds):
        s = []
        for sym, k in zip(w, h):
            v = weather_of(sym, rnd)
            for _ in range(k):
                p = v[1] * step_h
                if nan_precip and rnd.random() < nan_precip:
                    p = float("nan")
                s.append((v[0], p, *v[2:]))
        seqs.append(s)
    n = max(len(s) for s in seqs)
    for s in seqs:
        s.extend([s[-1]] * (n - len(s)))
    arr = np.array(seqs, dtype=float)  # cell, step, var

    def fn(i, d, r, c):
        v = arr[:, min(i, n - 1), :].reshape(rows, cols, 5)
        return dict(temp=v[..., 0], precip=v[..., 1], rel_hum=v[..., 2], wind_speed=v[..., 3], cloud_factor=v[..., 4],
                    cloud_fraction=1 - v[..., 4])
    return fn, n


def arr(m, name):
    return np.asarray(m.state[name])


def ints(v, scale):
    return [fx(x, scale) for x in np.asarray(v, dtype=float).ravel()]


def layers(m, name, scale, mask):
    v = arr(m, f"snow.{name}")
    return [ints(x[mask], scale) for x in v]


def record(m, mask):
    s = m.state.snow
    z = lambda n: ints(arr(m, n)[mask], M)  # noqa: E731
    return dict(
        ice=layers(m, "ice_content", M, mask), liq=layers(m, "liquid_water_content", M, mask),
        th=layers(m, "thickness", TH, mask), temp=layers(m, "temp", TK, mask), dens=layers(m, "density", 100, mask),
        swe=z("snow.swe"), snowf=z("meteo.snowfall"), rain=z("meteo.rainfall"), precip=z("meteo.precip"),
        runoff=z("snow.runoff"),
        subl=z("snow.sublimation"), melt=z("snow.melt"), refr=z("snow.refreezing"),
        depth=ints(arr(m, "snow.depth")[mask], TH), nl=[int(x) for x in arr(m, "snow.num_layers")[mask]],
        bare=[bool(x == 0) for x in arr(m, "snow.depth")[mask]],
        sca=ints(arr(m, "snow.area_fraction")[mask], 10000))


CONFIGS = [
    ("ml", {"model": "multilayer"}, 60),
    ("ml_emp", {"model": "multilayer", "compaction": {"method": "empirical"}}, 180),
    ("ml_mass", {"model": "multilayer", "liquid_water_content": {"method": "mass_fraction", "max": .1}}, 180),
    ("ml_2l", {"model": "multilayer", "min_thickness": [.05, .15], "snow_cover_fraction_depth_scale": .1}, 1440),
    ("ml_5l", {"model": "multilayer", "min_thickness": [.02, .03, .05, .1, .2]}, 360),
    ("ml_1l", {"model": "multilayer", "min_thickness": [.1]}, 720),
    ("cl", {"model": "cryolayers"}, 60),
    ("cl_mass", {"model": "cryolayers", "liquid_water_content": {"method": "mass_fraction", "max": .1}}, 180),
    ("cl_ti", {"model": "cryolayers", "melt": {"method": "temperature_index", "degree_day_factor": 6.}}, 1440),
    ("cl_eti", {"model": "cryolayers", "melt": {"method": "enhanced_temperature_index", "degree_day_factor": 4.,
                                                "albedo_factor": .2}}, 180),
    ("cl_two", {"model": "cryolayers", "cryolayers": {"use_single_snow_albedo": False}}, 360),
]
