"""Shared driver library: builds small synthetic openAMUNDSEN cases in a scratch
directory and runs the real code of /repo on them.  Only public entry points
(OpenAmundsen, its state, its outputs, forcing helpers) are used."""
import copy
import json
import math
import os
import sys
import warnings
from pathlib import Path

warnings.filterwarnings("ignore")
REPO = os.environ.get("OA_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

import openamundsen as oa  # noqa: E402
import openamundsen.errors  # noqa: E402,F401

assert os.path.realpath(oa.__file__).startswith(os.path.realpath(REPO)), oa.__file__

X0, Y0 = 600000.0, 5180000.0  # lower left corner of every synthetic grid (UTM 32N)
CRS = "epsg:32632"
NODATA = -9999


def write_asc(path, arr, res, xll=X0, yll=Y0, nodata=NODATA):
    arr = np.asarray(arr, dtype=float)
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    with open(path, "w") as f:
        f.write(f"ncols {arr.shape[1]}\nnrows {arr.shape[0]}\n")
        f.write(f"xllcorner {xll}\nyllcorner {yll}\ncellsize {res}\nNODATA_value {nodata}\n")
        for row in arr:
            f.write(" ".join(repr(float(nodata if math.isnan(v) else v)) for v in row) + "\n")


def deep_merge(a, b):
    out = copy.deepcopy(a)
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = deep_merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def default_dem(rows, cols):
    r, c = np.mgrid[0:rows, 0:cols]
    return 1500.0 + 150.0 * r + 40.0 * c + 13.0 * ((r * 7 + c * 3) % 5)


class Case:
    """A synthetic model setup in a scratch directory."""

    def __init__(self, workdir, rows=3, cols=4, res=100, dem=None, roi=None, rasters=None,
                 domain="syn"):
        self.dir = Path(workdir)
        self.dir.mkdir(parents=True, exist_ok=True)
        self.grids = self.dir / "grids"
        self.res = res
        self.domain = domain
        self.dem = default_dem(rows, cols) if dem is None else np.asarray(dem, dtype=float)
        self.rows, self.cols = self.dem.shape
        self.raster("dem", self.dem)
        if roi is not None:
            self.raster("roi", np.asarray(roi, dtype=float))
        for name, arr in (rasters or {}).items():
            self.raster(name, arr)

    def raster(self, name, arr):
        write_asc(self.grids / f"{name}_{self.domain}_{self.res}.asc", arr, self.res)

    def config(self, start, end, timestep="h", over=None, fmt="callback"):
        cfg = {
            "domain": self.domain,
            "start_date": start,
            "end_date": end,
            "resolution": self.res,
            "timestep": timestep,
            "crs": CRS,
            "timezone": 1,
            "results_dir": str(self.dir / "results"),
            "enable_default_logging": False,
            "input_data": {
                "grids": {"dir": str(self.grids)},
                "meteo": {"dir": str(self.dir / "meteo"), "format": fmt},
            },
            "output_data": {
                "timeseries": {"format": "memory", "add_default_points": False},
                "grids": {"format": "memory", "variables": []},
            },
        }
        return deep_merge(cfg, over or {})

    def xy(self, row, col):
        """Centre coordinates of a pixel."""
        return (X0 + (col + 0.5) * self.res, Y0 + (self.rows - row - 0.5) * self.res)


def to_lonlat(x, y):
    import pyproj
    tr = pyproj.Transformer.from_crs(CRS, "epsg:4326", always_xy=True)
    return tr.transform(x, y)


def station_dataset(sid, dates, x, y, alt, data, name=None):
    """Point forcing dataset (openamundsen.forcing) from plain columns."""
    lon, lat = to_lonlat(x, y)
    df = pd.DataFrame(data, index=pd.DatetimeIndex(dates))
    return oa.forcing.make_point_dataset(df, point_id=sid, name=name or sid, lon=lon, lat=lat, alt=alt)


def meteo_callback_from(fn):
    """fn(date_idx, date, rows, cols) -> dict of meteo fields on the whole grid."""

    def cb(model):
        f = fn(model.date_idx, model.date, model.grid.rows, model.grid.cols)
        m = model.state.meteo
        roi = model.grid.roi
        for k, v in f.items():
            arr = np.broadcast_to(np.asarray(v, dtype=float), roi.shape)
            m[k][roi] = arr[roi]
    return cb


def const_meteo(**over):
    base = dict(temp=268.0, precip=0.0, rel_hum=70.0, wind_speed=2.0, cloud_factor=0.8,
                cloud_fraction=0.3)
    base.update(over)
    return lambda i, d, r, c: base


def new_model(cfg):
    return oa.OpenAmundsen(oa.Configuration.fromDict(copy.deepcopy(cfg))
                           if hasattr(oa, "Configuration") else cfg)


class Out:
    """ndjson writer."""

    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def __call__(self, **rec):
        self.f.write(json.dumps(rec, default=_js) + "\n")
        self.n += 1

    def close(self):
        self.f.close()


def _js(o):
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


FIX_MAX = 200_000_000
NANV = -210_000_000  # NaN marker in fixed-point traces


def fx(v, scale):
    """Fixed-point integer for TLC (32-bit): NaN -> NANV, out of range saturates."""
    v = float(v)
    if math.isnan(v):
        return NANV
    w = v * scale
    if w >= FIX_MAX:
        return FIX_MAX
    if w <= -FIX_MAX:
        return -FIX_MAX
    return int(round(w))


# ---- time helpers (independent of the code under test) ---------------------------------------
import argparse  # noqa: E402
import datetime as _dt  # noqa: E402
import hashlib  # noqa: E402
import random  # noqa: E402
import shutil  # noqa: E402
import traceback  # noqa: E402

EPOCH = _dt.datetime(2000, 1, 1)


def minutes(ts):
    """Minutes since 2000-01-01 00:00 of anything datetime-like (-1: None, -2: not a full minute)."""
    if ts is None:
        return -1
    ts = pd.Timestamp(ts)
    if ts is pd.NaT:
        return -3
    s = (ts.to_pydatetime(warn=False) - EPOCH).total_seconds()
    return int(s // 60) if s % 60 == 0 else -2


def from_minutes(m):
    return EPOCH + _dt.timedelta(minutes=m)


def stamp(m):
    return from_minutes(m).strftime("%Y-%m-%d %H:%M")


def datestr(m):
    return from_minutes(m).strftime("%Y-%m-%d")


def mins(y, mo, d, h=0, mi=0):
    return minutes(_dt.datetime(y, mo, d, h, mi))


def step_str(m):
    if m % 1440 == 0:
        return f"{m // 1440}D" if m != 1440 else "D"
    if m % 60 == 0:
        return f"{m // 60}h" if m != 60 else "h"
    return f"{m}min"


def args():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out", required=True)
    ap.add_argument("--work", default="/tmp")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--part", default="")
    a = ap.parse_args()
    a.out = Path(a.out)
    a.quick = a.tier == "quick"
    return a


def errname(exc):
    return type(exc).__name__


def is_oa_runtime_error(exc):
    return isinstance(exc, oa.errors.OpenAmundsenRuntimeError)


def state_digest(model):
    """Digest of every state variable of a model."""
    h = hashlib.sha256()
    for cat in sorted(model.state.categories):
        for name in sorted(model.state[cat]._meta.keys()):
            a = np.ascontiguousarray(model.state[cat][name])
            h.update(f"{cat}.{name}{a.shape}{a.dtype}".encode())
            h.update(a.tobytes())
    return h.hexdigest()


def ds_digest(ds):
    if ds is None:
        return ""
    h = hashlib.sha256()
    for v in sorted(ds.variables):
        a = np.ascontiguousarray(ds[v].values)
        h.update(f"{v}{a.shape}{a.dtype}".encode())
        h.update(a.tobytes() if a.dtype != object else str(a.tolist()).encode())
    return h.hexdigest()


def mine(items, a):
    return [x for i, x in enumerate(items) if i % a.nshards == a.shard]
