"""canonical text of configuration values"""
import json, math
from pathlib import Path


def canon(v):
    if isinstance(v, bool) or v is None:
        return json.dumps(v)
    if isinstance(v, (int, float)):
        return "nan" if math.isnan(v) else repr(float(v))
    if isinstance(v, (str, Path)):
        return json.dumps(str(v))
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {canon(v[k])}" for k in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(canon(x) for x in v) + "]"
    return str(v)


def flatten(d, path=""):
    out = {}
    for k, v in d.items():
        p = f"{path}.{k}" if path else str(k)
        if isinstance(v, dict):
            out.update(flatten(v, p))
        else:
            out[p] = canon(v)
    return out
