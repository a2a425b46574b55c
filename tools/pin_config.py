#!/usr/bin/env python3
"""Writes harness/data/config_schema.json: the settings of the configuration with their types, limits and
documented defaults, as they were in the pinned tree.  Run once by hand (/opt/venv/bin/python); the checks only read it."""
import json, sys
sys.path[:0] = ["/verif/harness", "/repo"]
from confval import flatten
import openamundsen as oa
from openamundsen import util

schema = util.read_yaml_file("/repo/openamundsen/data/configschema.yml")
leaves = {}


def walk(s, path):
    for k, v in s.items():
        p = f"{path}.{k}" if path else k
        if "schema" in v and v.get("type") == "dict":
            walk(v["schema"], p)
        else:
            d = {q: v[q] for q in ("type", "allowed", "min", "max", "nullable", "required", "minlength", "maxlength") if q in v}
            if "schema" in v and isinstance(v["schema"], dict) and "type" in v["schema"]:
                d["items"] = v["schema"]["type"]
            leaves[p] = json.loads(json.dumps(d, default=str))


walk(schema, "")
base = dict(domain="d", start_date="2020-01-01", end_date="2020-01-02", crs="epsg:32632", resolution=50, timezone=1)
eff = flatten(oa.parse_config(base))
json.dump({"leaves": leaves, "defaults": eff}, open("/verif/harness/data/config_schema.json", "w"), indent=1, sort_keys=True)
print(len(leaves), len(eff))
