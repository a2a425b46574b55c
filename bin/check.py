#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [--tier quick|thorough] [--keep]

1. design:   TLC checks the property's specification module exhaustively within its constants
             (and writes out model behaviours where the plan asks for them);
2. binding:  driver processes run the real code of /repo (its current working tree) and record traces;
3. verdict:  TLC validates every recorded trace against the specification.

Exit 0: held.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.  Exit 2: machinery error.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
sys.path.insert(0, str(HARNESS))
import plans  # noqa: E402

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"


class Machinery(Exception):
    pass


def run_tlc(module, cfg, work, env=None, timeout=800, workers=2, extra=(), heap="2g"):
    meta = Path(tempfile.mkdtemp(prefix="tlc_", dir=work))
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
           "-config", f"{cfg}", "-workers", str(workers), "-metadir", str(meta),
           "-noGenerateSpecTE", "-nowarning", *extra, f"{module}.tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as err:
        raise Machinery(f"TLC timed out on {module}/{cfg}") from err
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ","))
    if not m:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def design_run(job, work, tier):
    cfg = job.get(f"{tier}_cfg", job["cfg"])
    env = {}
    outfile = None
    if job.get("emit"):
        outfile = Path(work) / job["emit"]
    t0 = time.time()
    rc, out = run_tlc(job["module"], cfg, work, env=env, workers=job.get("workers", 2),
                      extra=job.get("extra", ()), heap=job.get("heap", "4g"),
                      timeout=job.get("timeout", 800))
    gen, dist = tlc_counts(out)
    ok = "Model checking completed. No error has been found." in out or (
        job.get("simulate") and rc == 0)
    if not ok:
        raise Machinery(f"design model {job['module']}/{cfg} did not pass:\n" + out[-4000:])
    if outfile is not None:
        n = 0
        with open(outfile, "w") as f:
            for line in out.splitlines():
                m = re.match(r'^<<"EMIT", "(.*)">>$', line.strip())
                if m:
                    f.write(m.group(1).replace('\\"', '"').replace("\\\\", "\\") + "\n")
                    n += 1
        if n == 0:
            raise Machinery(f"{job['module']} emitted no behaviour:\n" + out[-3000:])
    return {"module": job["module"], "cfg": cfg, "generated": gen, "distinct": dist,
            "wall_s": round(time.time() - t0, 1)}


def drive(job, work, tier, seed, shard, nshards, numba_dir):
    outdir = Path(work) / f"drv_{job['script'][:-3]}_{job.get('part', '')}_{shard}"
    outdir.mkdir()
    env = {"HOME": "/root", "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
           "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
           "SETUPTOOLS_SCM_PRETEND_VERSION": "1.0.0", "NUMBA_CACHE_DIR": str(numba_dir),
           "OA_REPO": os.environ.get("OA_REPO", "/repo"), "MPLBACKEND": "Agg",
           "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "TMPDIR": str(outdir)}
    env.update(job.get("env", {"NUMBA_DISABLE_JIT": "1"}))
    cmd = [PY, str(HARNESS / job["script"]), "--out", str(outdir), "--tier", tier, "--seed", str(seed),
           "--shard", str(shard), "--nshards", str(nshards), "--work", str(work),
           "--part", job.get("part", ""), *job.get("args", [])]
    try:
        p = subprocess.run(cmd, env=env, cwd=outdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=job.get("timeout", 700 if tier == "quick" else 6000))
    except subprocess.TimeoutExpired:
        return outdir, "hang"
    if p.returncode != 0:
        if p.returncode > 0 and f'File "{env["OA_REPO"]}/' in p.stdout:
            return outdir, "crash: " + p.stdout[-3000:]
        raise Machinery(f"driver {job['script']} shard {shard} failed (rc {p.returncode}):\n" + p.stdout[-5000:])
    return outdir, None


# TLC breaks long tuples over several lines
BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)",\s*"([^"]*)"\s*>>')
DONE = re.compile(r'<<\s*"DONE",\s*(\d+)\s*>>')


def validate(trace, module, work, part=""):
    n = sum(1 for _ in open(trace))
    if n == 0:
        raise Machinery(f"empty trace {trace}")
    rc, out = run_tlc(module, f"{module}.cfg", work, env={"TRACE": str(trace), "PART": part or "-"}, workers=1,
                      heap="3g")
    bad = {(int(i), case, clause) for i, case, clause in BAD.findall(out)}
    if out.count('"BAD"') != len(BAD.findall(out)):
        raise Machinery(f"unreadable verdicts of {module}:\n" + out[-5000:])
    done = [int(x) for x in DONE.findall(out)]
    done = done[-1] if done else None
    gen, dist = tlc_counts(out)
    if done != n and "Error: " in out and ("TLC threw" in out or "The error occurred when TLC was evaluating" in out
                                           or "Attempted to" in out or "Overflow when computing" in out) and "OutOfMemory" not in out:
        # a recorded value outside the specification's value space (wrong type, missing entry)
        m = re.findall(r"/\\ l = (\d+)", out)
        i = min(n, int(m[-1]) if m else 1)
        return n, gen, dist, sorted(bad | {(i, "trace", "not-a-value-of-the-specification")})
    if done != n or ("No error has been found" not in out):
        raise Machinery(f"trace validation of {trace} with {module} incomplete ({done} of {n}):\n" + out[-5000:])
    return n, gen, dist, sorted(bad)


def load_findings(pid):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text())["findings"] if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, tier, seed = a.prop, a.tier, a.seed
    plan = plans.PLANS[pid]
    t0 = time.time()
    base = Path(os.environ.get("TMPDIR", "/tmp"))
    work = Path(tempfile.mkdtemp(prefix=f"oav_{pid}_", dir=base))
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    rc = 2
    try:
        rc = check(pid, plan, tier, seed, work, evdir, t0)
    except Machinery as err:
        print(f"MACHINERY ERROR in check {pid}: {err}", flush=True)
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(rc)


def check(pid, plan, tier, seed, work, evdir, t0):
    pool = ThreadPoolExecutor(max_workers=8)
    numba_dir = work / "numba"
    numba_dir.mkdir()

    emit_jobs = [j for j in plan.get("design", []) if j.get("emit")]
    other_jobs = [j for j in plan.get("design", []) if not j.get("emit")]
    emits = [pool.submit(design_run, j, work, tier) for j in emit_jobs]
    designs = [pool.submit(design_run, j, work, tier) for j in other_jobs]
    design_res = [f.result() for f in emits]  # drivers may need the emitted behaviours

    drv = []
    for job in plan["drivers"]:
        n = job.get("shards", 1) if tier == "quick" else job.get("thorough_shards", job.get("shards", 1))
        if tier not in job.get("tiers", ("quick", "thorough")):
            continue
        for s in range(n):
            drv.append((job, s, pool.submit(drive, job, work, tier, seed, s, n, numba_dir)))
    design_res += [f.result() for f in designs]

    violations = []  # (case, clause, replay payload)
    traces = []
    for job, s, fut in drv:
        outdir, problem = fut.result()
        if problem == "hang":
            violations.append((f"{job['script']}#{s}", "no-termination", {"note": "driver exceeded its time limit"}))
            continue
        if problem:  # the code under test raised where it never may
            violations.append((f"{job['script']}#{s}", "unexpected-exception", {"line": problem}))
            continue
        for tr in sorted(outdir.glob("*.ndjson")):
            module = job["trace"] if isinstance(job["trace"], str) else job["trace"][tr.name.split("_")[0].split(".")[0]]
            traces.append((tr, module, pool.submit(validate, tr, module, work, job.get("part", ""))))
    nlines = gen = dist = cases = 0
    samples = []
    caseset = set()
    for tr, module, fut in traces:
        n, g, d, bad = fut.result()
        nlines += n
        gen += g
        dist += d
        lines = open(tr).read().splitlines()
        for ln in lines:
            m = re.search(r'"case": "([^"]*)"', ln)
            if m:
                caseset.add(m.group(1))
        if len(samples) < 3:
            samples.append({"trace": tr.name, "module": module, "line": json.loads(lines[len(lines) // 2])})
        for i, case, clause in bad:
            payload = {"module": module, "line_no": i, "line": json.loads(lines[i - 1]),
                       "prefix": [json.loads(x) for x in lines[max(0, i - 4):i - 1]]}
            violations.append((case, clause, payload))
    cases = len(caseset)

    findings = load_findings(pid)
    known, fresh = {}, []
    for case, clause, payload in violations:
        hit = None
        for k in findings:
            if k.get("status") != "known":
                continue
            if re.fullmatch(k["case"], case) and re.fullmatch(k["clause"], clause):
                hit = k
                break
        if hit:
            known[hit["id"]] = hit
        else:
            fresh.append((case, clause, payload))

    tot_states = sum(r["distinct"] for r in design_res)
    tot_trans = sum(r["generated"] for r in design_res)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": plan.get("level", "model_checking"),
        "coverage": {
            "states": tot_states + dist,
            "transitions": tot_trans + gen,
            "traces_validated_against_impl": cases,
            "trace_events_validated": nlines,
            "design_models": design_res,
            "samples": samples,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if (not cases or not nlines) and not fresh:
        raise Machinery("no trace was validated")
    minc = plan.get("min_cases")
    if minc and not fresh and cases < minc:
        raise Machinery(f"only {cases} cases were validated, expected at least {minc}")
    (evdir / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    for k in known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    (evdir / f"replay_{pid}.json").unlink(missing_ok=True)
    if fresh:
        rep = evdir / f"replay_{pid}.json"
        rep.write_text(json.dumps({"property": pid, "tier": tier, "seed": seed,
                                   "rerun": f"VERIF_SEED={seed} python3 bin/check.py {pid} --tier {tier}",
                                   "violations": [{"case": c, "clause": cl, **pl} for c, cl, pl in fresh[:50]]},
                                  indent=1))
        shown = set()
        for c, cl, pl in fresh:
            if cl not in shown and len(shown) < 12:
                shown.add(cl)
                print(f"  clause {cl} fails in case {c}: {json.dumps(pl.get('line', pl))[:600]}")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    print(f"OK property={pid} cases={cases} trace_events={nlines} design_states={tot_states} "
          f"wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    main()
