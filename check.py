#!/usr/bin/env python3
"""check.py C01            run the check of a property (VERIF_TIER, VERIF_SEED)
check.py C01 --replay F  run again what replay file F recorded"""
import concurrent.futures
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
CONFIGS = {
    # optional package present / present but disabled / not installed
    "fast": (VENV, {}),
    "std": (VENV, {"FORCE_STDLIB_ONLY": "1"}),
    "sys": ("/usr/bin/python3", {}),
}


def environment(config, scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "FORCE_STDLIB", "DEBUG"))}
    env.update(
        PYTHONPATH=os.path.join(ROOT, "lib") + ":" + REPO,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pycache"),
        PYTHONHASHSEED="0",
        VERIF_SCRATCH=scratch,
        VERIF_REPO=REPO,
        TMPDIR=scratch,
    )
    env.update(CONFIGS[config][1])
    return env


def run_unit(check, tier, seed, unit, scratch, limit, memory, listed):
    config = unit.get("config", "fast")
    task = dict(check=check, tier=tier, seed=seed, unit=unit, memory=memory, listed=listed, config=config)
    d = tempfile.mkdtemp(dir=scratch)
    began = time.time()
    env = environment(config, d)
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pycache")
    env.update(unit.get("env", {}))
    p = subprocess.Popen(
        [CONFIGS[config][0], *unit.get("flags", ()), "-m", "vk.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        env=env, cwd=d, start_new_session=True,
    )
    try:
        out, err = p.communicate(json.dumps(task).encode(), timeout=limit)
        err = err.decode("utf8", "replace")[-3000:]
        try:
            r = json.loads(out)
        except ValueError:
            r = {"error": "worker ended with status %s: %s" % (p.returncode, err)}
    except subprocess.TimeoutExpired:
        r = {"error": "no result within %d s" % limit}
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        shutil.rmtree(d, ignore_errors=True)
    if os.environ.get("VERIF_TIMES"):
        print("%6.1f s %s" % (time.time() - began, json.dumps(unit)))
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    start = time.time()
    check = importlib.import_module("checks." + pid)
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        tier, seed, units = rep["tier"], rep["seed"], [rep["unit"]]
    else:
        units = list(check.units(tier, seed))
    limit = 240 if tier == "quick" else 3000
    memory = getattr(check, "MEMORY", 3 << 30)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    listed = {}
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        if line.startswith("known: property=%s " % pid):
            key, text = line.split("key=", 1)[1].split(None, 1)
            listed[key] = text.strip()
    try:
        with concurrent.futures.ThreadPoolExecutor(getattr(check, "WORKERS", 8)) as ex:
            args = lambda u: (pid, tier, seed, u, scratch, limit, memory, listed)
            results = list(ex.map(lambda u: run_unit(*args(u)), units))
        for n, r in enumerate(results):
            slow = "error" in r or any(v["message"].startswith("no result") for v in r["violations"])
            if slow and not any(x.get("violations") for x in results if x is not r):
                results[n] = run_unit(*args(units[n]))  # alone, before believing it
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    counts, keys, samples, bad, known = {}, set(), [], [], {}
    evaluations = 0
    for u, r in zip(units, results):
        if "error" in r:
            bad.append((u, {"message": r["error"], "case": None, "data": None}))
            continue
        evaluations += r["evaluations"]
        keys.update(r["keys"])
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for x in r["samples"][:1]:
            if len(samples) < 4:
                samples.append(x if len(json.dumps(x)) < 1500 else json.dumps(x)[:1500] + " ...")
        bad += [(u, v) for v in r["violations"]]
        known.update({k: v for k, v in r["known"]})
    if hasattr(check, "finish"):
        bad += [(None, {"message": m, "case": None, "data": None}) for m in check.finish(units, results)]
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    if "--replay" not in sys.argv:
        with open(os.path.join(ev, pid + ".json"), "w") as f:
            json.dump(
                {
                    "property": pid, "tier": tier, "seed": seed, "level": check.LEVEL,
                    "coverage": {
                        "evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": check.RULE,
                        "samples": samples or ["(none)"], "units": len(units), "observed": counts,
                    },
                    "assumptions": getattr(check, "ASSUMES", []),
                    "wall_s": round(time.time() - start, 2), "violations": len(bad),
                },
                f, indent=1,
            )
    for k in sorted(known):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]))
        else:
            bad.append((None, {"message": "%s: %s" % (k, known[k]), "case": None, "data": None}))
    print("%s %s seed=%d: %d evaluations, %d distinct, %.1f s" % (pid, tier, seed, evaluations, len(keys), time.time() - start))
    print("observed: " + ", ".join("%s=%s" % kv for kv in sorted(counts.items())))
    if bad:
        for n, (u, v) in enumerate(bad[:5]):
            path = os.path.join(ev, "replay", "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, "unit": u, **v}, f, indent=1)
            print("  " + v["message"].strip().replace("\n", "\n    ")[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not evaluations and "--replay" not in sys.argv:
        print("nothing was observed, this run decides nothing")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
