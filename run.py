#!/usr/bin/env python3
"""run.py PROPERTY [--replay FILE] [--examples N] [--spec NAME]
Decides one property; see DESIGN.md."""
import os
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
import argparse, json, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import build, registry, runner


def load_known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {"findings": []}


def plan(prop, tier, seed, examples=None, only=None):
    base = 400 if tier == "quick" else 12000
    known = {k["key"] for k in load_known()["findings"] if k["property"] == prop}
    tasks = []
    if prop in registry.GENERIC:
        mode = registry.GENERIC[prop]
        names = [n for n, s in registry.SPECS.items() if s.generic in (True, mode)]
        base = 150 if tier == "quick" else 4000
    else:
        mode = "ref"
        names = registry.PROPS[prop]
    for n in names:
        s = registry.SPECS[n]
        if only and n != only:
            continue
        for d in s.dims:
            ex = examples or int(max(20, base * s.weight))
            tasks.append(runner.Task(prop, n, d, mode, ex, seed, known))
    return tasks


def write_replay(prop, task, trace, key, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%dd.json" % (prop, task.spec, task.dim))
    with open(path, "w") as fh:
        json.dump({"property": prop, "spec": task.spec, "dim": task.dim, "mode": task.mode,
                   "trace": trace, "key": key, "message": msg}, fh, indent=1)
    return path


def confirm(task, trace):
    """a violation counts only if the recorded trace shows it three times"""
    out = [runner.replay_once(task, trace) for _ in range(3)]
    bad = [o for o in out if o[0] != "ok"]
    return len(bad) == 3, bad[0] if bad else out[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="build everything once")
    ap.add_argument("--replay")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--spec")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--tier", choices=["quick", "thorough"])
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.property
    registry.load()
    if a.selftest:
        try:
            for d in (2, 3):
                for v in ("opt", "chk"):
                    build.lib(d, v)
            build.cxx()
        except build.BuildError as e:
            print("cannot build the code under test:\n%s" % e)
            return 2
        print("%d generators for %d properties" % (len(registry.SPECS), len(registry.PROPS) + len(registry.GENERIC)))
        return 0
    tasks = plan(prop, tier, seed, a.examples, a.spec)
    try:
        for d, v in sorted({(t.dim, t.variant) for t in tasks
                            if registry.SPECS[t.spec].kernels not in (["cxx"], ["py"])}):
            build.lib(d, v)
        if any("cxx" in registry.SPECS[t.spec].kernels for t in tasks):
            build.cxx()
    except build.BuildError as e:
        print("cannot build the code under test:\n%s" % e)
        return 2
    # drivers of the C++ classes: a tree whose classes outgrew the SAMRAI
    # stand-ins is still judged by the remaining generators
    failed, not_run = {}, []
    fns = sorted({f for t in tasks for f in registry.PREPARE.get(t.spec, [])}, key=lambda f: f.__name__)
    for fn in fns:
        try:
            fn()
        except build.BuildError as e:
            failed[fn] = str(e)
    if failed:
        keep = [t for t in tasks if not any(f in failed for f in registry.PREPARE.get(t.spec, []))]
        for f, e in failed.items():
            print("note: %s cannot be built, its generators are not run:\n%s" % (f.__name__, e[:2000]))
        not_run = sorted({t.spec for t in tasks if t not in keep})
        if not keep:
            return 2
        tasks = keep
    import hypothesis  # before forking
    if a.replay:
        with open(a.replay) as fh:
            r = json.load(fh)
        t = runner.Task(prop, r["spec"], r["dim"], r["mode"], 1, seed, set())
        res = runner.replay_once(t, r["trace"])
        print("replay: %s %s" % res)
        return 0 if res[0] == "ok" else 1

    print("%s: %d generators, seed %d, %s; built in %.1f s" % (prop, len(tasks), seed, tier, time.time() - t0))
    results = runner.run_tasks(tasks, a.jobs)
    bad, known = [], {}
    cov = dict(evaluations=0, distinct_nontrivial=0, samples=[])
    per, labels, errors = {}, {}, []
    calls = compared = disc = 0
    for t, r in results:
        nm = "%s/%dd" % (t.spec, t.dim)
        if "crash" in r:
            trace, why = r["crash"]
            bad.append((t, trace, "crash", why))
            continue
        if r.get("error"):
            errors.append((nm, r["error"]))
            continue
        cov["evaluations"] += r["cases"]
        cov["distinct_nontrivial"] += r["nontrivial"]
        calls += r["calls"]
        compared += r["compared"]
        disc += r["discarded"]
        per[nm] = {"cases": r["cases"], "nontrivial": r["nontrivial"], "wall_s": round(r["wall"], 2)}
        if r["labels"]:
            per[nm]["classes"] = r["labels"]
        if r["samples"] and len(cov["samples"]) < 12:
            cov["samples"].append(r["samples"][0])
        for k, tr in r["known"].items():
            known[k] = nm
        if r["fail"]:
            key, msg, trace = r["fail"]
            bad.append((t, trace, key, msg))
        if r["cases"] >= 20 and r["nontrivial"] * 5 < r["cases"] and not r["fail"]:
            print("note: %s has few non-trivial cases (%d of %d)" % (nm, r["nontrivial"], r["cases"]))
    violations = 0
    for t, trace, key, msg in sorted(bad, key=lambda x: (x[0].spec, x[0].dim)):
        if key == "crash" and violations < 3:
            trace = runner.minimise_crash(t, trace) if runner.replay_once(t, trace)[0] != "ok" else trace
        sure, what = confirm(t, trace)
        if not sure:
            errors.append(("%s/%dd" % (t.spec, t.dim), "not reproducible: %s %s" % (key, msg)))
            continue
        if key == "crash" and t.spec + ":crash" in t.known:
            known[t.spec + ":crash"] = "%s/%dd" % (t.spec, t.dim)
            continue
        violations += 1
        path = write_replay(prop, t, trace, key, what[1] or msg)
        print("%s %dd: %s" % (t.spec, t.dim, (what[1] or msg)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, known[k]))
    cov["rule"] = ("a case is one Hypothesis draw of patch box, ghost widths, grid spacings, parameters and "
                   "field patterns; non-trivial = distinct draw list whose checked outputs are not all "
                   "zero/constant (so the comparison could have failed)")
    cov["kernel_calls"] = calls
    cov["values_compared"] = compared
    cov["discarded"] = disc
    cov["per_generator"] = per
    if not_run:
        cov["not_run"] = not_run
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=["arguments respect the preconditions of AMPE's own callers (DESIGN.md)",
                           "gfortran/g++ builds of /repo's working tree"],
              wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for nm, e in errors:
        print("error in %s: %s" % (nm, e))
    print("%s: %d cases, %d non-trivial, %d values compared, %.1f s, %d violation(s)"
          % (prop, cov["evaluations"], cov["distinct_nontrivial"], compared, time.time() - t0, violations))
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
