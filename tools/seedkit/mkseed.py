"""mkseed.py: makes /verif/seeded/<id>/ from a definition file and verifies it.

A definition file is Python that sets SEEDS = {id: dict(prop, edits=[(file, old,
new)...], needs, breaks, demo)}.  Every seed is applied to a scratch copy."""
import json, os, re, shutil, subprocess, sys

W = os.environ.get("SEED_TREE", "/tmp/r0")
OUT = "/verif/seeded"
HERE = os.path.dirname(os.path.abspath(__file__))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C %s checkout -q -- ." % W)


def local(script):
    t = open("/opt/vp/" + script).read().replace("/repo", W).replace("/opt/vp/build.sh", "/tmp/seed_build.sh")
    open("/tmp/seed_" + script, "w").write(t)


local("build.sh")
local("test.sh")
defs = {}
exec(open(sys.argv[1]).read(), defs)
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for sid, s in defs["SEEDS"].items():
    if only and sid not in only:
        continue
    clean()
    d = os.path.join(OUT, sid)
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(HERE, "h.py"), d)
    open(os.path.join(d, "demo.py"), "w").write("from h import *\n" + s["demo"].strip("\n") + "\n\ndone()\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\n# run with cwd = the source tree, after its build\nexport PYTHONDONTWRITEBYTECODE=1\nexec %s "$(dirname "$0")/demo.py"\n' % s.get("py", "python3-vt"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    a = sh("bash %s/demo.sh" % d, cwd=W)
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        n = t.count(old)
        if n != s.get("count", {}).get(f, 1) and not s.get("nth"):
            print(sid, "EDIT matches %d times in %s" % (n, f))
            ok = False
            break
        if s.get("nth"):
            k = s["nth"]
            pos = -1
            for _ in range(k):
                pos = t.index(old, pos + 1)
            t = t[:pos] + new + t[pos + len(old):]
        else:
            t = t.replace(old, new)
        open(p, "w").write(t)
    if not ok:
        continue
    diff = sh("git -C %s diff" % W).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    b = sh("bash %s/demo.sh" % d, cwd=W)
    t = sh("bash /tmp/seed_test.sh /tmp/seed_o.json")
    try:
        passed = set(json.load(open("/tmp/seed_o.json"))["passed"])
    except Exception:
        passed = set()
    c = sh("VERIF_SEED=1 VERIF_TIER=quick AMPE_REPO=%s python3-vt run.py %s" % (W, s["prop"]), cwd="/verif")
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-28s %s demo clean=%d patched=%d tests=%s check=%d %s" % (
        sid, s["prop"], a.returncode, b.returncode, passed >= stable, c.returncode, "CAUGHT" if v else "MISSED"), flush=True)
    if a.returncode:
        print("   CLEAN DEMO:", a.stdout[-600:])
    if b.returncode not in (1,):
        print("   PATCHED DEMO:", b.stdout[-600:])
    if not passed >= stable:
        print("   TESTS:", t.stdout[-800:])
clean()
