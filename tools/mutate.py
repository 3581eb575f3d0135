#!/usr/bin/env python3
"""Mutation campaign (development tool, not part of any check).

mutate.py OUT.jsonl [--n N] [--files REGEX] [--dim D] [--examples E] [--seed S]
Mutates single places of AMPE's Fortran kernels in scratch copies, runs every
generator whose kernels reach the mutated routine, and records survivors."""
import argparse, ctypes, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import build, registry, runner, core
registry.load()
SRC = os.path.join(build.REPO, "source", "fortran")


def routines(path):
    """[(name, first line, last line)] of a fixed-form file"""
    out, cur = [], None
    for n, l in enumerate(open(path)):
        m = re.match(r"\s+(?:subroutine|(?:[\w ]* )?function)\s+(\w+)", l, re.I)
        if l[:1] == " " and m and not re.match(r"\s+end", l, re.I):
            cur = [m.group(1).lower(), n, None]
            out.append(cur)
        elif cur and re.match(r"\s+end\s*(subroutine\s*\w*|function\s*\w*)?\s*$", l, re.I):
            cur[2] = n
    return [tuple(x) for x in out if x[2]]


SWAPS = [(r"\+", "-"), (r"-", "+"), (r"\*", "/"), (r"/", "*"),
         (r"\.gt\.", ".lt."), (r"\.lt\.", ".gt."), (r"\.eq\.", ".ne."), (r"\.ne\.", ".eq."), (r"\.ge\.", ".lt."),
         (r"\.le\.", ".gt."), (r"\.and\.", ".or."), (r"\.or\.", ".and."), (r"==", "/="), (r"/=", "=="),
         (r"(?<![<>=/])>(?!=)", "<"), (r"(?<![<>=/])<(?!=)", ">"), (r"\bmax\b", "min"), (r"\bmin\b", "max"),
         (r"\bsin\b", "cos"), (r"\bcos\b", "sin")]
CONST = [(r"(?<![\w.])0\.5d0\b", "0.25d0"), (r"(?<![\w.])0?\.25d0\b", "0.5d0"), (r"(?<![\w.])2\.d0\b", "1.d0"),
         (r"(?<![\w.])1\.d0\b", "2.d0"), (r"(?<![\w.])0\.d0\b", "1.d0"), (r"(?<![\w.])([3-9]|1[0-9]|[2-9][0-9])\.d0\b", "2.d0"),
         (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])3(?![\w.])", "2"), (r"(?<![\w.])4(?![\w.])", "3"),
         (r"([+-])1(?=[,)\s])", ""), (r"\*\*2\b", ""), (r"(?<![\w.])0\.5\b(?!d)", "0.25")]
NAMES = [(r"x(?=inv|i\b|_|\b)", "y"), (r"y(?=inv|i\b|_|\b)", "x"), (r"z(?=inv|i\b|_|\b)", "y"), (r"(?<=[a-z])0(?=\W)", "1"),
         (r"(?<=[a-z])1(?=\W)", "0"), (r"(?<=[a-z])2(?=\W)", "1"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bk\b", "j"),
         (r"\blo(?=\d)", "hi"), (r"\bhi(?=\d)", "lo"), (r"\bifirst(?=\d)", "ilast"), (r"\bilast(?=\d)", "ifirst"),
         (r"l(?=0|1|2|\()", "a"), (r"\bip\b", "1"), (r"\bm\b(?=\))", "1"), (r"_x\b", "_y"), (r"_y\b", "_x"), (r"_z\b", "_y")]
DECL = re.compile(r"\s*(&|\$|subroutine|(double|integer|character|logical|real|parameter|implicit|include|define|save|data|end\b|enddo|endif|return|continue|else\s*$|call|print|stop|external|REAL\b)|\w+\s+function|function)", re.I)


def mutants(path):
    lines = open(path).read().split("\n")
    out = []
    for name, a, b in routines(path):
        stmt_ok = False
        for n in range(a + 1, b):
            l = lines[n]
            if not l.strip() or l[0] in "cC*!" or l.startswith("include") or l.startswith("define"):
                continue
            cont = len(l) > 5 and l[:5].strip() == "" and l[5] not in " 0"
            if not cont:
                stmt_ok = not DECL.match(l)
            if not stmt_ok or "print" in l:
                continue
            body0 = 6
            for pats in (SWAPS, CONST, NAMES):
                for pat, rep in pats:
                    for m in re.finditer(pat, l[body0:]):
                        s, e = m.start() + body0, m.end() + body0
                        if pat == r"\*" and ("**" in l[max(0, s - 1):e + 1]):
                            continue
                        if pat == r"/" and ("/=" in l[s:e + 1] or l[body0:].strip() == "/"):
                            continue
                        if pat in (r"-", r"\+") and re.match(r"[dDeE]", l[s - 1:s]) and re.match(r"\d", l[s + 1:s + 2]) and re.search(r"[\d.][dDeE]$", l[:s]):
                            continue
                        new = l[:s] + rep + l[e:]
                        if new != l and len(new) <= 72:
                            out.append((name, n, l, new))
            # drop a whole simple assignment / continuation term
            st = l.strip()
            if not cont and re.match(r"\s+\w+(\([^=]*\))?\s*=", l) and not (len(lines) > n + 1 and re.match(r"     \S", lines[n + 1])):
                out.append((name, n, l, "      continue"))
            if cont and re.match(r"\s*[+-]", l[6:]) and l.count("(") == l.count(")"):
                out.append((name, n, l, None))
            if not cont and re.match(r"\s+do\s+\w+\s*=", l):
                m = re.match(r"(\s+do\s+\w+\s*=\s*)([^,]+),(.*)$", l)
                if m:
                    out.append((name, n, l, m.group(1) + m.group(2) + "+1," + m.group(3)))
                    out.append((name, n, l, l.rstrip() + "-1"))
    seen, res = set(), []
    for x in out:
        if x[1:] not in seen and (x[3] is None or len(x[3]) <= 72):
            seen.add(x[1:])
            res.append(x)
    return res


def callmap(dim):
    """routine -> specs that reach it"""
    body = {}
    for p in glob.glob("%s/%dd/*.m4" % (SRC, dim)) + glob.glob(SRC + "/*.f"):
        L = open(p).read().split("\n")
        for name, a, b in routines(p):
            body[name] = " ".join(x.lower() for x in L[a + 1:b] if x[:1] not in "cC*!")
    names = set(body)
    direct = {n: {w for w in re.findall(r"\b\w+\b", t) if w in names and w != n} for n, t in body.items()}
    reach = {}

    def r(n, seen):
        for w in direct.get(n, ()):
            if w not in seen:
                seen.add(w)
                r(w, seen)
        return seen
    for n in names:
        reach[n] = r(n, {n})
    spec_calls = {}

    class Rec:
        def __init__(self, l): self.l = l
        def __getattr__(self, n):
            if n.endswith("_"):
                cur.add(n[:-1])
            return getattr(self.l, n)
    out = {}
    for nm, s in registry.SPECS.items():
        if dim not in s.dims:
            continue
        cur = set()
        for i in range(12):
            class R(core.ReplaySrc):
                def __init__(self):
                    self.r = random.Random("%s%d%d" % (nm, dim, i)); self.trace = []
                def integer(self, lo, hi): return self.r.randint(lo, hi)
                def real(self, lo, hi): return self.r.uniform(lo, hi)
                def pick(self, k): return self.r.randrange(k)
            g = core.Gen(R(), dim, lambda d, v: build.cxx() if v == "cxx" else Rec(build.lib(d, v)))
            try:
                s.fn(g)
            except (core.Discard, core.Fail):
                pass
        for c in cur:
            for w in reach.get(c, ()):
                out.setdefault(w, set()).add(nm)
    return out


def evaluate(dim, path, mut, basedir, specs, examples, seed, modes):
    name, n, old, new = mut
    tmp = tempfile.mkdtemp(prefix="mut", dir="/tmp/mut")
    try:
        lines = open(path).read().split("\n")
        if new is None:
            del lines[n]
        else:
            lines[n] = new
        base = os.path.splitext(os.path.basename(path))
        src = os.path.join(tmp, base[0] + ".m4")
        open(src, "w").write("\n".join(lines))
        f = os.path.join(tmp, base[0] + ".f")
        if base[1] == ".m4":
            with open(f, "wb") as fh:
                subprocess.run(["m4", "-DSAMRAI_FORTDIR=" + SRC, src], stdout=fh, stderr=subprocess.DEVNULL)
        else:
            shutil.copy(src, f)
        me = ("k_" if base[1] == ".m4" else "c_") + base[0] + ".o"
        o = os.path.join(tmp, me)
        p = subprocess.run(["gfortran", "-O1", "-fPIC", "-DNDIM=%d" % dim, "-I" + SRC, "-c", f, "-o", o], capture_output=True)
        if p.returncode:
            return "nocompile", ""
        so = os.path.join(tmp, "m.so")
        objs = [x for x in glob.glob(basedir + "/*.o") if os.path.basename(x) != me]
        subprocess.run(["gfortran", "-shared"] + objs + [o, "-o", so], check=True)
        for mode in modes:
            for sp in sorted(specs):
                s = registry.SPECS[sp]
                if mode != "ref" and not s.generic:
                    continue
                st = run_spec(dim, so, sp, max(20, int((examples if mode == "ref" else examples // 3) * s.weight)), seed, mode)
                if st != "ok":
                    return "killed", "%s/%s:%s" % (sp, mode, st)
        return "survived", ",".join(sorted(specs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_spec(dim, so, sp, examples, seed, mode):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        dn = os.open("/dev/null", os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        signal.alarm(60)
        msg = b"err"
        try:
            import hypothesis
            from hypothesis import HealthCheck, Phase, settings, strategies as st, given
            L = ctypes.CDLL(so)
            libs = lambda d, v: build.cxx() if v == "cxx" else L
            def body(data):
                g = core.Gen(core.HypSrc(data, st), dim, libs, "opt", mode, set(), None)
                import numpy as np
                try:
                    with np.errstate(all="ignore"):
                        registry.SPECS[sp].fn(g)
                except core.Discard:
                    return
            t = settings(max_examples=examples, database=None, deadline=None, report_multiple_bugs=False,
                         print_blob=False, suppress_health_check=list(HealthCheck), phases=[Phase.generate])(
                hypothesis.seed(seed)(given(st.data())(body)))
            try:
                t()
                msg = b"ok"
            except core.Fail as e:
                msg = b"fail " + e.key.encode()
        except BaseException as e:
            msg = b"exc " + repr(e).encode()[:200]
        os.write(w, msg)
        os._exit(0)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 4096)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    return b.decode() or "crash"


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=500)
    ap.add_argument("--files", default=".")
    ap.add_argument("--dim", type=int, default=2)
    ap.add_argument("--examples", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--modes", default="ref")
    ap.add_argument("--redo", help="evaluate the survivors of an earlier campaign again")
    a = ap.parse_args()
    import hypothesis
    os.makedirs("/tmp/mut", exist_ok=True)
    build.lib(a.dim, "opt")
    build.cxx()
    basedir = os.path.join(build.scratch(), "f%dopt" % a.dim)
    cm = callmap(a.dim)
    todo = []
    for p in sorted(glob.glob("%s/%dd/*.m4" % (SRC, a.dim)) + glob.glob(SRC + "/*.f")):
        if re.search(a.files, os.path.basename(p)):
            for m in mutants(p):
                if cm.get(m[0]):
                    todo.append((p, m))
    if a.redo:
        want = {(r["file"], r["line"], r["old"], r["new"]) for r in map(json.loads, open(a.redo))
                if r["status"] == "survived" and r["dim"] == a.dim}
        todo = [t for t in todo if (os.path.basename(t[0]), t[1][1] + 1, t[1][2], t[1][3]) in want]
    rng = random.Random(a.seed)
    rng.shuffle(todo)
    print("%d mutants possible, %d sampled" % (len(todo), min(a.n, len(todo))), flush=True)
    todo = todo[:a.n]
    out = open(a.out, "a")
    pids = []
    import fcntl
    for w in range(a.jobs):
        pid = os.fork()
        if pid == 0:
            for p, m in todo[w::a.jobs]:
                st, why = evaluate(a.dim, p, m, basedir, cm[m[0]], a.examples, a.seed, a.modes.split(","))
                fcntl.flock(out, fcntl.LOCK_EX)
                out.write(json.dumps(dict(dim=a.dim, file=os.path.basename(p), routine=m[0], line=m[1] + 1, old=m[2], new=m[3], status=st, why=why)) + "\n")
                out.flush()
                fcntl.flock(out, fcntl.LOCK_UN)
            os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    c = {}
    for l in open(a.out):
        s = json.loads(l)["status"]
        c[s] = c.get(s, 0) + 1
    print(c)
