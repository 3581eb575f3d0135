"""Runs the specs of one property: one forked worker per (spec, dim), cases
found by Hypothesis, crashes attributed through a shared-memory trace."""
import hashlib, json, mmap, os, pickle, resource, select, signal, struct, sys, time, traceback
import numpy as np
from . import build, registry
from .core import Discard, Fail, Gen, HypSrc, ReplaySrc

HERE = build.HERE
CASE_SECONDS = 60      # one kernel call on a tiny box; far beyond any real time
TRACE_MAX = 1 << 20


class Shared:
    """current trace, visible to the parent after a crash"""

    def __init__(self):
        self.m = mmap.mmap(-1, TRACE_MAX + 64)

    def put(self, trace):
        b = json.dumps(trace).encode()
        if len(b) > TRACE_MAX:
            b = b"[]"
        self.m.seek(16)
        self.m.write(struct.pack("q", len(b)))
        self.m.write(b)
        self.m.seek(0)
        self.m.write(struct.pack("d", time.monotonic()))

    def beat(self):
        self.m.seek(0)
        self.m.write(struct.pack("d", time.monotonic()))

    def last(self):
        self.m.seek(0)
        return struct.unpack("d", self.m.read(8))[0]

    def get(self):
        self.m.seek(16)
        n = struct.unpack("q", self.m.read(8))[0]
        return json.loads(self.m.read(n).decode() or "[]") if n else []


def libs_for(dim, variant):
    if variant == "cxx":
        return build.cxx()
    return build.lib(dim, variant)


class Task:
    def __init__(self, prop, spec, dim, mode, examples, seed, known):
        self.prop, self.spec, self.dim, self.mode = prop, spec, dim, mode
        self.examples, self.seed, self.known = examples, seed, known

    @property
    def variant(self):
        return "chk" if self.mode == "mem" else "opt"

    def gen(self, src, shared=None):
        on = None
        if shared is not None:
            on = lambda g: shared.put(g.src.trace)
        return Gen(src, self.dim, libs_for, self.variant, self.mode, self.known, on)

    def one(self, src, shared=None):
        g = self.gen(src, shared)
        with np.errstate(all="ignore"):
            registry.SPECS[self.spec].fn(g)
        return g


def _seed_for(task):
    h = hashlib.sha256(("%d/%s/%d/%s" % (task.seed, task.spec, task.dim, task.mode)).encode()).digest()
    return int.from_bytes(h[:7], "little")


def worker(task, shared):
    """runs in the child; returns a result dict"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, strategies as st
    res = dict(cases=0, nontrivial=0, discarded=0, calls=0, compared=0, labels={}, known={},
               samples=[], fail=None)
    seen = set()
    state = {"fail": None}

    def body(data):
        src = HypSrc(data, st)
        try:
            g = task.one(src, shared)
        except Discard:
            res["discarded"] += 1
            return
        except Fail as e:
            state["fail"] = (e.key, e.msg, list(src.trace))
            raise
        res["cases"] += 1
        res["calls"] += g.calls
        res["compared"] += g.compared
        for k, v in g.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + v
        for k in g.hits:
            res["known"].setdefault(k, list(src.trace))
        if g.nontrivial:
            h = hashlib.md5(repr(src.trace).encode()).digest()
            if h not in seen:
                seen.add(h)
                res["nontrivial"] += 1
                if res["nontrivial"] in (3, 40):
                    res["samples"].append(sample(task, g, src.trace))
        shared.beat()

    test = settings(max_examples=task.examples, database=None, deadline=None,
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink])(
        hypothesis.seed(_seed_for(task))(given(st.data())(body)))
    try:
        test()
    except Fail:
        res["fail"] = state["fail"]
    except BaseException as e:
        if state["fail"] is not None:
            res["fail"] = state["fail"]
        else:
            res["error"] = traceback.format_exc()[-4000:]
    return res


def sample(task, g, trace):
    s = {"spec": task.spec, "dim": task.dim, "mode": task.mode, "trace": trace[:60]}
    if g._box is not None:
        s["box"] = [list(g._box.lo), list(g._box.hi)]
    s["arrays"] = ["%s%s%s" % (f.name, list(f.shape), "" if f.side is None else " side%d" % f.side)
                   for f in g.fields[:10]]
    return s


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def spawn(fn):
    """forks; fn() -> picklable written to a pipe. Returns (pid, rfd, log)"""
    log = os.path.join(build.scratch(), "log%d" % (spawn.n,))
    spawn.n += 1
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            fd = os.open(log, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            _limits()
            out = fn()
            b = pickle.dumps(out)
            with os.fdopen(w, "wb") as fh:
                fh.write(b)
        except BaseException:
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    return pid, r, log


spawn.n = 0


def replay_once(task, trace):
    """forked replay -> ('ok'|'fail'|'crash', text)"""
    shared = Shared()
    shared.beat()

    def fn():
        try:
            g = task.one(ReplaySrc(trace), shared)
            return ("ok", "")
        except Discard:
            return ("ok", "discarded")
        except Fail as e:
            return ("fail", str(e))

    pid, r, log = spawn(fn)
    res = wait_one(pid, r, log, shared)
    if res[0] == "done":
        return res[1]
    return ("crash", res[1])


def wait_one(pid, r, log, shared):
    buf = b""
    while True:
        rd, _, _ = select.select([r], [], [], 1.0)
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
        elif time.monotonic() - shared.last() > CASE_SECONDS:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ("dead", "no answer within %d s" % CASE_SECONDS)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        return ("done", pickle.loads(buf))
    except Exception:
        tail = ""
        try:
            tail = open(log, errors="replace").read()[-1500:]
        except OSError:
            pass
        return ("dead", "process ended (%s) inside the call: %s" % (describe(status), tail))


def describe(status):
    if os.WIFSIGNALED(status):
        return "signal %d" % os.WTERMSIG(status)
    return "exit %d" % os.WEXITSTATUS(status)


def minimise_crash(task, trace, budget=60):
    """greedy: each draw towards 0 / lower bound while it still crashes"""
    best = list(trace)
    n = 0
    for i in range(len(best)):
        if n >= budget:
            break
        for cand in (0, 1):
            if best[i] == cand or isinstance(best[i], float):
                continue
            t = list(best)
            t[i] = cand
            n += 1
            if replay_once(task, t)[0] == "crash":
                best = t
                break
    return best


def run_tasks(tasks, jobs=8, log=print):
    pending = list(tasks)
    active = {}
    results = []
    while pending or active:
        while pending and len(active) < jobs:
            t = pending.pop(0)
            sh = Shared()
            sh.beat()
            pid, r, lf = spawn(lambda t=t, sh=sh: worker(t, sh))
            active[r] = [t, sh, pid, lf, b"", time.time()]
        rd, _, _ = select.select(list(active), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                active[r][4] += b
                continue
            t, sh, pid, lf, buf, t0 = active.pop(r)
            os.close(r)
            _, status = os.waitpid(pid, 0)
            try:
                res = pickle.loads(buf)
            except Exception:
                tail = open(lf, errors="replace").read()[-1500:] if os.path.exists(lf) else ""
                res = {"crash": (sh.get(), describe(status) + " " + tail)}
            res["wall"] = time.time() - t0
            results.append((t, res))
        for r in list(active):
            t, sh, pid, lf, buf, t0 = active[r]
            if time.monotonic() - sh.last() > CASE_SECONDS:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                active.pop(r)
                results.append((t, {"crash": (sh.get(), "no answer within %d s" % CASE_SECONDS),
                                    "wall": time.time() - t0}))
    return results
