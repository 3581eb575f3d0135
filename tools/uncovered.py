#!/usr/bin/env python3
"""Lists Fortran entry points no generator calls (by running a few cases of
every generator and recording the symbols looked up)."""
import os, sys, re, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import build, registry, runner, core
registry.load()
called = {2: set(), 3: set()}


class Rec:
    def __init__(self, dim, l):
        self.d, self.l = dim, l

    def __getattr__(self, n):
        if self.d in called and n.endswith("_"):
            called[self.d].add(n[:-1])
        return getattr(self.l, n)


import hypothesis
n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
orig_init = core.Gen.__init__


def init(self, src, dim, libs, *a, **k):
    orig_init(self, src, dim, lambda d, v: Rec(d, libs(d, v)), *a, **k)


core.Gen.__init__ = init
if __name__ == "__main__":
    for d in (2, 3):
        build.lib(d, "opt")
    build.cxx()
    for nm, s in registry.SPECS.items():
        for d in s.dims:
            for i in range(n):
                class R(core.ReplaySrc):
                    def __init__(self):
                        import random
                        self.r = random.Random("%s%d%d" % (nm, d, i)); self.trace = []
                    def integer(self, lo, hi): return self.r.randint(lo, hi)
                    def real(self, lo, hi): return self.r.uniform(lo, hi)
                    def pick(self, k): return self.r.randrange(k)
                g = core.Gen(R(), d, lambda d, v: build.cxx() if v == "cxx" else build.lib(d, v))
                try:
                    s.fn(g)
                except core.Discard:
                    pass
                except core.Fail as e:
                    pass
    allsub = {}
    for d in (2, 3):
        for f in glob.glob(build.REPO + "/source/fortran/%dd/*.m4" % d) + glob.glob(build.REPO + "/source/fortran/*.f"):
            for l in open(f):
                m = re.match(r"\s+(subroutine|(?:\w+ )*function)\s+(\w+)", l, re.I)
                if m and l[0] == " ":
                    allsub.setdefault(d, {})[m.group(2).lower()] = os.path.basename(f)
        miss = {k: v for k, v in allsub[d].items() if k not in called[d]}
        print("%dD: %d of %d not called directly:" % (d, len(miss), len(allsub[d])))
        for k, v in sorted(miss.items(), key=lambda x: x[1]):
            print("   %-28s %s" % (v, k))
