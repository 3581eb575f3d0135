"""Compiles AMPE's own C++ classes, from /repo's working tree, against the
SAMRAI and Thermo4PFM test doubles in /verif/sam and /verif/t4p."""
import glob, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
from . import build
from .build import REPO, HERE, BuildError, scratch, _run


def mangle_headers(out):
    os.makedirs(out, exist_ok=True)
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    for m in re.finditer(r"FortranCInterface_HEADER\s*\(\s*(\w+\.h)(.*?)\)", txt, re.S):
        name, body = m.group(1), m.group(2)
        syms = body.split("SYMBOLS", 1)[1].split()
        guard = "vf_" + name.replace(".", "_")
        with open(os.path.join(out, name), "w") as fh:
            fh.write("#ifndef %s\n#define %s\n" % (guard, guard))
            for s in syms:
                if re.match(r"^\w+$", s):
                    fh.write("#define %s %s_\n" % (s, s.lower()))
            fh.write("#endif\n")


INC = None


def flags(dim, inc, extra=()):
    src = os.path.join(REPO, "source")
    return (["g++", "-std=c++17", "-O0", "-g0", "-fPIC", "-w", "-DNDIM=%d" % dim,
             "-DMAX_POL_T_INDEX=2", "-DHAVE_THERMO4PFM"] + list(extra) +
            ["-I" + inc, "-I" + os.path.join(HERE, "sam", "inc"),
             "-I" + os.path.join(HERE, "sam"), "-I" + os.path.join(HERE, "t4p"),
             "-I" + src, "-I" + os.path.join(src, "fortran"),
             "-I" + os.path.join(src, "samrai")])


# ---------------------------------------------------------------- drivers

_lock = threading.Lock()
_classes = None


def _index():
    """class or free function name -> source file of its definition"""
    global _classes
    if _classes is None:
        _classes = {}
        src = os.path.join(REPO, "source")
        for f in sorted(glob.glob(os.path.join(src, "*.cc")) + glob.glob(os.path.join(src, "samrai", "*.cc"))):
            base = os.path.basename(f)
            if base == "main.cc":
                continue
            _classes.setdefault(base[:-3], []).append(f)
            t = open(f, errors="replace").read()
            t = re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)
            for m in re.finditer(r"^[ \t]*(?:template[^\n]*\n)?(?:[\w:<>,*&~ \t]+[ \t*&])?(\w+)(?:<[^>\n]*>)?::~?\w+", t, re.M):
                _classes.setdefault(m.group(1), [])
                if f not in _classes[m.group(1)]:
                    _classes[m.group(1)].append(f)
            for m in re.finditer(r"^\w[\w:<>,*& \t]*[ \t*&](\w+)[ \t]*\(", t, re.M):
                _classes.setdefault(m.group(1) + "()", [])
                if f not in _classes[m.group(1) + "()"]:
                    _classes[m.group(1) + "()"].append(f)
        for k, v in _classes.items():
            own = [f for f in v if os.path.basename(f) == k + ".cc"]
            if own:
                _classes[k] = own
    return _classes


def _nm(objs):
    und, dfn = set(), set()
    p = subprocess.run(["nm", "-C"] + objs, stdout=subprocess.PIPE, text=True)
    for l in p.stdout.splitlines():
        if len(l) < 20 or l[17:18] != " " and l[16:17] != " ":
            continue
        m = re.match(r"^[0-9a-f ]{16} (\w) (.*)$", l)
        if m:
            (und if m.group(1) == "U" else dfn).add(m.group(2))
    return und - dfn


def _wanted(sym):
    idx = _index()
    s = re.sub(r"^(vtable for|typeinfo for|typeinfo name for|VTT for|non-virtual thunk to|guard variable for) ", "", sym)
    while True:  # drop template arguments, innermost first
        t = re.sub(r"<[^<>]*>", "", s)
        if t == s:
            break
        s = t
    s = s.split("(")[0]
    s = s.strip().split(" ")[-1]
    parts = s.split("::")
    if parts[0] in ("SAMRAI", "std", "Thermo4PFM", "netCDF"):
        return []
    if len(parts) > 1:
        return idx.get(parts[-2], [])
    return idx.get(s, []) or idx.get(s + "()", [])


_pch = {}
_pch_lock = threading.Lock()


def pch(dim, fl):
    """the doubles and the standard library, parsed once"""
    with _pch_lock:
        if dim not in _pch:
            d = os.path.join(scratch(), "pch%d" % dim)
            os.makedirs(d, exist_ok=True)
            h = os.path.join(d, "vf_pch.h")
            with open(h, "w") as fh:
                fh.write('#include "sam_all.h"\n#include "t4p.h"\n#include <cstring>\n#include <functional>\n'
                         '#include <iostream>\n#include <map>\n#include <memory>\n#include <sstream>\n'
                         '#include <fstream>\n#include <string>\n#include <vector>\n')
            _run(fl + ["-x", "c++-header", h, "-o", h + ".gch"])
            _pch[dim] = ["-include", h]
    return _pch[dim]


def sources_of(drv):
    t = open(drv).read()
    m = re.search(r"// SOURCES:(.*)", t)
    return m.group(1).split() if m else []


def build_driver(name, dim, extra_src=(), opt="-O0"):
    """driver name -> shared library with everything it needs of AMPE"""
    drv = os.path.join(HERE, "drv", name + ".cc")
    inc = os.path.join(scratch(), "saminc")
    out = os.path.join(scratch(), "d_%s%d" % (name, dim))
    os.makedirs(out, exist_ok=True)
    with _lock:
        if not os.path.isdir(inc):
            mangle_headers(inc)
    fl = [opt if f == "-O0" else f for f in flags(dim, inc)] + ["-fno-gnu-unique", "-I" + os.path.join(HERE, "drv")]
    objs = {}
    fl += pch(dim, fl)

    def one(f):
        o = os.path.join(out, os.path.basename(f)[:-3] + ".o")
        _run(fl + ["-c", f, "-o", o])
        return f, o

    src = os.path.join(REPO, "source")
    todo = [drv, os.path.join(HERE, "sam", "sam_impl.cc")]
    for s in sources_of(drv):
        for d in (src, os.path.join(src, "samrai")):
            p = os.path.join(d, s + ".cc")
            if os.path.exists(p):
                todo.append(p)
    auto = []
    with ThreadPoolExecutor(8) as ex:
        while todo:
            for f, o in ex.map(one, todo):
                objs[f] = o
            todo = []
            for s in sorted(_nm(list(objs.values()))):
                for f in _wanted(s):
                    if f not in objs and f not in todo:
                        todo.append(f)
            auto += todo
    if auto and os.environ.get("DRV_VERBOSE"):
        print("driver %s: add to SOURCES: %s" % (name, " ".join(os.path.basename(f)[:-3] for f in auto)))
    lib = os.path.join(out, "lib.so")
    fort = build.lib(dim, "opt")._name
    _run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", lib] + list(objs.values()) +
         [fort, "-lgfortran", "-lnetcdf_c++4", "-lnetcdf"])
    return lib


_libs = {}


def driver(name, dim):
    """path of the driver library, built once per run"""
    if (name, dim) not in _libs:
        _libs[name, dim] = build_driver(name, dim)
    return _libs[name, dim]
