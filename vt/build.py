"""Harness generation, extraction of the real code, native build for replay."""
import os, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import ir
from .units import UNITS

HERE = os.path.dirname(os.path.abspath(__file__))
HEAD = """#include <cstdio>
#include <string>
#include <string_view>
#ifdef VT_STREAMS
#include <vt_streams.h>
#else
#include <sstream>
#endif
#include <AesiMultiprecision/Aesi.h>
#ifndef BITSM
#define BITSM BITS
#endif
using U = Aeu<BITS>; using S = Aesi<BITS>;
using UM = Aeu<BITSM>; using SM = Aesi<BITSM>;
"""
REPO = os.environ.get("VERIF_REPO", "/repo")
N_POINTS = [(20, 0), (27, 0), (33, 0)]
LT_POINTS = [(20, 23), (27, 37), (33, 41), (25, 29), (31, 60)]
GT_POINTS = [(23, 20), (37, 27), (41, 33), (29, 25), (60, 31)]
GE8_POINTS = [(20, 0), (27, 0), (33, 0), (8, 0), (9, 0), (10, 0), (16, 0), (24, 0), (48, 0), (96, 0), (192, 0), (256, 0)]
LE7_POINTS = [(7, 0), (5, 0), (6, 0)]
UNIFORM = [(n, 0) for n in (20, 27, 33, 5, 6, 7, 8, 9, 10, 11, 12, 16, 24, 32, 48, 64, 96, 128, 192, 256)]


def points_for(rel, full=False):
    """precisions (in blocks) at which the code is extracted"""
    if rel == "lt": return LT_POINTS
    if rel == "gt": return GT_POINTS
    if rel == "le7": return LE7_POINTS
    if rel == "ge8": return GE8_POINTS if full else GE8_POINTS[:3]
    return UNIFORM if full else N_POINTS


def cfg_for(rel):
    from .contract import Cfg
    from .term import lt, gt, le, ge
    c = Cfg()
    if rel == "lt": c.assume = [lt(c.N, c.M)]
    if rel == "gt": c.assume = [gt(c.N, c.M)]
    if rel == "le7": c.assume = [le(c.N, 7)]
    if rel == "ge8": c.assume = [ge(c.N, 8)]
    return c


def nat_pairs(rel, ns, nms):
    """concrete precisions for the executions"""
    if rel in ("lt", "gt"): return [(n, m) for n, m in nms if (n < m) == (rel == "lt")]
    return [(n, None) for n in ns if rel == "eq" or (rel == "le7") == (n <= 7)]


def source(names, pre=""):
    return pre + HEAD + "\n".join(UNITS[n].decl() for n in names) + "\n"


def macros(n, m):
    d = {"BITS": str(32 * n)}
    if m: d["BITSM"] = str(32 * m)
    return d


def extract(names, work, points, defs=(), pre=""):
    os.makedirs(work, exist_ok=True)
    src = os.path.join(work, "harness.cpp")
    with open(src, "w") as f: f.write(source(names, pre))
    n0, m0 = points[0]
    cts = [UNITS[n].contract(n0, m0) for n in names]

    def keep(d, n):
        if n.startswith("h_"): return True
        return any(c.unit.lib and c.matches(d, n) for c in cts)
    # the demangled names differ per point: match precision-independently
    def keep_any(d, n):
        if n.startswith("h_"): return True
        for u in (UNITS[x] for x in names):
            if u.lib:
                import re
                rx = u.lib.replace("{N}", r"\d+").replace("{M}", r"\d+")
                if re.search(rx, d) and not (u.kw.get("exclude") and re.search(u.kw["exclude"], d)): return True
        return False
    mod, raw = ir.extract(src, work, points, keep_any, REPO, macros, extra=tuple("-D" + d for d in defs) + (("-I" + os.path.join(HERE, "stub"),) if "VT_STREAMS" in defs else ()))
    return mod, cts, raw


def native(names, work, N, M=None, defs=(), san=True, pre=""):
    """shared library of the wrappers at a concrete precision"""
    os.makedirs(work, exist_ok=True)
    src = os.path.join(work, "native.cpp")
    if not os.path.exists(src):
        with open(src, "w") as f: f.write(source(names, pre))
    out = os.path.join(work, "native_%d_%s%s.so" % (N, M or 0, "_".join(defs)))
    cmd = ["clang++", "-std=c++20", "-O1", "-w", "-fPIC", "-shared", "-I" + REPO + "/include", "-D_GLIBCXX_ASSERTIONS",
           "-DBITS=%d" % (32 * N)] + (["-DBITSM=%d" % (32 * M)] if M else []) + ["-D" + d for d in defs] + ["-I" + os.path.join(HERE, "native")]
    if san: cmd += ["-fsanitize=undefined", "-fsanitize-trap=undefined", "-fno-sanitize=vptr,function"]
    libs = ["-lgmpxx", "-lgmp"] if "AESI_GMP_INTEGRATION" in defs else []
    r = subprocess.run(cmd + [src, "-o", out] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError("native build failed: " + r.stdout[-3000:])
    return out
