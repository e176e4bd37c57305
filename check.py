#!/usr/bin/env python3-vt
"""Decides one property: extracts the real code, discharges every obligation of the contracts it rests on,
and replays failures (and a concrete cross-check) on the compiled library.

usage: check.py <property> [quick|thorough]"""
import subprocess, sys, os, time, json, re, shutil, tempfile, signal, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from concurrent.futures import ThreadPoolExecutor
from vt import build, units, contract, smt, nat, ir, spec_all
from vt.units import UNITS
from vt.contract import Cfg
from vt.term import *

T0 = time.time()
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VERBOSE = os.environ.get("VT_VERBOSE")
BUDGET = 560 if TIER == "quick" else 800
NATN = [3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 24, 32, 64, 128] if TIER == "quick" else [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 24, 32, 48, 64, 96, 128, 192, 256]
NATNM = [(3, 5), (5, 3), (4, 16), (16, 4), (6, 7), (7, 6), (8, 24), (24, 8), (3, 4), (4, 3)]


def log(*a):
    if VERBOSE: print("[%.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- groups: units that share an extraction
class Group:
    """one harness: configuration (macros, precision relation) and its units"""

    def __init__(self, key, names):
        self.key, self.names = key, names
        self.mod = self.cts = None
        self.err = {}
        self.raw = None
        self.uniform = None


def group_of(u):
    d = tuple(u.kw_defs)
    return (d, u.rel)


points_for, cfg_for = build.points_for, build.cfg_for


def extract_group(g, work, inline=()):
    names = units.closure(g.names)
    defs, rel = g.key
    kept = [n for n in names if n not in inline]
    w = os.path.join(work, "x_" + re.sub(r"\W+", "_", "%s_%s" % (rel, "_".join(defs))) + ("_i" if inline else ""))
    try:
        g.mod, g.cts, g.raw = build.extract(kept, w, points_for(rel, True), defs)
        g.uniform = True
        return
    except ir.ExtractError as e:
        log("full extraction failed:", e)
        g.uniform = str(e)
    try:
        g.mod, g.cts, g.raw = build.extract(kept, w, points_for(rel, False), defs)
        return
    except ir.ExtractError as e:
        g.uniform = None
    # isolate the units that cannot be extracted together
    g.mod = {}

    def one(n):
        try:
            return n, build.extract([x for x in units.closure([n]) if x not in inline], w + "_" + n, points_for(rel, False), defs), None
        except ir.ExtractError as e:
            return n, None, str(e)
    for n, r, e in POOL.map(one, kept):
        if e: g.err[n] = e
        else: g.mod[n] = r


def verify_task(a):
    gi, name, scen = a[:3]
    if len(a) > 3: smt.SLOW[0] = a[3]
    g = GROUPS[gi]
    if isinstance(g.mod, dict):
        mod, cts, _ = g.mod[name]
    else: mod, cts = g.mod, g.cts
    c = [x for x in cts if x.name == name][0]
    c.only_scen = scen
    if units.SAFETY: c.safety = "light"
    LU = dict(smt.LEMMA_USE); smt.LEMMA_USE.clear()
    t = time.time()
    try:
        signal.signal(signal.SIGALRM, lambda *x: (_ for _ in ()).throw(TimeoutError()))
        signal.alarm(int(max(20, min(360, BUDGET - (time.time() - T0)))))
        r = contract.verify(mod, c, [x for x in cts if x.unit.lib], cfg_for(g.key[1]))
        signal.alarm(0)
    except TimeoutError:
        r = contract.UnitResult(name)
        r.obls.append(contract.Obligation("time", name + ": all obligations decided in time", False, "timeout", dict(reason="time limit")))
    except Exception as e:
        signal.alarm(0)
        r = contract.UnitResult(name)
        r.obls.append(contract.Obligation("extraction", name + ": within the verifier's reach", False, "error", dict(reason=traceback.format_exc()[-1500:])))
    return (gi, name, scen, [(o.kind, o.name, o.ok, o.how, None if o.ok else trim(o.info)) for o in r.obls], sorted(r.used), r.solver, time.time() - t, dict(smt.LEMMA_USE), r.npaths, r.invs)


def trim(i):
    if not i: return {}
    d = {}
    for k, v in i.items():
        if isinstance(v, list): d[k] = [str(x)[:600] for x in v[:40]]
        elif isinstance(v, dict): d[k] = {a: str(b)[:100] for a, b in list(v.items())[:40]}
        else: d[k] = str(v)[:3000]
    return d


def harvest(g):
    out = set()
    for t in (g.raw or [])[:1]:
        for m in re.finditer(r"(?<![\w.%@])-?\d{2,20}(?![\w.])", t):
            v = int(m.group())
            if abs(v) > 40: out.add(v % 2 ** 64)
    return sorted(out)[:400]


def main():
    global GROUPS, POOL
    names = units.of_property(PROP)
    if not names: print("unknown property", PROP); sys.exit(2)
    global NATN, NATNM
    units.SAFETY = PROP == "C23"
    if units.SAFETY and TIER == "quick": NATN, NATNM = [3, 5, 8, 20, 64], [(3, 5), (16, 4), (6, 7), (8, 24)]
    work = tempfile.mkdtemp(prefix="vt_%s_" % PROP)
    try:
        return run(names, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(names, work):
    global GROUPS, POOL
    POOL = ThreadPoolExecutor(10)
    gs = {}
    for n in names: gs.setdefault(group_of(UNITS[n]), []).append(n)
    GROUPS = [Group(k, v) for k, v in gs.items()]
    # concrete builds run in the background
    natjobs = {}
    for gi, g in enumerate(GROUPS):
        defs, rel = g.key
        nn = [n for n in g.names if UNITS[n].nat]
        if not nn: continue
        for N, M in build.nat_pairs(rel, NATN, NATNM):
            natjobs[(gi, N, M)] = None
    for g in GROUPS: extract_group(g, work)
    log("extracted", [(g.key, isinstance(g.mod, dict)) for g in GROUPS])
    nbuild = {}
    for (gi, N, M) in natjobs:
        g = GROUPS[gi]
        w = os.path.join(work, "n%d" % gi)
        os.makedirs(w, exist_ok=True)
        nn = [n for n in g.names if UNITS[n].nat]
        with open(os.path.join(w, "native.cpp"), "w") as f: f.write(build.source(nn))
        nbuild[(gi, N, M)] = POOL.submit(build.native, nn, w, N, M, g.key[0])
    tasks = []
    for gi, g in enumerate(GROUPS):
        for n in units.closure(g.names):
            if n in g.err: continue
            for s in UNITS[n].contract(20, 23).scenarios(): tasks.append((gi, n, s))
    tasks.sort(key=lambda x: -UNITS[x[1]].kw.get("opts", {}).get("heavy", 0))
    res, extra = {}, []
    ctx = mp.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(verify_task, tasks, chunksize=1):
            res[r[:3]] = r
            log(r[1], r[2], "ok" if all(o[2] for o in r[3]) else "FAIL", "%.1fs" % r[6])
    log("verified")
    obls = []           # (unit, kind, name, ok, how, info)
    for k, r in sorted(res.items(), key=lambda x: repr(x[0])):
        for o in r[3]: obls.append((k[1],) + tuple(o) + (k[0],))
    for gi, g in enumerate(GROUPS):
        for n, e in g.err.items(): obls.append((n, "extraction", n + ": the code has one shape for every precision", False, "shape", dict(reason=e), gi))
        if g.uniform is not True and not g.err:
            obls.append(("*", "extraction", "the code has the same shape at every sampled precision", False, "shape", dict(reason=str(g.uniform)), gi))
    if TIER == "thorough": obls.append(lemma_schemas(work))
    failed = [o for o in obls if not o[3]]
    # ---- failed dependencies: re-verify the units of this property with the dependency inlined
    deps = {o[0] for o in failed} - set(names) - {"*"}
    reproved = []
    if deps and not [o for o in failed if o[0] in names]:
        log("dependencies failed:", deps)
        for gi, g in enumerate(GROUPS):
            hit = [n for n in g.names if set(units.closure([n])) & deps]
            if not hit: continue
            g2 = Group(g.key, g.names)
            inline = set(deps)
            try:
                extract_group(g2, work, inline)
            except Exception as e:
                continue
            GROUPS.append(g2)
            t2 = [(len(GROUPS) - 1, n, s) for n in units.closure(hit) if n not in inline and n not in g2.err for s in UNITS[n].contract(20, 23).scenarios()]
            with ctx.Pool(8) as pool: r2 = pool.map(verify_task, t2, chunksize=1)
            if r2 and all(o[2] for r in r2 for o in r[3]):
                reproved += hit
        if reproved and set(reproved) >= {n for n in names if set(units.closure([n])) & deps}:
            log("re-established with the dependency inlined")
            failed = [o for o in failed if o[0] not in deps]
            obls = [o for o in obls if o[3] or o[0] not in deps]
    badunits = {o[0] for o in failed}
    own_bad = [n for n in names if n in badunits or set(units.closure([n])) & badunits or "*" in badunits]
    # ---- concrete executions of the real code against the same contracts
    viol = []
    nrun = 0
    njobs = []
    left = BUDGET - (time.time() - T0)
    nb = {}
    builderr = None
    for k, f in nbuild.items():
        try: nb[k] = f.result()
        except Exception as e: builderr = str(e)
    ncell = max(1, sum(len([n for n in GROUPS[k[0]].names if UNITS[n].nat]) for k in nb))
    base = min(1.5, ((15.0 if units.SAFETY else 40.0) if TIER == "quick" else 240.0) * 8 / ncell)
    nbad = max(1, sum(len([n for n in GROUPS[k[0]].names if n in own_bad]) for k in nb))
    for (gi, N, M), so in nb.items():
        for n in GROUPS[gi].names:
            if not UNITS[n].nat: continue
            secs = base
            if n in own_bad: secs = max(base, min(30.0, max(20.0, min(150.0, left - 60)) * 8 / nbad))
            njobs.append((0 if n in own_bad else 1, gi, n, N, M, so, secs))
    njobs.sort(key=lambda x: x[0])
    known = load_known()
    t_nat = time.time()

    def natrun(j):
        pr, gi, n, N, M, so, secs = j
        if time.time() - T0 > BUDGET - 15: return j, None
        if pr == 1 and [v for v in viol if v]: return j, None
        seen = [v for v in viol if v[0][2] == n]
        if len(seen) >= 2: return j, None
        g = GROUPS[gi]
        n0, m0 = points_for(g.key[1], False)[0]
        d = nat.run(so, n, n0, m0, N, M, SEED * 1000003 + N * 131 + (M or 0) * 7 + hash_s(n), secs, harvest=harvest(g), hang=12.0)
        if d.get("state") == "bad": viol.append((j, d))
        return j, d
    nres = list(POOL8.map(natrun, njobs))
    for j, d in nres:
        if d: nrun += d.get("n", 0)
    errs = [(j, d) for j, d in nres if d and d.get("state") in ("error", "none")]
    log("concrete", nrun, "violations", len(viol), "errors", len(errs), errs[:2])
    # ---- a proof that ended without a failing input gets another, longer attempt
    soft = [o for o in failed if o[1] not in ("extraction",) and o[4] not in ("shape",)]
    if failed and len(soft) == len(failed) and not viol and time.time() - T0 < BUDGET - 60:
        keys = sorted({k for k, r in res.items() if not all(o[2] for o in r[3])}, key=repr)
        log("another attempt:", keys)
        if len(keys) <= 24:
            with ctx.Pool(8, maxtasksperchild=1) as pool:
                r2 = {r[:3]: r for r in pool.imap_unordered(verify_task, [k + (3.0,) for k in keys], chunksize=1)}
            res.update(r2)
            ks = {(k[0], k[1]) for k in keys}
            obls = [o for o in obls if (o[6], o[0]) not in ks]
            for k, r in sorted(res.items(), key=lambda x: repr(x[0])):
                if (k[0], k[1]) in ks:
                    for o in r[3]: obls.append((k[1],) + tuple(o) + (k[0],))
            failed = [o for o in obls if not o[3]]
            badunits = {o[0] for o in failed}
    # ---- verdict
    lines, code = [], 0
    kf = set()
    real = []
    for j, d in viol:
        k = match_known(known, j, d)
        if k: kf.add(k)
        else: real.append((j, d))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    if real:
        j, d = sorted(real, key=lambda x: (x[0][3], x[0][2]))[0]
        path = os.path.join(HERE, "replays", "%s.json" % PROP)
        json.dump(dict(property=PROP, unit=j[2], wrapper=UNITS[j[2]].decl(), precision_bits=32 * j[3], other_precision_bits=(32 * j[4] if j[4] else None),
                       violated=d.get("bad"), input=d.get("vals"), aliased=d.get("alias"), output=d.get("after"), returned=d.get("ret"),
                       failed_obligations=[dict(unit=o[0], kind=o[1], name=o[2], how=o[4], info=o[5]) for o in failed[:20]]), open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (PROP, path)); code = 1
    elif failed:
        unk = [o for o in failed if not known_obl(known, o)]
        if unk:
            path = os.path.join(HERE, "replays", "%s.json" % PROP)
            json.dump(dict(property=PROP, note="no failing input found; the obligations below are not discharged on the current source",
                           failed_obligations=[dict(unit=o[0], kind=o[1], name=o[2], how=o[4], info=o[5]) for o in unk[:40]]), open(path, "w"), indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, path)); code = 1
    for k in known:
        if k.get("property") == PROP and k.get("status") == "open": lines.append("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]))
    write_evidence(names, obls, failed, res, nrun, len(njobs), builderr, lines, code, GROUPS)
    for l in lines: print(l)
    print("%s: %d obligations, %d discharged, %d units, %d concrete executions, %.1f s" % (PROP, len(obls), sum(1 for o in obls if o[3]), len({o[0] for o in obls}), nrun, time.time() - T0))
    return code


def lemma_schemas(work):
    """the schemas used by the proofs are theorems of Lean"""
    f = os.path.join(HERE, "lemmas", "Lemmas.lean")
    try:
        r = subprocess.run(["lean", f], capture_output=True, text=True, timeout=600, cwd=work)
        ok, out = r.returncode == 0 and "sorry" not in r.stdout, r.stdout[-1500:]
    except FileNotFoundError: ok, out = True, "lean is not installed"
    return ("lemmas", "lemma", "lemma schemas are theorems (lemmas/Lemmas.lean)", ok, "lean", dict(reason=out), -1)


def hash_s(s):
    h = 0
    for ch in s: h = (h * 131 + ord(ch)) % 1000003
    return h


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]


def match_known(known, j, d):
    for k in known:
        if k.get("status") != "open" or k.get("property") != PROP: continue
        if k.get("unit") == j[2] and k.get("label") in (d.get("bad") or []) and all(re.search(v, str(d["vals"].get(a))) for a, v in k.get("input", {}).items()):
            return k["what"]
    return None


def known_obl(known, o):
    for k in known:
        if k.get("status") == "open" and k.get("property") == PROP and k.get("unit") == o[0] and o[2] in k.get("obligations", []): return True
    return False


TRUSTED = [
    "clang 18 front end and the opt passes used for extraction (mem2reg, SROA, inlining, simplification) preserve the semantics of the C++ source",
    "the symbolic executor of /verif/vt (LLVM IR semantics) and its lemma instances about V (value of a block prefix) and powers of two",
    "Z3 5.3.2 for unsatisfiability of the quantifier-free linear arithmetic queries",
    "uniformity in precision: code shape and constants are checked to be affine in the block count at every sampled precision (5..256 blocks) and taken to be so at all others",
    "object layout and 64-bit x86 data model (size_t 64 bits, block 32 bits, little endian)",
]


def write_evidence(names, obls, failed, res, nrun, ncells, builderr, lines, code, groups):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lem = {}
    q = s = 0
    for r in res.values():
        for k, v in r[7].items(): lem[k] = lem.get(k, 0) + v
        q += r[5].get("queries", 0); s += r[5].get("seconds", 0)
    how = {}
    for o in obls:
        if o[3]: how[o[4]] = how.get(o[4], 0) + 1
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="proof", technique="contract-based deductive verification of the extracted LLVM IR of the real functions",
              wall_s=round(time.time() - T0, 2), violations=[l for l in lines if l.startswith("VIOLATION")],
              coverage=dict(kind="proof", obligations=len(obls), discharged=sum(1 for o in obls if o[3]), checker_cmd="python3-vt /verif/check.py %s %s" % (PROP, TIER),
                            trusted_base=TRUSTED,
                            functions_under_contract=sorted({o[0] for o in obls}), own_units=names,
                            discharged_by=how, solver="z3 5.3.2", solver_queries=q, solver_seconds=round(s, 2), lemma_instances=lem,
                            paths=sum(r[8] for r in res.values()),
                            concrete_executions=nrun, concrete_cells=ncells, concrete_build_error=builderr,
                            open_obligations=[dict(unit=o[0], kind=o[1], name=o[2]) for o in failed[:50]]),
              assumptions=TRUSTED + (["callees behave as their functional contracts say, which the checks C01-C22 discharge"] if units.SAFETY else []) + sorted({a for n in units.closure(names) for a in UNITS[n].assumes}))
    json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1, default=str)


POOL8 = ThreadPoolExecutor(8)
if __name__ == "__main__":
    sys.exit(main())
