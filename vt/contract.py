"""Contracts: pre/postconditions over the abstract values, and how they are verified and applied."""
import re, time
from . import smt
from .term import *
from .exec import *

B = 2 ** 32


class Ctx:
    """names visible to a pre/postcondition"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.N, self.M = cfg.N, cfg.M
        self.old, self.new, self.sc, self.ret, self.retptr = {}, {}, {}, None, None
        self.osg, self.nsg = {}, {}

    def o(self, n): return self.old[n]
    def n(self, n): return self.new[n]
    def a(self, n): return self.sc[n]
    def Vo(self, n): return V(self.old[n], self.cnt[n])
    def Vn(self, n): return V(self.new[n], self.cnt[n])
    def os(self, n): return self.osg[n]
    def ns(self, n): return self.nsg[n]
    @property
    def W(self): return 32 * self.N


def isstr(k): return k[:2] in ("sv", "st") and k[2:].isdigit()


def zfacts(size, mag, sgn):
    """_mp_size is zero exactly for zero, and negative exactly for negative numbers"""
    return [iff(eq(size, 0), eq(mag, 0)), ge(mag, 0),
            or_(and_(eq(size, 0), eq(sgn, 0)), and_(ge(size, 1), lt(size, B // 2), eq(sgn, 1)), and_(ge(size, B // 2), eq(sgn, B - 1)))]


class Contract:
    def __init__(self, name, regex, params, mods=(), pre=None, post=None, ret=None, alias=(), cands=None,
                 opts=None, scen=None, exclude=None, debug=False, inv_timeout=4.0, note=""):
        self.name, self.regex, self.params, self.mods = name, re.compile(regex), params, tuple(mods)
        self.pre, self.post, self.ret, self.alias = pre, post, ret, tuple(alias)
        self.cands = cands
        self.opts = opts or {}
        self.scen = scen
        self.exclude = re.compile(exclude) if exclude else None
        self.debug = debug
        self.inv_timeout = inv_timeout
        self.note = note
        self.only_scen = None
        self.safety = None      # only safety and termination obligations: "light" with linear invariants, "full" with all

    def matches(self, demangled, name):
        return bool(self.regex.search(demangled)) and not (self.exclude and self.exclude.search(demangled))

    # ---------------------------------------------------- verification side
    def scenarios(self):
        out = [()]
        for a in self.alias: out.append((a,))
        return out

    def setup(self, ex):
        cfg = ex.cfg
        st = State()
        ex.objs = {}
        ex.objs_by_ssa = {}
        c = Ctx(cfg)
        c.cnt = {}
        al = {}
        for grp in ex.sc:
            for x in grp[1:]: al[x] = grp[0]
        fnp = ex.fn.params
        if len(fnp) != len(self.params):
            raise Unsupported("parameter list of %s changed" % self.name)
        ex.pobj = {}
        for pn, kind in self.params:
            if kind[0] == "i" and kind[1:].isdigit(): c.sc[pn] = bvar(pn) if kind == "i1" else var(pn, 0, 2 ** int(kind[1:]) - 1)
            elif isstr(self.kindof(kind)): c.sc[pn + ".n"] = var(pn + ".n", 0, 2 ** 61)
        for (pn, kind), (ssa, ty, at) in zip(self.params, fnp):
            if kind[0] == "i" and kind[1:].isdigit():
                w = int(kind[1:])
                if ty != ("int", w): raise Unsupported("parameter type of %s changed" % self.name)
                st.env[ssa] = c.sc[pn]
                continue
            if ty[0] != "ptr": raise Unsupported("parameter kind of %s changed" % self.name)
            k = kind.replace("sret:", "")
            ro = False
            if k.startswith("c") and not k.startswith("cell"): k = k[1:]
            if pn in al:
                o = ex.pobj[al[pn]]
                if ex.pkind[al[pn]] != k: raise Unsupported("alias of different shapes")
            else:
                o = shape(pn, k, cfg, c.sc)
                ex.objs[pn] = o
                for r in o.regions:
                    nm = pn if r.kind == "arr" else pn + ".sign" if k in ("S", "SM") else pn + ".cell"
                    if kind.startswith("sret:"): nm = nm + ".uninit"
                    if r.kind == "pcell": continue
                    if r.kind == "arr": st.mem[o.key(r)] = avar(nm + (str(r.idx) if k == "UU" else ""), r.hi)
                    else: st.mem[o.key(r)] = var(nm, 0, r.hi)
            ex.pobj[pn] = o
            if not hasattr(ex, "pkind"): ex.pkind = {}
            ex.pkind[pn] = k
            st.env[ssa] = Ptr(o, 0)
            if isstr(k):
                ex.objs[o.data.name] = o.data
                r = o.data.regions[0]
                c.old[pn] = st.mem[o.data.key(r)] = avar(pn + ".data", r.hi)
                c.cnt[pn] = r.count
                for r in o.regions: st.mem[o.key(r)] = Ptr(o.data, 0) if r.kind == "pcell" else r.idx == (k[:2] == "st") and c.sc[pn + ".n"] or var("%s.%d" % (pn, r.idx), 0, r.hi)
                continue
            if k == "Z":
                # an mpz object: its size field holds the sign, its magnitude is a ghost value
                sz = st.mem[(o.name, 1)] = var(pn + ".size", 0, 2 ** 32 - 1)
                st.mem[(o.name, 0)] = var(pn + ".alloc", 0, 2 ** 32 - 1)
                c.sc[pn + ".mag"] = o.mag = var(pn + ".mag", 0, None)
                c.sc[pn + ".sgn"] = o.sgn = var(pn + ".sgn", 0, 2 ** 32 - 1)
                for b in zfacts(sz, o.mag, c.sc[pn + ".sgn"]): st.add(b)
                continue
            self.bind(c.old, c.osg, c.cnt, pn, k, o, 0, st)
        for b in cfg.assume: st.add(b)
        ex.ctx = c
        if self.pre:
            for b in self.pre(c): st.add(b)
        # splits requested by the contract are path conditions
        return st

    def bind(self, arrs, signs, cnt, pn, k, o, off, st):
        """attach the regions of parameter pn"""
        rs = o.regions

        def at(offp, kind):
            for r in rs:
                if r.kind == kind or (kind == "cell" and r.kind == "cell"):
                    d = r.start - offp
                    if d.isconst and d.const == 0: return r
            raise Unsupported("pointer does not denote a whole object (%s)" % pn)
        off = P(off)
        if k in ("U", "UM"):
            r = at(off, "arr"); arrs[pn] = st.mem[o.key(r)]; cnt[pn] = r.count
        elif k in ("S", "SM"):
            r = at(off, "cell"); signs[pn] = st.mem[o.key(r)]
            r = at(off + 4, "arr"); arrs[pn] = st.mem[o.key(r)]; cnt[pn] = r.count
        elif k == "UU":
            r = at(off, "arr"); arrs[pn + ".0"] = st.mem[o.key(r)]; cnt[pn + ".0"] = r.count
            r = at(off + 4 * r.count, "arr"); arrs[pn + ".1"] = st.mem[o.key(r)]; cnt[pn + ".1"] = r.count
        elif k.startswith("cell"):
            r = at(off, "cell"); signs[pn] = st.mem[o.key(r)]
        elif k.startswith("buf"):
            r = at(off, "arr"); arrs[pn] = st.mem[o.key(r)]; cnt[pn] = r.count
            if r.elt != bufkind(k)[0]: raise Unsupported("array of another element size")
        else:
            raise Unsupported("kind " + k)

    def kindof(self, kind):
        k = kind.replace("sret:", "")
        if k.startswith("c") and not k.startswith("cell"): k = k[1:]
        return k

    def at_return(self, ex, st, v):
        if not ex.final or self.safety: return
        c = ex.ctx
        c.new, c.nsg = {}, {}
        cnt = {}
        for pn, kind in self.params:
            if kind[0] == "i" and kind[1:].isdigit() or self.kindof(kind) == "Z" or isstr(self.kindof(kind)): continue
            self.bind(c.new, c.nsg, cnt, pn, self.kindof(kind), ex.pobj[pn], 0, st)
        # frame
        al = {}
        for grp in ex.sc:
            for x in grp[1:]: al[x] = grp[0]
        modset = set(self.mods) | {al[m] for m in self.mods if m in al} | {x for x in al if al[x] in self.mods}
        for pn, kind in self.params:
            if kind[0] == "i" and kind[1:].isdigit(): continue
            if kind.startswith("sret:") or pn in modset: continue
            o = ex.pobj[pn]
            for r in o.regions:
                k = o.key(r)
                if r.kind == "pcell":
                    if st.mem.get(k) is not ex.entry_mem.get(k): ex.oblige(st, "frame", "%s is not modified" % pn, FALSE)
                    continue
                a, b = ex.entry_mem[k], st.mem[k]
                if a is b: continue
                g = eqr(b, a, 0, r.count) if r.kind == "arr" else eq(a, b)
                ex.oblige(st, "frame", "%s is not modified" % pn, g)
        if self.ret is None:
            c.ret = None
        elif self.ret.startswith("ref:"):
            o = ex.pobj[self.ret[4:]]
            ok = isinstance(v, Ptr) and v.obj is o and v.off.isconst and v.off.const == 0
            ex.oblige(st, "post", "returns a reference to its left operand", TRUE if ok else FALSE)
        else:
            w = int(self.ret[1:])
            c.ret = v
        if self.post:
            for lab, b in self.post(c):
                ex.oblige(st, "post", lab, b, timeout=self.opts.get("post_timeout", 10.0))

    # ---------------------------------------------------- caller side
    def apply(self, ex, st, i):
        args = i.args
        if len(args) != len(self.params): raise Unsupported("call of %s with another signature" % self.name)
        c = Ctx(ex.cfg)
        c.cnt = {}
        ptrs = {}
        for (pn, kind), (ty, v, at) in zip(self.params, args):
            if kind[0] == "i" and kind[1:].isdigit(): c.sc[pn] = ex.val(st, v, ty)
        for (pn, kind), (ty, v, at) in zip(self.params, args):
            x = ex.val(st, v, ty)
            if kind[0] == "i" and kind[1:].isdigit():
                c.sc[pn] = x
            else:
                if not isinstance(x, Ptr): raise Unsupported("call of %s with %r" % (self.name, x))
                ptrs[pn] = x
                if self.kindof(kind) == "Z":
                    if not hasattr(x.obj, "mag"): raise Unsupported("not a GMP integer")
                    c.sc[pn + ".mag"], c.sc[pn + ".sgn"] = x.obj.mag, x.obj.sgn
                    continue
                self.bind_ensure(ex, st, x)
                self.bind(c.old, c.osg, c.cnt, pn, self.kindof(kind), x.obj, x.off, st)
                if self.kindof(kind).startswith("buf"):
                    k = bufkind(self.kindof(kind))[1]
                    k = P(k) if isinstance(k, int) else c.sc[k]
                    ex.oblige(st, "precondition", "%s receives the whole array" % self.name, le(k, c.cnt[pn]))
                    c.cnt[pn] = k
                    continue
                want = ex.cfg.M if self.kindof(kind) in ("UM", "SM") else ex.cfg.N
                for nm in (pn, pn + ".0"):
                    if nm in c.cnt:
                        d = c.cnt[nm] - want
                        if not (d.isconst and d.const == 0): raise Unsupported("object of another precision")
        # aliasing of written parameters
        names = list(ptrs)
        for a in range(len(names)):
            for b in range(a + 1, len(names)):
                x, y = ptrs[names[a]], ptrs[names[b]]
                if x.obj is y.obj and (x.off - y.off).isconst and (x.off - y.off).const == 0:
                    ka, kb = dict(self.params)[names[a]], dict(self.params)[names[b]]
                    wa = names[a] in self.mods or ka.startswith("sret")
                    wb = names[b] in self.mods or kb.startswith("sret")
                    if (wa or wb) and not any(set((names[a], names[b])) <= set(g) for g in self.alias):
                        ex.oblige(st, "precondition", "operands of %s are distinct objects" % self.name, FALSE)
        if self.pre:
            for n, b in enumerate(self.pre(c)):
                ex.oblige(st, "precondition", "%s precondition %d" % (self.name, n), b)
                st.add(b)
        # havoc
        for pn, kind in self.params:
            if kind[0] == "i" and kind[1:].isdigit(): continue
            if pn in self.mods or kind.startswith("sret:"):
                p = ptrs[pn]
                for r in self.regions_at(p, self.kindof(kind)):
                    k = p.obj.key(r)
                    ex.note_write(st, k)
                    st.mem[k] = fresh_arr(p.obj.name, r.hi) if r.kind == "arr" else fresh(p.obj.name, 0, r.hi)
        cnt = {}
        for pn in ptrs:
            if self.kindof(dict(self.params)[pn]) == "Z": continue
            self.bind(c.new, c.nsg, cnt, pn, self.kindof(dict(self.params)[pn]), ptrs[pn].obj, ptrs[pn].off, st)
        if self.ret and self.ret.startswith("ref:"):
            st.env[i.res] = ptrs[self.ret[4:]]
        elif self.ret:
            w = int(self.ret[1:])
            # a call that writes nothing is a function of what it reads
            pk = (self.name,) + tuple((pn, kd) + ((c.sc[pn],) if pn in c.sc else tuple((nm, c.old.get(nm), c.osg.get(nm)) for nm in (pn, pn + ".0", pn + ".1"))) for pn, kd in self.params)
            pure = not self.mods and not any(kd.startswith("sret:") for pn, kd in self.params)
            c.ret = ex.purecalls.get(pk) if pure else None
            if c.ret is None: c.ret = bvar(fresh_name(self.name)) if w == 1 else fresh(self.name, 0, 2 ** w - 1)
            if pure: ex.purecalls[pk] = c.ret
            st.env[i.res] = c.ret
        if self.post:
            for lab, b in self.post(c):
                if lab[0] != '~': st.add(b)
        ex.used.add(self.name)
        return None

    def bind_ensure(self, ex, st, x):
        for r in x.obj.regions: ex.read_cell_or_arr(st, x.obj, r)

    def regions_at(self, p, k):
        out = []
        for r in p.obj.regions:
            d = r.start - p.off
            if k in ("U", "UM"):
                if r.kind == "arr" and d.isconst and d.const == 0: out.append(r)
            elif k in ("S", "SM"):
                if d.isconst and d.const == 0 and r.kind == "cell": out.append(r)
                if d.isconst and d.const == 4 and r.kind == "arr": out.append(r)
            elif k == "UU":
                out.append(r)
            elif k.startswith("cell"):
                if d.isconst and d.const == 0: out.append(r)
            elif k.startswith("buf"):
                if r.kind == "arr" and d.isconst and d.const == 0: out.append(r)
        return out

    def candidates(self, ex, li):
        from . import cands as C
        inv = C.generic(ex, li)
        meas = C.measures(ex, li)
        if self.cands:
            a, b = self.cands(ex, li)
            inv += a; meas += b
        # trace filter hook
        if ex.trace_filter: inv = ex.trace_filter(li, inv)
        if self.safety in LEVELS: inv = [(d, restrict(g, LEVELS[self.safety])) for d, g in inv]
        return inv, meas


# invariants offered when only safety is at stake, cheapest first: linear ones, ones without mathematical functions, all
LEVELS = {"light": re.compile(r"\[|\w\(|\*\*|\^"), "medium": re.compile(r"\b(?!V|E|all|eqr)[A-Za-z]\w*\(")}


def restrict(g, rx):
    def f(lv):
        b = g(lv)
        if b not in (TRUE, FALSE) and rx.search(repr(b)): raise Undefined()
        return b
    return f


class UnitResult:
    def __init__(self, name): self.name = name; self.obls = []; self.wall = 0; self.used = set(); self.invs = {}; self.error = None; self.solver = {}; self.npaths = 0


def verify(mod, contract, contracts, cfg, verbose=False, fn=None):
    """verify one contract against the extracted body; returns UnitResult"""
    if contract.safety:
        for contract.safety in LEVELS:
            r = verify1(mod, contract, contracts, cfg, verbose, fn)
            if all(o.ok for o in r.obls): return r
        contract.safety = "full"
    return verify1(mod, contract, contracts, cfg, verbose, fn)


def verify1(mod, contract, contracts, cfg, verbose=False, fn=None):
    t0 = time.time()
    res = UnitResult(contract.name)
    q0, s0 = smt.STATS["queries"], smt.STATS["solver_s"]
    fns = [fn] if fn else [f for f in mod.funcs.values() if contract.matches(f.demangled, f.name)]
    if not fns:
        res.error = "no function matches " + contract.regex.pattern
        res.obls.append(Obligation("extraction", contract.name + " is present in the extracted code", False, "missing", dict(reason=res.error)))
        return res
    for f in fns:
        for sc in (contract.scenarios() if contract.only_scen is None else [contract.only_scen]):
            try:
                ex = Exec(mod, f, contract, [c for c in contracts], cfg, sc, log=(print if verbose else None))
                ex.used = res.used
                if ex.loops: ex.discover()
                rounds = 0
                while True:
                    rounds += 1
                    ex.final = False
                    ex.run_pass()
                    drop = False
                    for h, bad in ex.failed_cands.items():
                        if bad:
                            ex.cands[h] = [x for n, x in enumerate(ex.cands[h]) if n not in bad]
                            drop = True
                    if not drop and not ex.redo: break
                    if rounds > 60: break
                # final pass with all obligations
                ex.final = True
                ex.run_pass()
                for h in ex.cands:
                    ms = [m for n, m in enumerate(ex.meas[h]) if n not in ex.failed_meas.get(h, set())]
                    ex.obls.append(Obligation("termination", "loop %s has a decreasing measure%s" % (h, " (%s)" % ms[0][0] if ms else ""), bool(ms), "measure"))
                if ex.nret == 0:
                    ex.obls.append(Obligation("vacuity", "some path returns", False, "no returning path"))
                tag = "%s%s" % (contract.name, "" if not sc else " [%s]" % ",".join("=".join(g) for g in sc))
                for o in ex.obls:
                    o.name = tag + ": " + o.name
                    res.obls.append(o)
                res.invs[tag] = {h: [d for d, g in cs] for h, cs in ex.cands.items()}
                res.npaths += ex.npaths
                res.rounds = rounds
            except Unsupported as e:
                res.obls.append(Obligation("extraction", contract.name + ": within the verifier's reach", False, "unsupported", dict(reason=str(e))))
    res.wall = time.time() - t0
    res.solver = dict(queries=smt.STATS["queries"] - q0, seconds=round(smt.STATS["solver_s"] - s0, 3))
    return res
