"""Concrete execution of the extracted code, used only to discard false loop-invariant candidates early.

Nothing is concluded from these runs: a candidate that survives still has to be proved, and one that is
discarded is merely not assumed."""
import os, random, re
from . import ir, term, nat
from .ir import resolve
from .term import *
from .exec import Exec, State, Cfg, Unsupported, Fork, ForkEnum, Dead, Obj, Ptr, NULL, Agg, layout, shape, boolc, LoopView, aff


class Stop(Exception):
    pass


CONC_EXTERN = {}      # the external functions on constants


class Conc(Exec):
    """runs one function on constants; shares globals with nobody"""

    def __init__(self, mod, fn, contracts, cfg, rng, budget, prefix="", loops=None):
        self.mod, self.fn, self.contracts, self.cfg = mod, fn, contracts, cfg
        self.types = mod.types
        self.sc = ()
        self.rng = rng
        self.budget = budget
        self.prefix = prefix
        self.final = False
        self.contract = self
        self.globs, self.globinit, self.globval = {}, {}, {}
        self.objs, self.objs_by_ssa = {}, {}
        self.nret = 0
        self.result = None
        self.heads = loops or {}
        self.seen = {}
        self.lastm = {}
        self.modset = {}
        self.entry_mem = {}

    def note_write(self, st, key): pass
    def oblige(self, *a, **k): return True
    def known(self, st, c): return c is TRUE

    def at_return(self, ex, st, v): self.result = v

    def decide(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        raise Stop()

    def randarr(self, r):
        n = r.count
        if not n.isconst: raise Stop()
        return alit([self.rng.getrandbits(8 * r.elt) for _ in range(n.const)], r.hi)

    def litmem(self, st, obj):
        for r in obj.regions:
            k = obj.key(r)
            a = st.mem.get(k)
            if isinstance(a, Arr) and a.kind != "lit":
                st.mem[k] = alit([sel(a, j).const for j in range(r.count.const)], r.hi)

    def read_cell_or_arr(self, st, obj, r):
        k = obj.key(r)
        v = st.mem.get(k)
        if v is None or (isinstance(v, Arr) and v.kind != "lit" and v.kind != "const"):
            if v is None: v = self.randarr(r) if r.kind == "arr" else P(self.rng.getrandbits(8 * r.elt)) if r.kind == "cell" else NULL
            st.mem[k] = v
        if isinstance(v, Arr) and v.kind == "const":
            v = alit([v.args[0].const] * r.count.const, r.hi)
            st.mem[k] = v
        return v

    def copymem(self, st, d, s, n, kind):
        if not n.isconst: raise Stop()
        n = n.const
        if n == 0: return
        for r in d.obj.regions:
            lo = max(r.start.const, d.off.const); hi = min(r.start.const + r.elt * r.count.const, d.off.const + n)
            if lo >= hi: continue
            if r.kind != "arr":
                if isinstance(s, Ptr):
                    so = s.off.const + lo - d.off.const
                    q = [x for x in s.obj.regions if x.start.const == so and x.kind == r.kind]
                    if not q: raise Stop()
                    st.mem[d.obj.key(r)] = self.read_cell_or_arr(st, s.obj, q[0])
                else: st.mem[d.obj.key(r)] = P(sum(s << (8 * i) for i in range(r.elt))) if r.kind == "cell" else NULL
                continue
            vals = list(self.read_cell_or_arr(st, d.obj, r).args[0])
            for p in range(lo, hi, r.elt):
                if isinstance(s, Ptr):
                    so = s.off.const + p - d.off.const
                    q = [x for x in s.obj.regions if x.start.const <= so < x.start.const + x.elt * x.count.const and x.elt == r.elt]
                    if not q: raise Stop()
                    sv = self.read_cell_or_arr(st, s.obj, q[0])
                    vals[(p - r.start.const) // r.elt] = sel(sv, (so - q[0].start.const) // r.elt).const
                else: vals[(p - r.start.const) // r.elt] = sum(s << (8 * i) for i in range(r.elt))
            st.mem[d.obj.key(r)] = alit(vals, r.hi)

    def val(self, st, v, ty=None):
        if v[0] == "undef":
            t = resolve(ty, self.types)
            if t[0] == "int": return boolc(self.rng.random() < .5) if t[1] == 1 else P(self.rng.getrandbits(t[1]))
        return Exec.val(self, st, v, ty)

    def step(self, st, i):
        if i.op == "alloca":
            o = Obj("%s.%s" % (self.prefix, i.res), layout(i.ty, self.types, self.cfg))
            self.objs[o.name] = o
            for r in o.regions:
                st.mem[o.key(r)] = self.randarr(r) if r.kind == "arr" else P(self.rng.getrandbits(8 * r.elt)) if r.kind == "cell" else NULL
            st.env[i.res] = Ptr(o, 0)
            return None
        return Exec.step(self, st, i)

    def call(self, st, i):
        c = i.x
        if c[0] == "glob" and c[1] in self.mod.funcs and not c[1].startswith("llvm."):
            f = self.mod.funcs[c[1]]
            if self.shortcut(st, i, self.mod.demangled.get(c[1], c[1])): return None
            sub = Conc(self.mod, f, self.contracts, self.cfg, self.rng, self.budget, self.prefix + "'")
            s2 = State()
            s2.mem = st.mem
            for (ssa, ty, at), (t, v, a) in zip(f.params, i.args): s2.env[ssa] = self.val(st, v, t)
            sub.run(s2)
            st.mem = s2.mem
            if i.res: st.env[i.res] = sub.result
            return None
        if c[0] == "glob" and c[1] in CONC_EXTERN: return CONC_EXTERN[c[1]](self, st, i)
        if c[0] == "glob" and c[1] != "vt_pin" and not c[1].startswith("llvm."): raise Stop()
        return Exec.call(self, st, i)

    def shortcut(self, st, i, name):
        """division on constants without interpreting its body (concrete runs only select candidates)"""
        if not re.match(r"^Aeu<[^>]*>::divide\(.*, Aeu<[^>]*>&\)$", name) or len(i.args) != 4: return False
        p = [self.val(st, v, t) for t, v, a in i.args]
        if not all(isinstance(x, Ptr) and x.off.isconst for x in p): return False
        reg = []
        for x in p:
            rs = [r for r in x.obj.regions if r.start is x.off and r.elt == 4 and r.kind == "arr" and r.count is P(self.cfg.N)]
            if not rs: return False
            reg.append(rs[0])
        n, d = [sum(b << (32 * k) for k, b in enumerate(self.read_cell_or_arr(st, x.obj, r).args[0])) for x, r in zip(p[:2], reg)]
        if d == 0: return False
        for x, r, v in zip(p[2:], reg[2:], (n // d, n % d)): st.mem[x.obj.key(r)] = alit(nat.to_limbs(v, r.count.const), r.hi)
        return True

    def run(self, st):
        self.entry_mem = dict(st.mem)
        blk, prev = self.fn.entry, None
        pre = {}
        while True:
            ins = self.fn.blocks[blk]
            nphi = 0
            while nphi < len(ins) and ins[nphi].op == "phi": nphi += 1
            newv = {}
            for i in ins[:nphi]:
                for v, lab in i.x:
                    if lab == prev: newv[i.res] = self.val(st, v, i.ty); break
            if blk in self.heads:
                body, cands, alive, meas, badm = self.heads[blk]
                if prev not in body:
                    for k, v in list(newv.items()):
                        if isinstance(v, Ptr): newv[k + ".idx"] = P(0)
                    p = dict(st.mem); p["__init__"] = dict(newv)
                    pre[blk] = p
                lv = LoopView(self, st, newv, dict(st.env))
                lv.pre = pre[blk]; lv.init = pre[blk]["__init__"]
                for k, v in list(newv.items()):
                    if isinstance(v, Ptr):
                        b = lv.init[k]
                        es = max(r.elt for r in b.obj.regions)
                        d = v.off - b.off
                        if isinstance(d, Poly) and d.isconst: lv.phis[k + ".idx"] = P(d.const // es)
                for n in list(alive):
                    try: b = cands[n][1](lv)
                    except Undefined: b = FALSE
                    if b is not TRUE: alive.discard(n); self.seen[(blk, n)] = (b, dict(newv))
                for n, (d, g) in enumerate(meas):
                    if n in badm: continue
                    try: m = g(lv)
                    except Undefined: m = None
                    if m is not None: m = term._cs(P(m))
                    if m is None or not m.isconst: badm.add(n); continue
                    if prev in body:
                        m0 = self.lastm.get((blk, n))
                        if m0 is not None and not (m0 >= 0 and m.const < m0): badm.add(n)
                    self.lastm[(blk, n)] = m.const
            for k, v in newv.items(): st.env[k] = v
            pc = nphi
            while True:
                self.budget[0] -= 1
                if self.budget[0] <= 0: raise Stop()
                try: nxt = self.step(st, ins[pc])
                except (Fork, ForkEnum): raise Stop()
                if nxt is None: pc += 1; continue
                if nxt == "end": return
                prev, blk = blk, nxt
                break


def literals(fn):
    s = set()
    return s


def inputs(sym, contract, sc, rng, N, M):
    vals = nat.gen_input(rng, contract, N, M)
    for g in sc:
        for x in g[1:]: vals[x] = vals[g[0]]
    return vals


def filter_cands(sym, head, cands, meas, seed=7, runs=30, budget=60000):
    """indices of candidates not contradicted by a concrete run"""
    ct = sym.contract
    alive = set(range(len(cands)))
    rng = random.Random(seed)
    rel = ct.unit.rel
    pts = [(3, 3), (4, 4), (3, 3), (5, 5)] if rel in ("eq", "le7") else [(8, 8), (9, 9)] if rel == "ge8" else [(3, 5), (4, 5)] if rel == "lt" else [(5, 3), (5, 4)]
    badm = set()
    heads = {head: (sym.loops[head], cands, alive, meas, badm)}
    bud = [budget * runs]
    tried = done = 0
    sym.conc_why = {}
    import time
    t0 = time.time()
    while done < runs and tried < 40 * runs and bud[0] > 0 and time.time() - t0 < ct.opts.get('conc', float(os.environ.get('VT_CONC', 6))):
        tried += 1
        N, M = pts[tried % len(pts)]
        term.CONC[0] = {}
        try: vals = inputs(sym, ct, sym.sc, rng, N, M)
        except KeyError: return alive, badm
        if not nat.pre_ok(ct, N, M, vals): continue
        done += 1
        cfg = Cfg(N, M)
        one = [min(budget, bud[0])]
        c = Conc(sym.mod, sym.fn, sym.contracts, cfg, rng, one, loops=heads)
        st = State()
        al = {}
        for grp in sym.sc:
            for x in grp[1:]: al[x] = grp[0]
        objs = {}
        for (pn, kind), (ssa, ty, at) in zip(ct.params, sym.fn.params):
            if nat.isscalar(kind):
                st.env[ssa] = boolc(vals[pn]) if kind == "i1" else P(vals[pn])
                continue
            k, ro = nat.kindof(kind)
            if pn in al: o = objs[al[pn]]
            else:
                sc = {q: P(vals[q]) for q, kd in ct.params if nat.isscalar(kd) and kd != "i1"}
                if nat.isstr(k): sc[pn + ".n"] = P(len(vals[pn][1]))
                o = shape(pn, k, cfg, sc)
                c.objs[pn] = o
                if nat.isstr(k):
                    c.objs[o.data.name] = o.data
                    st.mem[o.data.key(o.data.regions[0])] = alit(vals[pn][1], o.data.regions[0].hi)
                    for r in o.regions: st.mem[o.key(r)] = Ptr(o.data, 0) if r.kind == "pcell" else sc[pn + ".n"]
                    objs[pn] = o
                    st.env[ssa] = Ptr(o, 0)
                    continue
                for r in o.regions:
                    if k == "Z":
                        o.mag = P(sum(b << (32 * i) for i, b in enumerate(vals[pn][1])))
                        if r.kind == "cell": st.mem[o.key(r)] = P(vals[pn][0] * (len(vals[pn][1]) // 2) % 2 ** 32)
                    elif r.kind == "arr":
                        n = r.count.const
                        lim = list(vals[pn][1])
                        if k == "UU": lim = lim[n * r.idx:n * r.idx + n]
                        st.mem[o.key(r)] = alit(lim, r.hi)
                    else: st.mem[o.key(r)] = P(vals[pn][0] % 2 ** (8 * r.elt))
            objs[pn] = o
            st.env[ssa] = Ptr(o, 0)
        term.CONC[0] = {sym.cfg.N: P(N), sym.cfg.M: P(M)}
        for pn, v in sym.ctx.sc.items():
            if not isinstance(v, Poly): continue
            if pn.endswith(".mag"): term.CONC[0][v] = P(sum(b << (32 * i) for i, b in enumerate(vals[pn[:-4]][1])))
            elif pn.endswith(".n"): term.CONC[0][v] = P(len(vals[pn[:-2]][1]))
            elif pn.endswith(".sgn"): term.CONC[0][v] = P(vals[pn[:-4]][0] % 2 ** 32)
            else: term.CONC[0][v] = P(vals[pn])
        try: c.run(st)
        except (Stop, Unsupported, Dead, Undefined, AttributeError, KeyError, IndexError) as e:
            sym.conc_err = repr(e)
        finally: term.CONC[0] = None
        for (h, n), w in c.seen.items(): sym.conc_why[cands[n][0]] = w
        bud[0] -= budget - one[0]
    sym.conc_runs = done
    return alive, badm
