"""Deductive symbolic execution of the extracted functions.

Every function under contract is executed path by path over unbounded symbolic
inputs; loops are cut at their heads by invariants (established, preserved,
havoc on entry), calls to other functions under contract are replaced by their
contracts.  Nothing is unrolled except loops with no symbolic state (none here).
"""
import re, time
from . import ir, smt
from .ir import Aff, NonAff, resolve
from .term import *
from .smt import quick, prove

NV = var("N", 3, 2**26)
MV = var("M", 3, 2**26)


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, cond): self.cond = cond


class ForkEnum(Exception):
    def __init__(self, conds): self.conds = conds


class Restart(Exception):
    pass


class Dead(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off): self.obj, self.off = obj, P(off)
    def __repr__(self): return "&%s+%r" % (self.obj.name, self.off)


class Null:
    def __repr__(self): return "null"


class FnPtr:
    def __init__(self, name): self.name = name


NULL = Null()


class Agg:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v


class Region:
    __slots__ = ("start", "elt", "count", "kind", "idx", "hi")

    def __init__(self, start, elt, count, kind, idx):
        self.start, self.elt, self.count, self.kind, self.idx = start, elt, count, kind, idx
        self.hi = 2 ** (8 * elt) - 1


class Obj:
    def __init__(self, name, regions, ro=False):
        self.name, self.regions, self.ro = name, regions, ro
        self.size = None

    def key(self, r): return (self.name, r.idx)


def aff(a, cfg):
    if isinstance(a, Aff):
        p = P(a.c)
        if a.n: p = p + a.n * cfg.N
        if a.m: p = p + a.m * cfg.M
        return p
    if isinstance(a, NonAff):
        return cfg.nonaff(a)
    if isinstance(a, int): return P(a)
    raise Unsupported("literal %r" % (a,))


def sizeof(ty, types, cfg):
    """(size Poly, align)"""
    ty = resolve(ty, types)
    k = ty[0]
    if k == "int":
        b = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty[1])
        if b is None: raise Unsupported("int width %d" % ty[1])
        return P(b), b
    if k == "ptr": return P(8), 8
    if k == "double": return P(8), 8
    if k == "arr":
        s, al = sizeof(ty[2], types, cfg)
        return s * aff(ty[1], cfg), al
    if k == "struct":
        off = P(0); al = 1
        for f in ty[1]:
            s, a = sizeof(f, types, cfg)
            off = align(off, a) + s
            al = max(al, a)
        return align(off, al), al
    raise Unsupported("sizeof %r" % (ty,))


def align(p, a):
    if a == 1: return p
    if all(c % a == 0 for m, c in p.t): return p
    if p.isconst: return P((p.const + a - 1) // a * a)
    c = p.c0
    if all(k % a == 0 for m, k in p.t if m is not ONE): return p - c + (c + a - 1) // a * a
    raise Unsupported("symbolic alignment of %r to %d" % (p, a))


def layout(ty, types, cfg, off=None, out=None):
    if out is None: out = []
    off = P(0) if off is None else off
    ty = resolve(ty, types)
    k = ty[0]
    if k == "arr":
        e = resolve(ty[2], types)
        if e[0] in ("int", "ptr") and e != ("ptr",):
            es = sizeof(e, types, cfg)[0].const
            out.append(Region(off, es, aff(ty[1], cfg), "arr", len(out)))
        else:
            n = aff(ty[1], cfg)
            if not n.isconst: raise Unsupported("array of aggregates with symbolic length")
            es = sizeof(e, types, cfg)[0]
            for i in range(n.const): layout(e, types, cfg, off + es * i, out)
    elif k == "struct":
        o = P(0)
        for f in ty[1]:
            s, a = sizeof(f, types, cfg)
            o = align(o, a)
            layout(f, types, cfg, off + o, out)
            o = o + s
    elif k == "int":
        out.append(Region(off, sizeof(ty, types, cfg)[0].const, P(1), "cell", len(out)))
    elif k == "ptr":
        out.append(Region(off, 8, P(1), "pcell", len(out)))
    else:
        raise Unsupported("layout %r" % (ty,))
    return out


# object shapes used by contracts
def bufkind(kind):
    """element size and length (a number or the name of a parameter) of an array parameter"""
    w, n = kind[3:].split(":")
    return int(w), int(n) if n.isdigit() else n


def shape(name, kind, cfg, sc=None):
    n = cfg.N
    if kind.startswith("buf"):
        w, k = bufkind(kind)
        return Obj(name, [Region(P(0), w, P(k if isinstance(k, int) else sc[k]), "arr", 0)])
    if kind[:2] in ("sv", "st") and kind[2:].isdigit():
        # std::string_view {length, pointer} and std::string {pointer, length, small buffer} of libstdc++
        rs = [Region(P(0), 8, P(1), "cell", 0), Region(P(8), 8, P(1), "pcell", 1)]
        if kind[:2] == "st": rs = [Region(P(0), 8, P(1), "pcell", 0), Region(P(8), 8, P(1), "cell", 1), Region(P(16), 8, P(1), "cell", 2), Region(P(24), 8, P(1), "cell", 3)]
        o = Obj(name, rs)
        w = int(kind[2:])
        o.data = Obj(name + ".data", [Region(P(0), w, P(sc[name + ".n"]), "arr", 0)])
        return o
    if kind == "U": return Obj(name, [Region(P(0), 4, n, "arr", 0)])
    if kind == "S": return Obj(name, [Region(P(0), 4, P(1), "cell", 0), Region(P(4), 4, n, "arr", 1)])
    if kind == "UM": return Obj(name, [Region(P(0), 4, cfg.M, "arr", 0)])
    if kind == "SM": return Obj(name, [Region(P(0), 4, P(1), "cell", 0), Region(P(4), 4, cfg.M, "arr", 1)])
    if kind == "UU": return Obj(name, [Region(P(0), 4, n, "arr", 0), Region(4 * n, 4, n, "arr", 1)])
    if kind == "Z": return Obj(name, [Region(P(0), 4, P(1), "cell", 0), Region(P(4), 4, P(1), "cell", 1), Region(P(8), 8, P(1), "pcell", 2)])
    if kind == "i32": return Obj(name, [Region(P(0), 4, P(1), "cell", 0)])
    if kind == "i64": return Obj(name, [Region(P(0), 8, P(1), "cell", 0)])
    if kind.startswith("cell"): return Obj(name, [Region(P(0), int(kind[4:]), P(1), "cell", 0)])
    raise Unsupported("shape " + kind)


class Cfg:
    """precision configuration: symbolic N (and M)"""

    def __init__(self, N=None, M=None):
        self.N = NV if N is None else P(N)
        self.M = MV if M is None else P(M)
        self.assume = []
        self.nonaff_vals = {}

    def nonaff(self, a):
        if a.frac: return a.frac[0] * div(P(a.frac[1]) * self.N, a.frac[2])
        k = repr(a)
        if k not in self.nonaff_vals:
            lo = min(a.samples.values())
            v = var("lit%d" % len(self.nonaff_vals), 0, 2**64 - 1)
            self.nonaff_vals[k] = (v, a)
        return self.nonaff_vals[k][0]


class State:
    __slots__ = ("env", "mem", "facts", "loops", "path", "trips")

    def __init__(self):
        self.env, self.mem, self.facts, self.loops, self.path = {}, {}, (), (), ()
        self.trips = {}

    def copy(self):
        s = State()
        s.trips = self.trips
        s.env, s.mem, s.facts, s.loops, s.path = dict(self.env), dict(self.mem), self.facts, self.loops, self.path
        return s

    def add(self, *bs):
        for b in bs:
            for x in (b.args if b.op == "and" else (b,)):
                if x is TRUE or x in self.facts: continue
                if x is FALSE: raise Dead()
                self.facts = self.facts + (x,)


def loops_of(f):
    """natural loops: head -> set of blocks; (reducible CFG expected)"""
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == "br": succ[b] = list(t.x)
        elif t.op == "switch": succ[b] = [t.x[0]] + [c[1] for c in t.x[1]]
        else: succ[b] = []
    pred = {b: [] for b in f.order}
    for b in succ:
        for s in succ[b]: pred[s].append(b)
    dom = {b: set(f.order) for b in f.order}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b == f.entry: continue
            ps = [dom[p] for p in pred[b]]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n; ch = True
    loops = {}
    for b in succ:
        for h in succ[b]:
            if h in dom[b]:
                body = loops.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st += pred[x]
    # irreducibility: a back edge (DFS) to a non-dominator
    color = {}

    def dfs(b):
        stack = [(b, iter(succ[b]))]
        color[b] = 1
        while stack:
            x, it = stack[-1]
            for y in it:
                if color.get(y, 0) == 0:
                    color[y] = 1
                    stack.append((y, iter(succ[y])))
                    break
                elif color[y] == 1 and y not in dom[x]:
                    raise Unsupported("irreducible control flow")
            else:
                color[x] = 2
                stack.pop()
    dfs(f.entry)
    return loops, succ


class LoopRec:
    __slots__ = ("head", "phis", "meas", "pre", "body", "cands", "view", "pre")


class Obligation:
    __slots__ = ("kind", "name", "ok", "how", "info", "path")

    def __init__(self, kind, name, ok, how, info=None, path=()):
        self.kind, self.name, self.ok, self.how, self.info, self.path = kind, name, ok, how, info, path


# ---------------------------------------------------------------- loop views
class LoopView:
    """what a loop-invariant candidate may talk about, at one arrival at the loop head"""

    def __init__(self, ex, st, phis, pre_vals):
        self.ex, self.st, self.phis, self.vals = ex, st, phis, pre_vals
        self.N, self.M = ex.cfg.N, ex.cfg.M

    def __getitem__(self, n):
        v = self.phis.get(n)
        if v is None: v = self.vals.get(n)
        if v is None: raise Undefined()
        return v

    def count(self, key):
        """number of elements of an array"""
        o = self.ex.objs.get(key[0]) or self.ex.globs.get(key[0][1:])
        if o is None: raise Undefined()
        return o.regions[key[1]].count

    def elem(self, ptr):
        """element index a pointer denotes"""
        p = self[ptr]
        rs = [r for r in p.obj.regions if r.kind == "arr"]
        d = p.off - rs[0].start
        if any(c % rs[0].elt for m, c in d.t): raise Undefined()
        return mkpoly({m: c // rs[0].elt for m, c in d.t})

    def arr(self, key):
        a = self.st.mem.get(key)
        if not isinstance(a, Arr): raise Undefined()
        return a

    def cell(self, key):
        a = self.st.mem.get(key)
        if not isinstance(a, Poly): raise Undefined()
        return a

    def arrL(self, key):
        """content when this execution of the loop was entered"""
        a = self.pre.get(key)
        if not isinstance(a, Arr): raise Undefined()
        return a

    def cell0(self, key):
        a = self.ex.entry_mem.get(key)
        if not isinstance(a, Poly): raise Undefined()
        return a

    def arr0(self, key):
        """content at function entry (parameters) """
        a = self.ex.entry_mem.get(key)
        if not isinstance(a, Arr): raise Undefined()
        return a


class LoopInfo:
    """names available to candidate generators for one loop"""

    def __init__(self):
        self.phis = {}     # name -> width
        self.outer = {}    # ssa ints defined outside
        self.mod = set()   # modified array regions
        self.arrs = {}     # key -> Region (all live u32 arrays)
        self.cells = set()
        self.head = None
        self.inits = {}


EXTERN = {}      # contracts of the external functions: name -> handler(executor, state, call)


class Exec:
    def __init__(self, mod, fn, contract, contracts, cfg, scenario, log=None, budget=None):
        self.mod, self.fn, self.contract, self.contracts, self.cfg, self.sc = mod, fn, contract, contracts, cfg, scenario
        self.types = mod.types
        self.loops, self.succ = loops_of(fn)
        self.modset = {h: set() for h in self.loops}
        self.static = self.static_loops()
        self.discovering = None
        self.cands = {}        # head -> list of (desc, fn)
        self.meas = {}         # head -> list of (desc, fn)
        self.dropped = {}
        self.linfo = {}
        self.final = False
        self.obls = []
        self.entry_mem = {}
        self.npaths = 0
        self.log = log or (lambda *a: None)
        self.maxpaths = 4000
        self.extern = {}
        self.pcache = {}
        self.trace_filter = None
        self.nret = 0
        self.failed_meas = {}

    def static_loops(self):
        """loops whose trip count is a small constant of the source (bits of a byte, bytes of a block): executed exactly"""
        out = set()

        def lit(v):
            return v[0] == "int" and isinstance(v[1], Aff) and v[1].n == 0 and v[1].m == 0
        for h, body in self.loops.items():
            defs = {}
            for b in body:
                for i in self.fn.blocks[b]:
                    if i.res: defs[i.res] = i
            cand = set()
            for i in self.fn.blocks[h]:
                if i.op != "phi": break
                if i.ty[0] != "int" or i.ty[1] < 8: continue
                ini = [v for v, lab in i.x if lab not in body]
                nxt = [v for v, lab in i.x if lab in body]
                if not ini or not nxt or not all(lit(v) and abs(v[1].c) <= 64 for v in ini): continue
                if len({repr(v) for v in nxt}) != 1 or nxt[0][0] != "loc" or nxt[0][1] not in defs: continue
                d = defs[nxt[0][1]]
                if d.op in ("add", "sub", "shl", "lshr") and d.args[0] == ("loc", i.res) and lit(d.args[1]) and d.args[1][1].c != 0:
                    cand |= {i.res, nxt[0][1]}
            ok = False
            for b in body:
                t = self.fn.blocks[b][-1]
                if t.op == "br" and len(t.x) == 2 and not all(x in body for x in t.x):
                    c = t.args[0]
                    d = defs.get(c[1]) if c[0] == "loc" else None
                    if d is not None and d.op == "icmp" and any(a[0] == "loc" and a[1] in cand for a in d.args) and any(lit(a) and abs(a[1].c) <= 64 for a in d.args): ok = True
            if ok: out.add(h)
        return out

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, name, goal, timeout=8.0, opts=None):
        """record an obligation (final pass); outside the final pass it is only assumed"""
        if not self.final: return True
        r = self.try_prove(st.facts, goal, timeout, opts)
        self.obls.append(Obligation(kind, name, r.ok, r.how, None if r.ok else r.info, st.path))
        if not r.ok: self.log("FAILED %s: %s" % (kind, name), r.info)
        return r.ok

    def try_prove(self, facts, goal, timeout=8.0, opts=None):
        k = (facts, goal)
        r = self.pcache.get(k)
        if r is None:
            o = dict(self.contract.opts)
            if opts: o.update(opts)
            r = prove(list(facts), goal, timeout, o)
            self.pcache[k] = r
        return r

    def fail(self, st, kind, name, why):
        if self.final:
            self.obls.append(Obligation(kind, name, False, "unsupported", dict(reason=why), st.path))
            self.log("FAILED %s: %s: %s" % (kind, name, why))

    # ------------------------------------------------------------ decisions
    def decide(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if quick(st.facts, c): return True
        if quick(st.facts, not_(c)): return False
        if c.op in ("and", "or") and len(c.args) <= 3:
            for x in c.args:
                if not quick(st.facts, x) and not quick(st.facts, not_(x)): raise Fork(x)
        raise Fork(c)

    def known(self, st, c):
        return c is TRUE or (c is not FALSE and quick(st.facts, c))

    # ------------------------------------------------------------ memory
    def read_cell_or_arr(self, st, obj, r):
        k = obj.key(r)
        v = st.mem.get(k)
        if v is None:
            v = fresh_arr(obj.name, r.hi) if r.kind == "arr" else fresh(obj.name, 0, r.hi) if r.kind == "cell" else None
            st.mem[k] = v
        return v

    def note_write(self, st, key):
        for rec in st.loops:
            if key not in self.modset[rec.head]:
                self.modset[rec.head].add(key)
                self.cands.pop(rec.head, None)
                raise Restart()

    def locate(self, st, p, size, what):
        """region and (for arrays) element index of an access; emits the bounds obligation"""
        if not isinstance(p, Ptr): 
            self.oblige(st, "memory", what + " through a valid pointer", FALSE)
            raise Dead()
        if "$freed:" + p.obj.name in st.env: self.oblige(st, "memory", what + " of memory that is still allocated", FALSE)
        off = p.off
        for r in p.obj.regions:
            if r.kind != "arr":
                d = off - r.start
                if d.isconst and d.const == 0 and r.elt == size: return r, None
        arrs = [r for r in p.obj.regions if r.kind == "arr"]
        if not arrs: raise Unsupported("access %r size %d" % (p, size))
        cand = None
        if len(arrs) == 1: cand = arrs[0]
        else:
            for r in arrs:
                if quick(st.facts, and_(le(r.start, off), le(off + size, r.start + r.elt * r.count))):
                    cand = r; break
            if cand is None: cand = arrs[0]
        r = cand
        if r.elt != size: raise Unsupported("access size %d on %d-byte elements" % (size, r.elt))
        d = off - r.start
        if any(c % r.elt for m, c in d.t):
            raise Unsupported("unaligned access %r" % (p,))
        idx = mkpoly({m: c // r.elt for m, c in d.t})
        self.oblige(st, "memory", what + " in bounds", and_(le(0, idx), lt(idx, r.count)))
        st.add(le(0, idx), lt(idx, r.count))
        return r, idx

    def load(self, st, p, size, what="load"):
        r, idx = self.locate(st, p, size, what)
        if r.kind != "arr":
            v = self.read_cell_or_arr(st, p.obj, r)
            if v is None: raise Unsupported("load of uninitialised pointer")
            return v
        a = self.read_cell_or_arr(st, p.obj, r)
        while a.kind == "store":
            if self.decide(st, eq(idx, a.args[1])): return a.args[2]
            a = a.args[0]
        for f in st.facts:
            if f.op == "eqr" and f.args[0] is a and f.args[1].kind == "const" and quick(st.facts, and_(le(f.args[2], idx), lt(idx, f.args[3]))):
                return f.args[1].args[0]
        return sel(a, idx)

    def store(self, st, p, size, v, what="store"):
        r, idx = self.locate(st, p, size, what)
        if p.obj.ro: self.oblige(st, "memory", what + " to writable memory", FALSE)
        k = p.obj.key(r)
        self.note_write(st, k)
        if r.kind != "arr":
            st.mem[k] = v
            return
        a = self.read_cell_or_arr(st, p.obj, r)
        st.mem[k] = store(a, idx, v)

    def copymem(self, st, d, s, n, kind):
        """memcpy/memmove/memset; s is Ptr or an int byte value"""
        if n.isconst and n.const == 0: return
        if not isinstance(d, Ptr): raise Unsupported("mem intrinsic on %r" % (d,))
        done = P(0)
        # walk the destination regions covered by [d.off, d.off+n)
        cover = []
        for r in d.obj.regions:
            rs, re_ = r.start, r.start + r.elt * r.count
            a = d.off; b = d.off + n
            if self.known(st, le(re_, a)) or self.known(st, le(b, rs)): continue
            cover.append(r)
        if not cover: raise Unsupported("mem intrinsic outside regions %r len %r" % (d, n))
        for r in cover:
            rs, re_ = r.start, r.start + r.elt * r.count
            lo = rs if self.known(st, le(d.off, rs)) else d.off
            hi = re_ if self.known(st, le(re_, d.off + n)) else d.off + n
            k = d.obj.key(r)
            whole = lo is rs and hi is re_
            if isinstance(s, Ptr):
                so = s.off + (lo - d.off)
                # find source region with the same element size containing so
                sr = None
                for q in s.obj.regions:
                    if q.elt != r.elt or q.kind != r.kind: continue
                    if q.kind != "arr":
                        if (q.start - so).isconst and (q.start - so).const == 0: sr = q; break
                    elif len([x for x in s.obj.regions if x.kind == "arr" and x.elt == r.elt]) == 1 or self.known(st, and_(le(q.start, so), le(so + (hi - lo), q.start + q.elt * q.count))):
                        sr = q; break
                if sr is None: raise Unsupported("memcpy between different layouts %r <- %r" % (d, s))
                sv = self.read_cell_or_arr(st, s.obj, sr)
            self.note_write(st, k)
            if d.obj.ro: self.oblige(st, "memory", "copy to writable memory", FALSE)
            if r.kind != "arr":
                if isinstance(s, Ptr): st.mem[k] = sv
                else:
                    st.mem[k] = P(sum(s << (8 * i) for i in range(r.elt))) if r.kind == "cell" else NULL
                continue
            e = r.elt

            def eidx(p):
                if any(c % e for m, c in p.t): raise Unsupported("unaligned copy")
                return mkpoly({m: c // e for m, c in p.t})
            dl, dh = eidx(lo - rs), eidx(hi - rs)
            self.oblige(st, "memory", kind + " destination in bounds", and_(le(0, dl), le(dh, r.count)))
            old = self.read_cell_or_arr(st, d.obj, r)
            if isinstance(s, Ptr):
                sl = eidx(so - sr.start)
                if not (sl.isconst and sl.const == 0 and (dh - dl - sr.count).isconst and (dh - dl - sr.count).const == 0):
                    self.oblige(st, "memory", kind + " source in bounds", and_(le(0, sl), le(sl + (dh - dl), sr.count)))
                if whole and sl.isconst and sl.const == 0:
                    if sr.hi == r.hi: st.mem[k] = sv
                    continue
                src, sh = sv, sl - dl
            else:
                src, sh = aconst(sum(s << (8 * i) for i in range(e)), r.hi), P(0)
                if whole:
                    st.mem[k] = src
                    continue
            ln = dh - dl
            if ln.isconst and 0 <= ln.const <= 8:
                na = old
                for i in range(ln.const):
                    na = store(na, dl + i, sel(src, dl + i + sh))
                st.mem[k] = na
                continue
            na = fresh_arr(d.obj.name, r.hi)
            st.add(eqr(na, old, 0, dl), eqr(na, src, dl, dh, sh), eqr(na, old, dh, r.count))
            st.mem[k] = na

    # ------------------------------------------------------------ values
    def val(self, st, v, ty=None):
        k = v[0]
        if k == "loc":
            if v[1] not in st.env: raise Unsupported("undefined %s" % v[1])
            return st.env[v[1]]
        if k == "int":
            if ty is not None and ty[0] == "int" and ty[1] == 1:
                return boolc(v[1].c & 1)
            p = aff(v[1], self.cfg)
            if ty is not None and ty[0] == "int" and p.isconst: p = P(p.const % 2 ** ty[1])
            elif p.lo is not None and p.lo < 0: 
                # literal such as 4*N-5: nonnegative in the domain of N
                if not quick((), ge(p, 0)): p = p + 2 ** ty[1] if quick((), lt(p, 0)) else p
            return p
        if k == "null": return NULL
        if k == "zero":
            t = resolve(ty, self.types)
            if t[0] == "int": return P(0) if t[1] > 1 else FALSE
            if t[0] == "struct": return Agg([self.val(st, ("zero",), f) for f in t[1]])
        if k == "undef":
            t = resolve(ty, self.types)
            if t[0] == "int":
                if t[1] == 1: return bvar(fresh_name("undef"))
                return fresh("undef", 0, 2 ** t[1] - 1)
            if t[0] == "struct": return Agg([self.val(st, ("undef",), f) for f in t[1]])
            return NULL
        if k == "glob": return self.glob(st, v[1])
        if k == "cgep":
            b = self.val(st, v[2], ("ptr",))
            return self.gep(st, b, v[1], v[3])
        if k == "agg":
            t = resolve(ty, self.types)
            return Agg([self.val(st, x, f) for x, f in zip(v[1], t[1])])
        raise Unsupported("operand %r" % (v,))

    def glob(self, st, name):
        l = self.mod.globals.get(name)
        if name in self.mod.funcs or name in self.mod.decls: return FnPtr(name)
        if l is None: raise Unsupported("global " + name)
        o = self.globs.get(name)
        if o is None:
            p = ir.P(l[2:], self.types)
            p.attrs()
            isconst = "constant" in [x for x in l[2:8] if isinstance(x, str)]
            while p.peek() in ("comdat", "thread_local"): p.next()
            ty = p.type()
            o = Obj("@" + name, layout(ty, self.types, self.cfg), ro=isconst)
            self.globs[name] = o
            self.globinit[name] = (ty, p)
            if isconst:
                try:
                    init = p.value(ty)
                except Exception:
                    init = None
                t = resolve(ty, self.types)
                if init and init[0] == "str" and t[0] == "arr":
                    s = init[1]
                    s = s[s.index('"') + 1:-1]
                    bs = []
                    i = 0
                    while i < len(s):
                        if s[i] == "\\":
                            bs.append(int(s[i + 1:i + 3], 16)); i += 3
                        else:
                            bs.append(ord(s[i])); i += 1
                    self.globval[(o.name, 0)] = alit(bs, 255)
                elif init and init[0] == "zero":
                    for r in o.regions:
                        self.globval[(o.name, r.idx)] = aconst(0, r.hi) if r.kind == "arr" else P(0)
                elif init and init[0] == "agg" and t[0] == "arr" and all(x[0] == "int" for x in init[1]):
                    self.globval[(o.name, 0)] = alit([x[1].c % 2 ** (8 * o.regions[0].elt) for x in init[1]], o.regions[0].hi)
        for r in o.regions:
            k = (o.name, r.idx)
            if k in self.globval and k not in st.mem: st.mem[k] = self.globval[k]
        return Ptr(o, 0)

    def gep(self, st, b, sty, idx):
        if not isinstance(b, Ptr): raise Unsupported("gep on %r" % (b,))
        off = b.off
        ty = sty
        for n, (it, iv) in enumerate(idx):
            i = self.val(st, iv, it) if not isinstance(iv, Poly) else iv
            if n == 0:
                s, _ = sizeof(ty, self.types, self.cfg)
                i = self.signed_idx(st, i, it[1])
                off = off + s * i
            else:
                t = resolve(ty, self.types)
                if t[0] == "arr":
                    s, _ = sizeof(t[2], self.types, self.cfg)
                    i = self.signed_idx(st, i, it[1])
                    off = off + s * i
                    ty = t[2]
                elif t[0] == "struct":
                    o = P(0)
                    for j, f in enumerate(t[1]):
                        s, a = sizeof(f, self.types, self.cfg)
                        o = align(o, a)
                        if j == i.const: break
                        o = o + s
                    off = off + o
                    ty = f
                else: raise Unsupported("gep into %r" % (t,))
        return Ptr(b.obj, off)

    def signed_idx(self, st, i, w):
        if i.hi is not None and i.hi < 2 ** (w - 1): return i
        return self.sgn(st, i, w)

    def sgn(self, st, p, w):
        h = 2 ** (w - 1)
        if p.lo is not None and p.hi is not None:
            if p.lo >= 0 and p.hi < h: return p
            if p.lo >= h and p.hi < 2 * h: return p - 2 * h
        if self.known(st, lt(p, h)): return p
        if self.known(st, ge(p, h)): return p - 2 * h
        return p - 2 * h * div(p, h)

    def wrap(self, st, r, w, hint=None):
        """r as an unsigned w-bit value"""
        m = 2 ** w
        if r.lo is not None and r.lo >= 0 and r.hi is not None and r.hi < m: return r
        if self.known(st, and_(ge(r, 0), lt(r, m))): return r
        for k in (1, -1):
            q = r - k * m
            if (q.hi is not None and q.hi < 0) or (q.lo is not None and q.lo >= m): continue
            if self.known(st, and_(ge(q, 0), lt(q, m))): return q
        return mod(r, m)

    def wrap1(self, st, r, w):
        """r wraps at most once: case split when undecided"""
        m = 2 ** w
        if r.lo is None or r.hi is None or r.lo < -m or r.hi >= 2 * m: return self.wrap(st, r, w)
        if r.hi >= m and not self.decide(st, lt(r, m)): return r - m
        if r.lo < 0 and not self.decide(st, ge(r, 0)): return r + m
        return r

    def constof(self, st, p, lim):
        """value of p if the path fixes it; otherwise fork over 0..lim-1"""
        if p.isconst: return p.const
        co = smt.Coll()
        fs = smt.flatten(st.facts)
        for f in fs: co.bool(f)
        co.poly(p)
        done = set(); ax = []
        while True:
            a = smt.basic_axioms(co, done)
            if not a: break
            ax += a
        rr, s = smt.zcheck([smt.zbool(f) for f in fs] + ax, 2.0)
        if rr == smt.z3.unsat: raise Dead()
        if rr == smt.z3.sat:
            try:
                v = s.model().eval(smt.zpoly(p), model_completion=True).as_long()
                if 0 <= v and self.known(st, eq(p, v)): return v
            except Exception:
                pass
        raise ForkEnum([eq(p, k) for k in range(lim)])

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, i):
        op, w = i.op, i.ty[1] if i.ty[0] == "int" else None
        if w is None: raise Unsupported(op + " on " + repr(i.ty))
        a, b = self.val(st, i.args[0], i.ty), self.val(st, i.args[1], i.ty)
        if w == 1:
            if op == "and": return and_(a, b)
            if op == "or": return or_(a, b)
            if op == "xor":
                if b is TRUE: return not_(a)
                if a is TRUE: return not_(b)
                return or_(and_(a, not_(b)), and_(not_(a), b))
            raise Unsupported("i1 " + op)
        m = 2 ** w
        if "nsw" in (i.x or ()) and op in ("add", "sub", "mul"):
            x, y = self.sgn(st, a, w), self.sgn(st, b, w)
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            self.oblige(st, "overflow", "signed %s does not overflow" % op, and_(le(-(m // 2), r), lt(r, m // 2)))
            st.add(le(-(m // 2), r), lt(r, m // 2))
        if op == "add":
            if b.isconst and b.const >= m // 2: return self.wrap1(st, a + (b.const - m), w)
            return self.wrap1(st, a + b, w)
        if op == "sub": return self.wrap1(st, a - b, w)
        if op == "mul":
            if a.isconst and a.const > m // 2: return self.wrap(st, b * (a.const - m), w)
            if b.isconst and b.const > m // 2: return self.wrap(st, a * (b.const - m), w)
            r = a * b
            if not a.isconst and not b.isconst and (r.lo is None or r.lo < 0 or r.hi is None or r.hi >= m):
                bd = []
                for x in (a, b):
                    h = x.hi if x.hi is not None and x.hi < m else m - 1
                    for c in (2 ** 8 - 1, 2 ** 16 - 1, 2 ** 32 - 1):
                        if c < h and self.known(st, le(x, c)): h = c; break
                    bd.append(h)
                st.add(ge(r, 0), le(r, bd[0] * bd[1]))      # product of two non-negative bounded integers
                st.add(le(r, bd[1] * a), le(r, bd[0] * b))
            return self.wrap(st, r, w)
        if op in ("udiv", "urem"):
            self.oblige(st, "division", "divisor is not zero", ge(b, 1))
            st.add(ge(b, 1))
            if b.isconst: return div(a, b.const) if op == "udiv" else mod(a, b.const)
            q = fn("udiv", a, b); r = fn("urem", a, b)
            st.add(eq(a, q * b + r), ge(r, 0), lt(r, b), ge(q, 0), le(q, a))
            return q if op == "udiv" else r
        if op in ("sdiv", "srem"):
            self.oblige(st, "division", "divisor is not zero", ne(b, 0))
            if self.known(st, lt(a, m // 2)) and b.isconst and 0 < b.const < m // 2:
                return div(a, b.const) if op == "sdiv" else mod(a, b.const)
            raise Unsupported(op)
        if op in ("shl", "lshr", "ashr"):
            self.oblige(st, "shift", "shift amount below the width", lt(b, w))
            st.add(lt(b, w))
            k = self.constof(st, b, w)
            if op == "shl":
                if "nsw" in (i.x or ()):
                    pass
                return self.wrap(st, a * 2 ** k, w)
            if op == "lshr": return div(a, 2 ** k)
            s = self.sgn(st, a, w)
            return self.wrap(st, div(s, 2 ** k), w)
        if op == "and": return self.bitand(st, a, b, w)
        if op == "or": return self.bitor(st, a, b, w)
        if op == "xor":
            if b.isconst and b.const == m - 1: return P(m - 1) - a
            if a.isconst and a.const == m - 1: return P(m - 1) - b
            if a is b: return P(0)
            if b.isconst and b.const == 0: return a
            if a.isconst and a.const == 0: return b
            x, y = (a, b) if a.id <= b.id else (b, a)
            if b.isconst: return a + P(b.const) - 2 * self.bitand(st, a, b, w)
            return mkxor(x, y)
        raise Unsupported(op)

    def runs(self, c):
        out = []
        j = 0
        while c >> j:
            if (c >> j) & 1:
                k = j
                while (c >> k) & 1: k += 1
                out.append((j, k))
                j = k
            else: j += 1
        return out

    def bitand(self, st, a, b, w):
        if a.isconst and not b.isconst: a, b = b, a
        if b.isconst:
            if a.isconst: return P(a.const & b.const)
            r = P(0)
            rs = self.runs(b.const)
            if len(rs) > 6: return mkand(a, b)
            for j, k in rs:
                t = div(a, 2 ** j)
                if k < w: t = mod(t, 2 ** (k - j))
                elif a.hi is None or a.hi >= 2 ** w: t = mod(t, 2 ** (k - j))
                r = r + t * 2 ** j
            return r
        if a is b: return a
        return mkand(a, b)

    def lowzeros(self, p):
        k = 64
        for m, c in p.t:
            z = 0
            while z < 64 and c % 2 ** (z + 1) == 0: z += 1
            k = min(k, z)
        return k

    def bitor(self, st, a, b, w):
        if a.isconst and not b.isconst: a, b = b, a
        if a.isconst and b.isconst: return P(a.const | b.const)
        if b.isconst and b.const == 0: return a
        for x, y in ((a, b), (b, a)):
            k = self.lowzeros(x)
            if k and self.known(st, lt(y, 2 ** k)): return x + y
        for x, y in ((a, b), (b, a)):
            k = self.lowzeros(y)
            if k and k < w and y.hi is not None:
                n = max(1, y.hi.bit_length() - k)
                if k + n <= w and self.known(st, eq(mod(div(x, 2 ** k), 2 ** n), 0)): return x + y
        if b.isconst and len(self.runs(b.const)) <= 6:
            return a + b.const - self.bitand(st, a, b, w)
        if a is b: return a
        return mkor(a, b)

    def cmp(self, st, i):
        ty = resolve(i.ty, self.types)
        a, b = self.val(st, i.args[0], i.ty), self.val(st, i.args[1], i.ty)
        p = i.x
        if ty[0] == "ptr":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj:
                    a, b = a.off, b.off
                    if p == "eq": return eq(a, b)
                    if p == "ne": return ne(a, b)
                    return {"ult": lt(a, b), "ule": le(a, b), "ugt": gt(a, b), "uge": ge(a, b)}[p]
                if p in ("eq", "ne"): return boolc(p == "ne")
                raise Unsupported("pointer comparison")
            same = a is b
            return boolc(same if p == "eq" else not same)
        if ty[1] == 1:
            r = iff(a, b)
            return r if p == "eq" else not_(r)
        w = ty[1]
        if p[0] == "s":
            a, b = self.sgn(st, a, w), self.sgn(st, b, w)
        return {"eq": eq, "ne": ne, "ult": lt, "ule": le, "ugt": gt, "uge": ge, "slt": lt, "sle": le, "sgt": gt, "sge": ge}[p](a, b)

    # ------------------------------------------------------------ execution
    def discover(self):
        """find what each loop writes before invariants are generated (saves regenerating them; changes nothing else)"""
        self.discovering = time.time() + 4
        try: self.run_pass()
        except Unsupported: pass
        self.discovering = None
        self.cands, self.meas, self.linfo, self.failed_cands, self.failed_meas = {}, {}, {}, {}, {}

    def run_pass(self):
        """one pass over all paths with the current invariant candidates"""
        while True:
            if self.discovering and time.time() > self.discovering: return
            try:
                self.obls = []
                self.npaths = 0
                self.nret = 0
                self.failed_cands = {}
                self.redo = False
                self.purecalls = {}
                self.globs, self.globinit, self.globval = {}, {}, {}
                T_fresh_reset()
                st0 = self.contract.setup(self)
                self.entry_mem = dict(st0.mem)
                work = [(st0, self.fn.entry, None, 0)]
                while work:
                    self.npaths += 1
                    if self.discovering and time.time() > self.discovering: return
                    if self.npaths > self.maxpaths:
                        self.fail(st0, "extraction", "path budget", "too many paths")
                        break
                    st, blk, prev, pc = work.pop()
                    self.run_path(st, blk, prev, pc, work)
                return
            except Restart:
                continue

    def run_path(self, st, blk, prev, pc, work):
        f = self.fn
        try:
            while True:
                ins = f.blocks[blk]
                if pc == 0:
                    # leaving loops
                    while st.loops and blk not in st.loops[-1].body: st.loops = st.loops[:-1]
                    nphi = 0
                    while nphi < len(ins) and ins[nphi].op == "phi": nphi += 1
                    newv = {}
                    for i in ins[:nphi]:
                        for v, lab in i.x:
                            if lab == prev: newv[i.res] = self.val(st, v, i.ty); break
                        else: raise Unsupported("phi without edge")
                    if blk in self.static:
                        st.trips = dict(st.trips)
                        n = st.trips[blk] = (st.trips.get(blk, 0) + 1) if prev in self.loops[blk] else 1
                        if n > 70: raise Unsupported("constant-trip loop does not end")
                        for k, v in newv.items(): st.env[k] = v
                    elif blk in self.loops:
                        if st.loops and st.loops[-1].head == blk:
                            self.back_edge(st, blk, newv)
                            return
                        self.enter_loop(st, blk, ins[:nphi], newv)
                    else:
                        for k, v in newv.items(): st.env[k] = v
                    pc = nphi
                i = ins[pc]
                saved = st.copy() if i.op in ("store", "call", "alloca") else st
                try:
                    nxt = self.step(st, i)
                except Fork as e:
                    s2 = saved.copy()
                    try:
                        s2.add(not_(e.cond)); s2.path = s2.path + ("!" + repr(e.cond)[:120],)
                        work.append((s2, blk, prev, pc))
                    except Dead: pass
                    saved.add(e.cond); saved.path = saved.path + (repr(e.cond)[:120],)
                    st = saved
                    self.npaths += 1
                    continue
                except ForkEnum as e:
                    for c in e.conds:
                        s2 = saved.copy()
                        try:
                            s2.add(c); s2.path = s2.path + (repr(c)[:120],)
                            work.append((s2, blk, prev, pc))
                        except Dead: pass
                    return
                if nxt is None:
                    pc += 1
                elif nxt == "end":
                    return
                else:
                    prev, blk, pc = blk, nxt, 0
        except Dead:
            return
        except Unsupported as e:
            self.fail(st, "extraction", "construct within the verifier's reach", str(e) + " in " + self.fn.demangled[:80])
            return
        except Undefined as e:
            self.fail(st, "extraction", "construct within the verifier's reach", "undefined term in " + self.fn.demangled[:80])
            return

    def view(self, st, head, phis, pre):
        vals = {k: v for k, v in st.env.items()}
        lv = LoopView(self, st, phis, vals)
        lv.pre = pre
        lv.init = pre["__init__"]
        return lv

    def enter_loop(self, st, head, phis, newv):
        if head not in self.linfo or head not in self.cands:
            li = LoopInfo(); li.head = head
            li.pphis = {}
            for i in phis:
                if i.ty[0] == "int": li.phis[i.res] = i.ty[1]
                elif i.ty[0] == "ptr" and isinstance(newv[i.res], Ptr): li.pphis[i.res] = newv[i.res]
            li.inits = dict(newv)
            for k, v in st.env.items():
                if isinstance(v, Poly): li.outer[k] = v
            li.ptrs = {k: v for k, v in st.env.items() if isinstance(v, Ptr)}
            for k, v in list(st.mem.items()):
                pass
            self.linfo[head] = li
        li = self.linfo[head]
        # objects whose lifetime starts inside the loop are not live at its head
        dead = {"." + i.args[1][1][1] for b in self.loops[head] for i in self.fn.blocks[b]
                if i.op == "call" and i.x[0] == "glob" and i.x[1].startswith("llvm.lifetime.start") and i.args[1][1][0] in ("ssa", "loc")}
        li.live = {k: v for k, v in st.mem.items() if k[0] not in dead}
        li.mod = self.modset[head]
        if head not in self.cands and self.discovering: self.cands[head], self.meas[head] = [], []
        if head not in self.cands:
            self.cands[head], self.meas[head] = self.contract.candidates(self, li)
            self.failed_meas[head] = set()
            if len(self.cands[head]) > 4 and self.contract.safety != "light":
                from . import conc
                n0 = len(self.cands[head])
                keep, badm = conc.filter_cands(self, head, self.cands[head], self.meas[head])
                self.failed_meas[head] = badm
                if self.contract.debug:
                    print("   %s: %d of %d candidates after %d concrete runs %s" % (head, len(keep), n0, self.conc_runs, getattr(self, "conc_err", "")))
                    for d, w in self.conc_why.items():
                        if self.contract.debug == 2: print("      conc drop", d, w)
                self.cands[head] = [x for n, x in enumerate(self.cands[head]) if n in keep]
            raise Restart()
        pre = dict(st.mem)
        for k, v in list(newv.items()):
            if isinstance(v, Ptr): newv[k + ".idx"] = P(0)
        pre["__init__"] = dict(newv)
        lv = self.view(st, head, newv, pre)
        self.check_cands(st, head, lv, "init")
        # havoc
        rec = LoopRec()
        rec.head, rec.body = head, self.loops[head]
        hv = {}
        for i in phis:
            if i.ty[0] == "int":
                hv[i.res] = bvar(fresh_name(i.res)) if i.ty[1] == 1 else fresh(i.res, 0, 2 ** i.ty[1] - 1)
            elif i.ty[0] == "ptr":
                b = newv[i.res]
                if not isinstance(b, Ptr): raise Unsupported("pointer phi")
                # pointer into the same object: offset moves in element steps
                es = max(r.elt for r in b.obj.regions)
                k = fresh(i.res + ".idx", -2**62, 2**62)
                hv[i.res] = Ptr(b.obj, b.off + es * k)
                hv[i.res + ".idx"] = k
            else: raise Unsupported("loop phi of type %r" % (i.ty,))
        for k, v in hv.items(): st.env[k] = v
        for key in sorted(self.modset[head], key=repr):
            old = st.mem.get(key)
            if isinstance(old, Arr): st.mem[key] = fresh_arr(key[0], old.hi)
            elif isinstance(old, Poly) or old is None:
                r = self.region_of(st, key)
                st.mem[key] = (fresh_arr(key[0], r.hi) if r.kind == "arr" else fresh(key[0], 0, r.hi))
            else: raise Unsupported("havoc of pointer cell")
        rec.phis = hv
        rec.pre = pre
        lv = self.view(st, head, hv, pre)
        for d, g in self.cands[head]:
            try: b = g(lv)
            except Undefined: continue
            st.add(b)
        rec.meas = []
        for d, g in self.meas[head]:
            try: rec.meas.append(g(lv))
            except Undefined: rec.meas.append(None)
        st.loops = st.loops + (rec,)

    def region_of(self, st, key):
        o = self.objs.get(key[0]) or self.globs.get(key[0][1:])
        return o.regions[key[1]]

    def check_cands(self, st, head, lv, what):
        fc = self.failed_cands.setdefault(head, set())
        for n, (d, g) in enumerate(self.cands[head]):
            if n in fc: continue
            try: b = g(lv)
            except Undefined: b = FALSE
            r = self.try_prove(st.facts, b, self.contract.opts.get("inv", self.contract.inv_timeout))
            if self.final:
                self.obls.append(Obligation("invariant", "%s: %s [%s]" % (what, d, head), r.ok, r.how, r.info, st.path))
            if not r.ok:
                fc.add(n)
                if self.contract.debug: print("   drop", what, head, d, "|", r.info and (r.info.get("goal"), r.info.get("result"), r.info.get("facts") if self.contract.debug == 3 else ""))

    def back_edge(self, st, head, newv):
        rec = st.loops[-1]
        if not quick(st.facts, FALSE):
            for k in list(newv):
                v = newv[k]
                if isinstance(v, Ptr):
                    h = rec.phis[k]
                    if v.obj is not h.obj: raise Unsupported("pointer phi changes object")
                    es = max(r.elt for r in v.obj.regions)
                    d = v.off - (h.off - es * rec.phis[k + ".idx"])
                    if any(c % es for m, c in d.t): raise Unsupported("pointer step")
                    newv[k + ".idx"] = mkpoly({m: c // es for m, c in d.t})
            lv = self.view(st, head, newv, rec.pre)
            for k, v in newv.items(): lv.phis[k] = v
            self.check_cands(st, head, lv, "preserved")
            fm = self.failed_meas.setdefault(head, set())
            for n, (d, g) in enumerate(self.meas[head]):
                if n in fm: continue
                if n != min([k for k in range(len(self.meas[head])) if k not in fm]): continue
                m0 = rec.meas[n]
                try: m1 = g(lv)
                except Undefined: m1 = None
                ok = False
                if m0 is not None and m1 is not None:
                    r = self.try_prove(st.facts, and_(ge(m0, 0), lt(m1, m0)), self.contract.inv_timeout)
                    ok = r.ok
                if not ok:
                    fm.add(n)
                    self.redo = True

    def step(self, st, i):
        op = i.op
        if op in ir.BIN:
            st.env[i.res] = self.binop(st, i)
        elif op == "icmp":
            st.env[i.res] = self.cmp(st, i)
        elif op == "load":
            ty = resolve(i.ty, self.types)
            p = self.val(st, i.args[0])
            if ty[0] == "ptr": st.env[i.res] = self.load(st, p, 8)
            elif ty[0] == "int":
                v = self.load(st, p, max(1, ty[1] // 8))
                if ty[1] == 1: v = eq(mod(v, 2), 1)
                st.env[i.res] = v
            else: raise Unsupported("load %r" % (ty,))
        elif op == "store":
            ty = resolve(i.ty, self.types)
            v = self.val(st, i.args[0], i.ty)
            p = self.val(st, i.args[1])
            if ty[0] == "ptr": self.store(st, p, 8, v)
            elif ty[0] == "int":
                if ty[1] == 1: v = P(1) if self.decide(st, v) else P(0)
                self.store(st, p, max(1, ty[1] // 8), v)
            else: raise Unsupported("store %r" % (ty,))
        elif op == "getelementptr":
            st.env[i.res] = self.gep(st, self.val(st, i.args[0]), i.ty, i.x)
        elif op in ir.CASTS:
            st.env[i.res] = self.cast(st, i)
        elif op == "select":
            c = self.val(st, i.args[0], ("int", 1))
            ty = resolve(i.ty, self.types)
            a, b = self.val(st, i.args[1], i.ty), self.val(st, i.args[2], i.ty)
            if ty == ("int", 1): st.env[i.res] = or_(and_(c, a), and_(not_(c), b))
            elif a is b: st.env[i.res] = a
            else: st.env[i.res] = a if self.decide(st, c) else b
        elif op == "br":
            if len(i.x) == 1: return i.x[0]
            c = self.val(st, i.args[0], ("int", 1))
            return i.x[0] if self.decide(st, c) else i.x[1]
        elif op == "switch":
            v = self.val(st, i.args[0], i.ty)
            w = i.ty[1]
            for cv, lab in i.x[1]:
                if w == 1:
                    t = v if (cv == "true" or (isinstance(cv, Aff) and cv.c & 1)) else not_(v)
                    if self.decide(st, t): return lab
                else:
                    if self.decide(st, eq(v, cv.c % 2 ** w)): return lab
            return i.x[0]
        elif op == "alloca":
            if i.res not in self.objs_by_ssa:
                o = Obj("%s.%s" % (self.fn.name[:0], i.res), layout(i.ty, self.types, self.cfg))
                self.objs_by_ssa[i.res] = o
                self.objs[o.name] = o
            o = self.objs_by_ssa[i.res]
            for r in o.regions:
                if r.kind == "arr": st.mem[o.key(r)] = fresh_arr(o.name, r.hi)
                elif r.kind == "cell": st.mem[o.key(r)] = fresh(o.name, 0, r.hi)
                else: st.mem[o.key(r)] = NULL
            st.env[i.res] = Ptr(o, 0)
        elif op == "extractvalue":
            a = self.val(st, i.args[0], i.ty)
            for k in i.x: a = a.v[k]
            st.env[i.res] = a
        elif op == "insertvalue":
            a = self.val(st, i.args[0], i.ty)
            idx, t2 = i.x
            b = self.val(st, i.args[1], t2)
            if len(idx) != 1: raise Unsupported("nested insertvalue")
            v = list(a.v); v[idx[0]] = b
            st.env[i.res] = Agg(v)
        elif op == "call":
            return self.call(st, i)
        elif op == "ret":
            v = self.val(st, i.args[0], i.ty) if i.args else None
            self.nret += 1
            for k in list(st.env):
                if k.startswith("$heap:") and "$freed:" + k[6:] not in st.env: self.oblige(st, "memory", "heap memory is released", FALSE)
            self.contract.at_return(self, st, v)
            return "end"
        elif op == "unreachable":
            self.oblige(st, "unreachable", "unreachable code is not reached", FALSE)
            return "end"
        else:
            raise Unsupported(i.text[:120])
        return None

    def cast(self, st, i):
        op = i.op
        src = resolve(i.x if i.x else i.ty, self.types)
        dst = resolve(i.ty, self.types)
        a = self.val(st, i.args[0], i.x if i.x else i.ty)
        if op == "freeze": return a
        if op in ("zext", "sext"):
            if src[1] == 1:
                t = self.decide(st, a)
                if op == "zext": return P(1 if t else 0)
                return P(2 ** dst[1] - 1 if t else 0)
            if op == "zext": return a
            s = self.sgn(st, a, src[1])
            if s.lo is not None and s.lo >= 0: return s
            if s is a: return a
            if s.hi is not None and s.hi < 0: return s + 2 ** dst[1]
            if self.known(st, ge(s, 0)): return s
            if self.known(st, lt(s, 0)): return s + 2 ** dst[1]
            return a + (2 ** dst[1] - 2 ** src[1]) * div(a, 2 ** (src[1] - 1))
        if op == "trunc":
            if dst[1] == 1: return eq(mod(a, 2), 1)
            return self.wrap(st, a, dst[1])
        if op == "bitcast": return a
        if op == "ptrtoint" and isinstance(a, Ptr):
            return var("addr$" + a.obj.name, 1, 2**62) + a.off
        raise Unsupported(op)

    def call(self, st, i):
        c = i.x
        if c[0] != "glob": raise Unsupported("indirect call")
        name = c[1]
        if name == "vt_pin": return None
        if name.startswith("llvm."):
            n = name.split(".")[1]
            if n in ("lifetime", "dbg", "experimental", "invariant", "donothing", "var", "stacksave", "stackrestore"): return None
            if n == "assume":
                b = self.val(st, i.args[0][1], ("int", 1))
                self.oblige(st, "assume", "compiler assumption holds", b)
                return None
            if n in ("memcpy", "memmove"):
                d, s, ln = [self.val(st, a[1], a[0]) for a in i.args[:3]]
                self.copymem(st, d, s, ln, n)
                return None
            if n == "memset":
                d, v, ln = [self.val(st, a[1], a[0]) for a in i.args[:3]]
                if not v.isconst: raise Unsupported("memset with a variable byte")
                self.copymem(st, d, v.const, ln, n)
                return None
            if n in ("umin", "umax", "smin", "smax"):
                w = i.ty[1]
                a, b = [self.val(st, x[1], x[0]) for x in i.args[:2]]
                if n[0] == "s": c1 = lt(self.sgn(st, a, w), self.sgn(st, b, w))
                else: c1 = lt(a, b)
                t = self.decide(st, c1)
                st.env[i.res] = (a if t else b) if n.endswith("min") else (b if t else a)
                return None
            if n == "expect":
                st.env[i.res] = self.val(st, i.args[0][1], i.args[0][0]); return None
            if n == "abs":
                a = self.sgn(st, self.val(st, i.args[0][1], i.args[0][0]), i.ty[1])
                st.env[i.res] = a if self.decide(st, ge(a, 0)) else self.wrap(st, -a, i.ty[1])
                return None
            if n in ("ctlz", "cttz", "ctpop", "bswap", "fshl", "fshr", "usub", "uadd", "umul"):
                return self.intrinsic(st, i, n)
            raise Unsupported("intrinsic " + name)
        if name == "__assert_fail":
            self.oblige(st, "assertion", "internal assertion holds", FALSE)
            return "end"
        if name in ("abort", "_ZSt9terminatev", "exit"):
            self.oblige(st, "termination", "no abnormal termination", FALSE)
            return "end"
        d = self.mod.demangled.get(name, name)
        for ct in self.contracts:
            if ct.matches(d, name):
                return ct.apply(self, st, i)
        if name in EXTERN:
            self.used.add("extern " + name)
            return EXTERN[name](self, st, i)
        raise Unsupported("call to " + d[:140])

    def intrinsic(self, st, i, n):
        w = i.ty[1] if i.ty[0] == "int" else None
        a = [self.val(st, x[1], x[0]) for x in i.args]
        if n in ("uadd", "usub", "umul") and i.ty[0] == "struct":
            w = i.ty[1][0][1]
            if ".sat" in i.x[1]: raise Unsupported(i.x[1])
            r = a[0] + a[1] if n == "uadd" else a[0] - a[1] if n == "usub" else a[0] * a[1]
            ov = or_(lt(r, 0), ge(r, 2 ** w))
            st.env[i.res] = Agg([self.wrap(st, r, w), ov])
            return None
        if n in ("ctlz", "cttz") and w is not None:
            # result k: exact characterisation by cases on k
            x = a[0]
            if n == "cttz": cs = [(and_(eq(mod(x, 2 ** k), 0), eq(mod(div(x, 2 ** k), 2), 1)), P(k)) for k in range(w)]
            else: cs = [(and_(ge(x, 2 ** (w - 1 - k)), lt(x, 2 ** (w - k))), P(k)) for k in range(w)]
            cs.append((eq(x, 0), P(w)))
            fs = set(smt.flatten(st.facts))
            for c, v in cs:
                if set(smt.flatten([c])) <= fs or c is TRUE:
                    st.env[i.res] = v
                    return None
            raise ForkEnum([c for c, v in cs])
        raise Unsupported("intrinsic " + n)


def mkand(a, b):
    if a.isconst and b.isconst: return P(a.const & b.const)
    for x, y in ((a, b), (b, a)):
        if x.isconst and x.const == 0: return P(0)
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return fn("and", a, b)


def mkor(a, b):
    if a.isconst and b.isconst: return P(a.const | b.const)
    for x, y in ((a, b), (b, a)):
        if x.isconst and x.const == 0: return y
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return fn("or", a, b)


def mkxor(a, b):
    if a.isconst and b.isconst: return P(a.const ^ b.const)
    for x, y in ((a, b), (b, a)):
        if x.isconst and x.const == 0: return y
    if a is b: return P(0)
    if a.id > b.id: a, b = b, a
    return fn("xor", a, b)


declare_fn("and", 0, 2**64 - 1)
declare_fn("or", 0, 2**64 - 1)
declare_fn("xor", 0, 2**64 - 1)
declare_fn("udiv", 0, 2**64 - 1)
declare_fn("urem", 0, 2**64 - 1)
FN_MK["and"] = mkand
FN_MK["or"] = mkor
FN_MK["xor"] = mkxor


def T_fresh_reset():
    from . import term
    term._fresh[0] = 0
