"""C13: numbers written into character buffers"""
from .units import unit
from .term import *
from .term import B_
from . import nat, cands as C
from .extern import extern, conc, args
from .exec import Unsupported, Ptr
from .conc import Stop
from .strs import *
from .strs import _nd
from .spec_unsigned import relcands, suffcands
from .spec_arith import DIVUSE, DIVLIB, divcands2
from .spec_signed import canon

A = ("snprintf and swprintf print the formats %x, %X, %08x, %08X as the C standard says, never write past the given size, and swprintf returns a negative number when the text does not fit",)
FORMATS = {"%x": (0, False), "%X": (0, True), "%08x": (8, False), "%08X": (8, True)}


def all_(lo, hi, body): return B_("all", P(lo), P(hi), body(P(QV)))


def fmt(ex, p):
    if not isinstance(p, Ptr) or p.off is not P(0): raise Unsupported("format that is not a literal")
    g = ex.globval.get((p.obj.name, 0))
    if g is None or g.kind != "lit": raise Unsupported("format that is not a literal")
    s = "".join(map(chr, g.args[0])).rstrip("\0")
    if s not in FORMATS: raise Unsupported("format " + s)
    return FORMATS[s]


def dest(d, w):
    if not isinstance(d, Ptr): raise Unsupported("print into an unknown buffer")
    rs = [r for r in d.obj.regions if r.kind == "arr" and r.elt == w]
    if not rs: raise Unsupported("print into a buffer of another type")
    r = rs[0]
    off = d.off - r.start
    if any(c % w for m, c in off.t): raise Unsupported("unaligned buffer")
    return r, mkpoly({m: c // w for m, c in off.t})


def printer(w):
    def f(ex, st, i):
        d, size, fm, v = args(ex, st, i)
        pad, up = fmt(ex, fm)
        r, k = dest(d, w)
        ex.oblige(st, "memory", "the printed text has its declared space in the buffer", and_(ge(k, 0), le(k + size, r.count)))
        st.add(ge(k, 0), le(k + size, r.count))
        key = d.obj.key(r)
        old = ex.read_cell_or_arr(st, d.obj, r)
        if pad: L = P(8)
        elif ex.decide(st, eq(v, 0)): L = P(1)
        else: L = nd(v, 16)
        fits = ex.decide(st, lt(L, size))
        new = fresh_arr(d.obj.name, r.hi)
        if fits:
            st.add(ge(L, 1), le(L, 8), eqr(new, old, 0, k), eq(sel(new, k + L), 0), eqr(new, old, k + L + 1, r.count))
            st.add(all_(0, L, lambda j: eq(sel(new, k + j), char(v, 16, L - 1 - j, up))))
            ret = L
        else:
            st.add(ge(L, 1), le(L, 8), eqr(new, old, 0, k), eqr(new, old, k + size, r.count))
            ret = L if w == 1 else fresh("failed", 2 ** 31, 2 ** 32 - 1)
        ex.note_write(st, key)
        st.mem[key] = new
        if i.res: st.env[i.res] = ret
    return f


def cprinter(w):
    def f(ex, st, i):
        d, size, fm, v = args(ex, st, i)
        pad, up = fmt(ex, fm)
        r, k = dest(d, w)
        if not (size.isconst and k.isconst and v.isconst): raise Stop()
        s = ("%08x" if pad else "%x") % v.const
        if up: s = s.upper()
        key = d.obj.key(r)
        l = list(ex.read_cell_or_arr(st, d.obj, r).args[0])
        n = size.const
        ok = len(s) < n
        if not ok and n: s = s[:n - 1]
        if n:
            for j, c in enumerate(s + "\0"):
                if k.const + j >= len(l): raise Stop()
                l[k.const + j] = ord(c)
        st.mem[key] = alit(l, r.hi)
        full = 8 if pad else max(1, _nd(v.const, 16))
        if i.res: st.env[i.res] = P(full if ok or w == 1 else 2 ** 32 - 1)
    return f


extern("snprintf", says=A[0])(printer(1))
extern("swprintf", says=A[0])(printer(4))
conc("snprintf")(cprinter(1))
conc("swprintf")(cprinter(4))


def gen(rng, ct, N, M):
    vals = {}
    base = ct.opts["base"]
    t = rng.random()
    if t < .1: v = 0
    elif t < .3: v = base ** rng.randrange(int(32 * N / math.log2(base)) + 1) + rng.choice([-1, 0, 1])
    elif t < .5: v = rng.randrange(base ** rng.randrange(1, 6))
    elif t < .8: v = rng.randrange(base ** rng.randrange(1, int(32 * N / math.log2(base)) + 1))
    else: v = nat.rnd_value(rng, N, [])
    v %= 2 ** (32 * N)
    vals["a"] = (0 if v == 0 else rng.choice([1, -1]), nat.to_limbs(v, N))
    need = max(1, _nd(v, base)) + 4
    n = rng.choice([0, 1, 2, 3, 4, 5, need - 4, need - 3, need - 2, need - 1, need, need + 1, need + 40, need - 5, rng.randrange(need + 2)])
    vals["n"] = n = max(0, n)
    vals["p"] = (None, [rng.randrange(256) for _ in range(n)])
    vals["sb"] = rng.random() < .5
    return vals


def outcands(ex, li):
    ct = ex.contract
    base, up = ct.opts["base"], ct.opts.get("up", False)
    out, meas = [], []
    ka = [k for k in C.regions(ex, li) if k[0] == "a"]
    kb = [k for k in C.regions(ex, li) if k[0] == "p"]
    if not ka or not kb: return out, meas
    ka, kb = ka[0], kb[0]
    X = lambda lv: V(lv.arr0(ka), lv.count(ka))
    ptrs = []
    for x, v in li.ptrs.items():
        if v.obj.name == "p" and v.off.isconst: ptrs.append(x)
    ptrs = ([p for p in ptrs if p == ptrs[0]] + ptrs[-3:])[:4] if ptrs else []
    ptrs = list(dict.fromkeys(ptrs))
    ph = C.intphis(li, 32)
    starts = [(o, lambda lv, o=o: lv[o]) for o in C.pathconsts(ex, li)[:3]] + [("0", lambda lv: P(0))]
    for B in ptrs:
        off = lambda lv, B=B: lv.elem(B)
        for x in ph:
            out.append(("%s+%s < room" % (B, x), lambda lv, x=x, off=off: lt(off(lv) + lv[x], lv.count(kb))))
            out.append(("%s+%s <= room" % (B, x), lambda lv, x=x, off=off: le(off(lv) + lv[x], lv.count(kb))))
            out.append(("text before %s+start of %s kept" % (B, x), lambda lv, x=x, off=off: eqr(lv.arr(kb), lv.arrL(kb), 0, off(lv) + lv.init[x])))
            out.append(("text from %s+%s kept" % (B, x), lambda lv, x=x, off=off: eqr(lv.arr(kb), lv.arrL(kb), off(lv) + lv[x], lv.count(kb))))
            if base != 16:
                out.append(("digits at %s+%s" % (B, x), lambda lv, x=x, off=off: forall(0, lv[x] - lv.init[x], lambda j: eq(sel(lv.arr(kb), off(lv) + lv.init[x] + j), char(X(lv), base, j)))))
                for sn, s in starts:
                    for d in C.outers(li)[:8]:
                        g = lambda lv, off=off, s=s: off(lv) + s(lv)
                        t = "%s+%s,%s,%s" % (B, sn, d, x)
                        out.append(("mirrored below " + t, lambda lv, g=g, d=d, x=x: forall(0, lv[x], lambda j: eq(sel(lv.arr(kb), g(lv) + j), sel(lv.arrL(kb), g(lv) + lv[d] - 1 - j)))))
                        out.append(("mirrored above " + t, lambda lv, g=g, d=d, x=x: forall(0, lv[x], lambda j: eq(sel(lv.arr(kb), g(lv) + lv[d] - 1 - j), sel(lv.arrL(kb), g(lv) + j)))))
                        out.append(("middle kept " + t, lambda lv, g=g, d=d, x=x: eqr(lv.arr(kb), lv.arrL(kb), g(lv) + lv[x], g(lv) + lv[d] - lv[x])))
                        out.append(("before kept " + t, lambda lv, g=g: eqr(lv.arr(kb), lv.arrL(kb), 0, g(lv))))
                        out.append(("after kept " + t, lambda lv, g=g, d=d: eqr(lv.arr(kb), lv.arrL(kb), g(lv) + lv[d], lv.count(kb))))
                        if sn == "0" and B == ptrs[0]:
                            out.append(("2*%s <= %s+1" % (x, d), lambda lv, d=d, x=x: le(2 * lv[x], lv[d] + 1)))
            else:
                for y in ph:
                    if y == x: continue
                    for sn, s in starts[:4]:
                        fits = lambda lv, off=off, s=s: le(off(lv) + s(lv) + nd(X(lv), 16) + 1, lv.count(kb))
                        t = "%s+%s,%s,%s" % (B, sn, x, y)
                        out.append(("hex position " + t, lambda lv, x=x, y=y, s=s, fits=fits: implies(fits(lv), eq(lv[x] - s(lv) + 8 * lv[y], nd(X(lv), 16)))))
                        out.append(("hex digits " + t, lambda lv, x=x, y=y, s=s, fits=fits, off=off: implies(fits(lv), forall(0, lv[x] - s(lv), lambda j: eq(sel(lv.arr(kb), off(lv) + s(lv) + j), char(X(lv), 16, nd(X(lv), 16) - 1 - j, up))))))
                        out.append(("before kept " + t, lambda lv, s=s, off=off: eqr(lv.arr(kb), lv.arrL(kb), 0, off(lv) + s(lv))))
    if base != 16:
        for x in ph:
            out.append(("%s digits" % x, lambda lv, x=x: le(lv[x] - lv.init[x], nd(X(lv), base))))
            for k in C.regions(ex, li):
                if k in li.mod and C.elt(ex, k) == 4:
                    out.append(("%s = rest after %s digits" % (k[0], x), lambda lv, k=k, x=x: eq(V(lv.arr(k), lv.count(k)), Q(X(lv), base, lv[x] - lv.init[x]))))
    return out, meas


def both(*fs):
    def f(ex, li):
        o, m = [], []
        for g in fs: a, b = g(ex, li); o += a; m += b
        return o, m
    return f


import math
LET = {2: 'b', 8: 'o', 16: 'x'}


def textpost(c, base, up, x, cond, off):
    """the text of x (prefix, digits, terminator) starts at buffer position off"""
    out = []
    t, n = c.n("p"), c.a("n")
    for pfx in (0, 2):
        w = c.a("sb") if pfx else not_(c.a("sb"))
        if base == 10:
            if pfx: continue
            w = TRUE
        w = and_(w, cond)
        tag = " (with prefix)" if pfx else ""
        k = P(off + pfx)
        L = nd(x, base)
        room = and_(w, ge(x, 1), ge(n, k + L + 1))
        S = lambda b, f: TRUE if b is FALSE else implies(b, f())
        out.append(("canonical digits" + tag, S(room, lambda: forall(0, L, lambda j: eq(sel(t, k + j), char(x, base, L - 1 - j, up))))))
        out.append(("terminated" + tag, S(room, lambda: eq(sel(t, k + L), 0))))
        z = and_(w, eq(x, 0), ge(n, k + 2))
        out.append(("zero is a single 0" + tag, S(z, lambda: and_(eq(sel(t, k), 48), eq(sel(t, k + 1), 0)))))
        if pfx: out.append(("prefix", S(or_(room, z), lambda: and_(eq(sel(t, k - 2), 48), eq(sel(t, k - 1), ord(LET[base]))))))
    return out


def upost(base, up): return lambda c: textpost(c, base, up, c.Vo("a"), TRUE, 0)


def spost(base, up):
    def f(c):
        x, s, n = c.Vo("a"), c.os("a"), c.a("n")
        neg = eq(s, 2 ** 32 - 1)
        out = [(a + " of a negative number", b) for a, b in textpost(c, base, up, x, neg, 1)] + textpost(c, base, up, x, not_(neg), 0)
        g = and_(neg, ge(n, 1))
        out.append(("a dash precedes a negative number", TRUE if g is FALSE else implies(g, eq(sel(c.n("p"), 0), 45))))
        return out
    return f


for w, ct in ((1, "char"), (4, "wchar_t")):
    for base, up in ((2, False), (8, False), (10, False), (16, False), (16, True)):
        t = "%d%s_%d" % (base, "u" if up else "", w)
        ps = [("p", "buf%d:n" % w), ("n", "i64"), ("sb", "i1")]
        kw = dict(mods=["p"], ret="i64", gen=gen, assumes=A)
        o = dict(base=base, up=up, vsplit=True, conc=2, inv=1.0) if base == 16 else dict(base=base, vsplit=True, vlow=True, conc=2)
        us = ["filled"] if base == 16 else ["filled", "divide", "ctor_u8"]
        unit("utext" + t, "std::size_t H(const U* a, %s* p, std::size_t n, bool sb) { return a->template getString<%d, %s>(p, n, sb); }" % (ct, base, "true" if up else "false"),
             [("a", "cU")] + ps, ["C13", "C23"], pre=lambda c: [le(c.a("n"), 2 ** 61)], post=upost(base, up), cands=both(outcands, relcands, suffcands), opts=o, uses=us, **kw)
        unit("stext" + t, "std::size_t H(const S* a, %s* p, std::size_t n, bool sb) { return a->template getString<%d, %s>(p, n, sb); }" % (ct, base, "true" if up else "false"),
             [("a", "cS")] + ps, ["C13", "C23"], pre=lambda c: [canon(c.os("a"), c.Vo("a")), le(c.a("n"), 2 ** 61)], post=spost(base, up), cands=both(outcands, relcands, suffcands), opts=o, uses=us, **kw)
