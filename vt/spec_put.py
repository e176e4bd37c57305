"""C14: numbers inserted into text streams"""
from .units import unit
from .term import *
from . import nat, cands as C
from .strs import *
from .strs import _nd
from .spec_unsigned import relcands, suffcands
from .spec_out import both
from .spec_signed import canon
from . import spec_out

A = ("text streams keep what is inserted in order: a character as it is, an unsigned number as printf's %x, %X, %08x, %08X prints it; dec, oct, hex, showbase, uppercase, right, fill and width as in vt/stub/iostream",) + spec_out.A
LET = {8: 'o', 16: 'x'}


def gen(rng, ct, N, M):
    v = spec_out.gen(rng, ct, N, M)
    n = 32 * N + 16 + rng.randrange(3)
    v["n"] = n
    v["p"] = (None, [rng.randrange(256) for _ in range(n)])
    return v


def putcands(ex, li):
    ct = ex.contract
    base, up = ct.opts["base"], ct.opts.get("up", False)
    out, meas = [], []
    ka = [k for k in C.regions(ex, li) if k[0] == "a"]
    kp = [k for k in C.regions(ex, li) if k[0] == "p"]
    if not ka or not kp: return out, meas
    ka, kp = ka[0], kp[0]
    X = lambda lv: V(lv.arr0(ka), lv.count(ka))
    ph = C.intphis(li, 32)
    L = lambda lv: nd(X(lv), base)
    starts = [("0", lambda lv: P(0))] + [(o, lambda lv, o=o: lv[o]) for o in C.pathconsts(ex, li)[::-1] if li.outer[o].const <= 3][:8]
    ow = C.elt(ex, kp)
    for x in ph:
        out.append(("%s < room" % x, lambda lv, x=x: lt(lv[x], lv.count(kp))))
        out.append(("text from %s kept" % x, lambda lv, x=x: eqr(lv.arr(kp), lv.arrL(kp), lv[x], lv.count(kp))))
        out.append(("text before start of %s kept" % x, lambda lv, x=x: eqr(lv.arr(kp), lv.arrL(kp), 0, lv.init[x])))
        out.append(("%s zero" % x, lambda lv, x=x: eq(lv[x], 0)))
        if base != 16:
            out.append(("%s digits" % x, lambda lv, x=x: le(lv[x], L(lv))))
            for k in C.regions(ex, li):
                if k in li.mod and C.elt(ex, k) == ow and k != kp:
                    out.append(("digits in %s up to %s" % (k[0], x), lambda lv, k=k, x=x: forall(0, lv[x], lambda j: eq(sel(lv.arr(k), j), char(X(lv), base, j)))))
                if k in li.mod and C.elt(ex, k) == 4:
                    out.append(("%s = rest after %s digits" % (k[0], x), lambda lv, k=k, x=x: eq(V(lv.arr(k), lv.count(k)), Q(X(lv), base, lv[x]))))
        for sn, s in starts:
            out.append(("%s within %s" % (x, sn), lambda lv, x=x, s=s: le(lv[x], L(lv) + s(lv))))
            out.append(("text from %s up to %s" % (sn, x), lambda lv, x=x, s=s: forall(0, lv[x] - s(lv), lambda j: eq(sel(lv.arr(kp), s(lv) + j), char(X(lv), base, L(lv) - 1 - j, up)))))
            out.append(("text before %s kept" % sn, lambda lv, s=s: eqr(lv.arr(kp), lv.arrL(kp), 0, s(lv))))
            for y in ph:
                if y == x: continue
                if base == 16: out.append(("%s+8*%s-%s digits" % (x, y, sn), lambda lv, x=x, y=y, s=s: eq(lv[x] + 8 * lv[y] - s(lv), L(lv))))
                else: out.append(("%s+%s-%s digits" % (x, y, sn), lambda lv, x=x, y=y, s=s: eq(lv[x] + lv[y] - s(lv), L(lv))))
        for y in ph:
            if y == x: continue
            out.append(("%s+8*%s < room" % (x, y), lambda lv, x=x, y=y: lt(lv[x] + 8 * lv[y], lv.count(kp))))
    return out, meas


def text(c, base, up, x, cond, off):
    """exactly the text of x is written from position off on"""
    out = []
    t = c.n("p")
    for pfx in (0, 2):
        if base == 10 and pfx: continue
        w = cond if base == 10 else and_(cond, c.a("sb") if pfx else not_(c.a("sb")))
        tag = " (with prefix)" if pfx else ""
        k = P(off + pfx)
        L = nd(x, base)
        S = lambda b, f: TRUE if b is FALSE else implies(b, f())
        nz = and_(w, ge(x, 1))
        out.append(("canonical digits" + tag, S(nz, lambda: forall(0, L, lambda j: eq(sel(t, k + j), char(x, base, L - 1 - j, up))))))
        out.append(("length" + tag, S(nz, lambda: eq(c.ret, k + L))))
        if pfx: out.append(("prefix", S(nz, lambda: and_(eq(sel(t, k - 2), 48), eq(sel(t, k - 1), ord(LET[base]))))))
        else: out.append(("zero is a single 0", S(and_(w, eq(x, 0)), lambda: and_(eq(sel(t, k), 48), eq(c.ret, 1)))))
    out.append(("nothing is written behind the text", S(and_(cond), lambda: eqr(t, c.o("p"), c.ret, c.a("n")))) if base != 16 else ("", TRUE))
    return [o for o in out if o[0]]


def upost(base, up): return lambda c: text(c, base, up, c.Vo("a"), TRUE, 0)


def spost(base, up):
    def f(c):
        x, s = c.Vo("a"), c.os("a")
        neg = eq(s, 2 ** 32 - 1)
        out = [(a + " of a negative number", b) for a, b in text(c, base, up, x, neg, 1)] + text(c, base, up, x, not_(neg), 0)
        out.append(("a dash precedes a negative number", TRUE if neg is FALSE else implies(neg, eq(sel(c.n("p"), 0), 45))))
        return out
    return f


FL = {10: "std::ios_base::dec", 8: "std::ios_base::oct", 16: "std::ios_base::hex | std::ios_base::left"}
for w, ct in ((1, "char"), (4, "wchar_t")):
    for base, up in ((8, False), (10, False), (16, False), (16, True)):
        t = "%d%s_%d" % (base, "u" if up else "", w)
        ps = [("p", "buf%d:n" % w), ("n", "i64"), ("sb", "i1")]
        kw = dict(mods=["p"], ret="i64", gen=gen, assumes=A, defs=("VT_STREAMS",), cands=both(putcands, relcands, suffcands), uses=[] if base == 16 else ["divide", "ctor_u32"])
        o = dict(base=base, up=up, vsplit=True, conc=2, inv=1.0) if base == 16 else dict(base=base, vsplit=True, vlow=True, conc=2)
        for sg, K in (("u", "U"), ("s", "S")):
            unit(sg + "put" + t, "std::size_t H(const %s* a, %s* p, std::size_t n, bool sb) { std::ios_base::fmtflags f = %s%s; if(sb) f = f | std::ios_base::showbase; vt_out<%s> os(p, n, f); os << *a; return os.vt_count(); }"
                 % (K, ct, FL[base], " | std::ios_base::uppercase" if up else "", ct),
                 [("a", "c" + K)] + ps, ["C14", "C23"], pre=lambda c, K=K: [ge(c.a("n"), 32 * c.N + 16), le(c.a("n"), 2 ** 61)] + ([canon(c.os("a"), c.Vo("a"))] if K == "S" else []),
                 post=(upost if K == "U" else spost)(base, up), opts=o, **kw)
