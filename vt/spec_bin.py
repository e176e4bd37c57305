"""C15: numbers written to and read from binary streams"""
from .units import unit
from .term import *
from . import nat, cands as C
from .spec_unsigned import relcands, suffcands

D = ("VT_STREAMS",)
A = ("std::istream::read and std::ostream::write move bytes in order and stop at the end of the stream, as in vt/stub/iostream (little endian host)",)


def gen(rng, ct, N, M):
    vals = {}
    for pn, kind in ct.params:
        if kind == "i1": vals[pn] = rng.random() < .5
        elif nat.isscalar(kind): vals[pn] = 0
        elif nat.kindof(kind)[0] in ("U", "S"): vals[pn] = (rng.choice([0, 1, -1]), [rng.choice([0, rng.getrandbits(32), rng.getrandbits(32)]) for _ in range(N)])
    n = rng.choice([0, 1, 2, N - 1, N, N + 1, 2 * N, rng.randrange(2 * N)])
    if ct.name == "roundtrip": n = max(n, N)
    vals["n"] = n
    vals["p"] = (None, [rng.getrandbits(32) for _ in range(n)])
    if "t" in vals:
        vals["t"] = rng.randrange(4)
        vals["v"] = rng.randrange(256 ** vals["t"])
    return vals


def all_(lo, hi, body):
    return forall(lo, hi, body)


def bincands(ex, li):
    out = []
    ks = C.regions(ex, li)
    ph = [(x, (lambda lv, x=x: lv[x])) for x in C.intphis(li, 32)] + [(x, (lambda lv, x=x: lv.elem(x[:-4]))) for x in C.ptridx(ex, li)]
    for k in ks:
        for q in ks:
            if k == q or C.elt(ex, k) != 4 or C.elt(ex, q) != 4 or k not in li.mod: continue
            for x, g in ph:
                t = "%s<-%s by %s" % (k[0], q[0], x)
                for y, h in ph + [("", None)]:
                    if y == x: continue
                    m = (lambda lv, g=g: g(lv)) if h is None else (lambda lv, g=g, h=h: h(lv))
                    out.append((t + " forward " + y, lambda lv, k=k, q=q, m=m: eqr(lv.arr(k), lv.arrL(q), 0, m(lv))))
                    out.append((t + " from the top of the source " + y, lambda lv, k=k, q=q, m=m: forall(0, m(lv), lambda j: eq(sel(lv.arr(k), j), sel(lv.arrL(q), lv.count(q) - 1 - j)))))
                    out.append((t + " from the top " + y, lambda lv, k=k, q=q, m=m: forall(0, m(lv), lambda j: eq(sel(lv.arr(k), lv.count(k) - 1 - j), sel(lv.arrL(q), j)))))
    for k in ks:
        if k not in li.mod: continue
        for x, g in ph:
            out.append(("%s kept from %s" % (k[0], x), lambda lv, k=k, g=g: eqr(lv.arr(k), lv.arrL(k), g(lv), lv.count(k))))
            out.append(("%s zero from %s" % (k[0], x), lambda lv, k=k, g=g: eqr(lv.arr(k), aconst(P(0)), g(lv), lv.count(k))))
            out.append(("%s zero below top-%s" % (k[0], x), lambda lv, k=k, g=g: eqr(lv.arr(k), aconst(P(0)), 0, lv.count(k) - g(lv))))
    return out, []


def imp(b, f): return TRUE if b is FALSE else implies(b, f())


def wpost(c):
    N, n, p, a = c.N, c.a("n"), c.n("p"), c.o("a")
    be, le_ = c.a("be"), not_(c.a("be"))
    out = []
    for full in (True, False):
        g = ge(n, N) if full else lt(n, N)
        k = N if full else n
        t = "" if full else " until the stream is full"
        out.append(("most significant block first" + t, imp(and_(be, g), lambda: forall(0, k, lambda j: eq(sel(p, j), sel(a, N - 1 - j))))))
        out.append(("least significant block first" + t, imp(and_(le_, g), lambda: eqr(p, a, 0, k))))
        out.append(("number of blocks written" + t, imp(g, lambda: eq(c.ret, k))))
        out.append(("nothing else is written" + t, imp(g, lambda: eqr(p, c.o("p"), k, n))))
    return out


def rpost(c):
    N, n, p, a, t, v = c.N, c.a("n"), c.o("p"), c.n("a"), c.a("t"), c.a("v")
    be, le_ = c.a("be"), not_(c.a("be"))
    full, short = ge(n, N), lt(n, N)
    return [("blocks in order, most significant first", imp(and_(be, full), lambda: forall(0, N, lambda j: eq(sel(a, N - 1 - j), sel(p, j))))),
            ("blocks in order, least significant first", imp(and_(le_, full), lambda: eqr(a, p, 0, N))),
            ("the blocks present, most significant first", imp(and_(be, short), lambda: and_(forall(0, n, lambda j: eq(sel(a, N - 1 - j), sel(p, j))), eq(sel(a, N - 1 - n), v), eqr(a, aconst(P(0)), 0, N - 1 - n)))),
            ("the blocks present, least significant first", imp(and_(le_, short), lambda: and_(eqr(a, p, 0, n), eq(sel(a, n), v), eqr(a, aconst(P(0)), n + 1, N))))]


def rpre(c):
    t, v = c.a("t"), c.a("v")
    return [le(c.a("n"), 2 ** 60), le(t, 3)] + [implies(eq(t, k), lt(v, 256 ** k)) for k in range(4)]


kw = dict(defs=D, gen=gen, assumes=A, cands=bincands, opts=dict(conc=3))
BUF = [("p", "buf4:n"), ("n", "i64"), ("be", "i1")]
CBUF = [("p", "cbuf4:n"), ("n", "i64")]
unit("writebin", "std::size_t H(const U* a, unsigned* p, std::size_t n, bool be) { vt_wout os(p, n); a->writeBinary(os, be); return os.vt_count(); }",
     [("a", "cU")] + BUF, ["C15", "C23"], mods=["p"], ret="i64", pre=lambda c: [le(c.a("n"), 2 ** 60)], post=wpost, **kw)
unit("readbin", "void H(U* a, const unsigned* p, std::size_t n, unsigned t, unsigned v, bool be) { vt_win is(p, n, t, v); a->readBinary(is, be); }",
     [("a", "U")] + CBUF + [("t", "i32"), ("v", "i32"), ("be", "i1")], ["C15", "C23"], mods=["a"], pre=rpre, post=rpost, **kw)
unit("roundtrip", "void H(U* b, const U* a, unsigned* p, std::size_t n, bool be) { vt_wout os(p, n); a->writeBinary(os, be); vt_win is(p, os.vt_count(), 0, 0); b->readBinary(is, be); }",
     [("b", "U"), ("a", "cU")] + BUF, ["C15", "C23"], mods=["b", "p"], pre=lambda c: [le(c.a("n"), 2 ** 60), ge(c.a("n"), c.N)],
     post=lambda c: [("the number is restored", eqr(c.n("b"), c.o("a"), 0, c.N))], **kw)
