"""C12: numbers read from text"""
from .units import unit, UNITS
from .term import *
from . import nat, cands as C
from .extern import extern, conc, args
from .exec import Unsupported
from .strs import *
from .spec_signed import canon

A = ("isalnum and iswalnum decide ASCII letters and digits (the C locale)",)


@extern("isalnum", says="isalnum, in the C locale, tells ASCII letters and digits; its argument is -1..255")
def isalnum(ex, st, i):
    x, = args(ex, st, i)
    ex.oblige(st, "precondition", "isalnum receives an unsigned char or EOF", or_(le(x, 255), eq(x, 2 ** 32 - 1)))
    r = fresh("isalnum", 0, 2 ** 31 - 1)
    st.add(iff(ne(r, 0), alnum(x)))
    st.env[i.res] = r


@extern("iswalnum", says="iswalnum, in the C locale, tells ASCII letters and digits")
def iswalnum(ex, st, i):
    x, = args(ex, st, i)
    r = fresh("iswalnum", 0, 2 ** 31 - 1)
    st.add(iff(ne(r, 0), alnum(x)))
    st.env[i.res] = r


@conc("isalnum", "iswalnum")
def calnum(ex, st, i):
    x, = args(ex, st, i)
    st.env[i.res] = P(8 if alnum(x) is TRUE else 0)


def text(rng, w, N):
    """characters that reach prefixes, digits of every base, junk and dashes"""
    t = rng.random()
    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 20, 40, 12 * N])
    base = rng.choice(["01", "01234567", "0123456789", "0123456789abcdefABCDEF"])
    pre = rng.choice(["", "", "0x", "0X", "0b", "0B", "0o", "0O", "0", "00x", "0z", "a", "x", "f", "g"])
    dash = rng.choice(["", "", "-", "--", " - ", "+-", "---"])
    def junk(k): return [rng.choice([0, 32, 43, 45, 44, 46, 47, 58, 64, 91, 96, 123, 126, 127, 39, 95, rng.randrange(256 ** w), rng.randrange(256)]) for _ in range(k)]
    s = [ord(c) for c in dash + pre]
    s += [ord(rng.choice(base)) for _ in range(rng.randrange(n + 1))]
    if t < .5: s = junk(rng.randrange(4)) + s
    if t > .7:
        for _ in range(rng.randrange(4)): s.insert(rng.randrange(len(s) + 1), rng.choice(junk(1) + [45, 45, ord(rng.choice("gzGZ89afAF"))]))
    if rng.random() < .1: s = junk(n)
    if w == 4 and rng.random() < .1: s = [c + (rng.choice([0, 0, 256, 65536, 2 ** 31])) for c in s]
    if rng.random() < .3: s = s[:rng.randrange(len(s) + 1)]
    return [c % 256 ** w for c in s]


def gen(rng, ct, N, M):
    vals = {}
    for pn, kind in ct.params:
        if nat.isscalar(kind): continue
        k, ro = nat.kindof(kind)
        if k in ("U", "S"): vals[pn] = (rng.choice([0, 1, -1]), [rng.getrandbits(32) for _ in range(N)])
        elif k.startswith("buf"):
            w, n = nat.bufkind(k)
            s = text(rng, w, N)
            if isinstance(n, int): s = (s + [0] * n)[:n]
            else: vals[n] = len(s)
            vals[pn] = (None, s)
        elif nat.isstr(k): vals[pn] = (None, text(rng, int(k[2:]), N))
        else: return None
    return vals


def strcands(ex, li):
    out = []
    datas = [k for k in C.regions(ex, li) if k not in li.mod and not (k[0] in ("o",))]
    outs = [k for k in C.regions(ex, li) if k in li.mod and C.elt(ex, k) == 4]
    ph = [(x, (lambda lv, x=x: lv[x])) for x, w in li.phis.items() if w >= 32]
    ph += [(x, (lambda lv, x=x: lv.elem(x[:-4]))) for x in C.ptridx(ex, li)]
    small = list(li.phis)
    for a in datas:
        for x, g in ph:
            out.append(("%s <= length of %s" % (x, a[0]), lambda lv, a=a, g=g: le(g(lv), lv.count(a))))
            out.append(("%s <= first alnum of %s" % (x, a[0]), lambda lv, a=a, g=g: le(g(lv), fan(lv.arr(a), lv.count(a)))))
            out.append(("%s >= start of %s" % (x, a[0]), lambda lv, a=a, g=g: ge(g(lv), cstart(lv.arr(a), lv.count(a)))))
            for k in outs:
                if k == a: continue
                out.append(("V(%s) = digits of %s below %s" % (k[0], a[0], x),
                            lambda lv, a=a, g=g, k=k: cong(V(lv.arr(k), lv.count(k)) - horner(lv.arr(a), cbase(lv.arr(a), lv.count(a)), cstart(lv.arr(a), lv.count(a)), g(lv)), 32 * lv.count(k))))
            for y in small:
                if y == x: continue
                p = lambda lv, a=a, g=g: dashes(lv.arr(a), g(lv))
                out.append(("%s = parity" % y, lambda lv, y=y, p=p: eq(num(lv[y]), p(lv))))
                out.append(("%s = 1-parity" % y, lambda lv, y=y, p=p: eq(num(lv[y]) + p(lv), 1)))
    meas = [("length of %s - %s" % (a[0], x), lambda lv, a=a, g=g: lv.count(a) - g(lv)) for a in datas for x, g in ph]
    return out, meas


def num(x):
    if isinstance(x, Poly): return x
    if x is TRUE: return P(1)
    if x is FALSE: return P(0)
    raise Undefined()


NMAX = 2 ** 61


def upost(c): return [("the value denoted by the text modulo 2^precision", cong(c.Vn("o") - strval(c.o("p"), c.cnt["p"]), c.W))]


def spost(c):
    a, n = c.o("p"), c.cnt["p"]
    return [("the magnitude denoted by the text modulo 2^precision", cong(c.Vn("o") - strval(a, n), c.W)),
            ("zero has sign Zero", implies(eq(c.Vn("o"), 0), eq(c.ns("o"), 0))),
            ("the sign is Negative after an odd number of dashes, else Positive", implies(ne(c.Vn("o"), 0), eq(c.ns("o"), 1 + (B - 2) * dashes(a, n))))]


B = 2 ** 32
UP = ["muleq_u32", "addeq_u32"]
for w, ct in ((1, "char"), (4, "wchar_t")):
    kw = dict(assumes=A, cands=strcands, gen=gen)
    pre = lambda c: [le(c.a("n"), NMAX)]
    PN = [("p", "cbuf%d:n" % w), ("n", "i64")]
    unit("ustr%d" % w, "void H(U* o, const %s* p, std::size_t n) { new(o) U(p, n); }" % ct, [("o", "sret:U")] + PN, ["C12", "C23"], pre=pre, post=upost, uses=UP,
         lib=r"^Aeu<{N}ul>::Aeu<%s>\(%s const\*, unsigned long\)$" % (ct, ct), **kw)
    u = ["ustr%d" % w, "filled"]
    for T, t, po in (("U", "u", upost), ("S", "s", spost)):
        if T == "S": unit("sstr%d" % w, "void H(S* o, const %s* p, std::size_t n) { new(o) S(p, n); }" % ct, [("o", "sret:S")] + PN, ["C12", "C23"], pre=pre, post=po, uses=u, **kw)
        unit("%slit%d" % (t, w), "void H(%s* o, const %s* p) { new(o) %s(*reinterpret_cast<const %s(*)[300]>(p)); }" % (T, ct, T, ct), [("o", "sret:" + T), ("p", "cbuf%d:300" % w)], ["C12", "C23"], post=po, uses=u, **kw)
        unit("%sview%d" % (t, w), "void H(%s* o, const std::basic_string_view<%s>* p) { new(o) %s(*p); }" % (T, ct, T), [("o", "sret:" + T), ("p", "csv%d" % w)], ["C12", "C23"], post=po, uses=u, **kw)
        unit("%srview%d" % (t, w), "void H(%s* o, const %s* p, std::size_t n) { new(o) %s(std::basic_string_view<%s>(p, n)); }" % (T, ct, T, ct), [("o", "sret:" + T)] + PN, ["C12", "C23"], pre=pre, post=po, uses=u, **kw)
        unit("%sstring%d" % (t, w), "void H(%s* o, const std::basic_string<%s>* p) { new(o) %s(*p); }" % (T, ct, T), [("o", "sret:" + T), ("p", "cst%d" % w)], ["C12", "C23"], post=po, uses=u, **kw)
