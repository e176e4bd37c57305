"""Contracts of the unsigned conversions."""
from .units import unit
from .term import *
from .cands import *
from .spec_unsigned import relcands, digitcands, suffcands
from .spec_arith import idxphis, arrays

B = 2 ** 32
UTYPES = [("u8", "uint8_t", 8, "unsigned char"), ("u16", "uint16_t", 16, "unsigned short"), ("u32", "uint32_t", 32, "unsigned int"), ("u64", "uint64_t", 64, "unsigned long"),
          ("ull", "unsigned long long", 64, "unsigned long long"), ("b", "bool", 1, "bool"), ("c16", "char16_t", 16, "char16_t"), ("c32", "char32_t", 32, "char32_t")]
STYPES = [("i8", "int8_t", 8), ("i16", "int16_t", 16), ("i32", "int32_t", 32), ("i64", "int64_t", 64), ("ll", "long long", 64), ("ch", "char", 8), ("wc", "wchar_t", 32)]


def copycands(ex, li):
    """blocks of one array copied to another below an index"""
    out = []
    arrs = arrays(ex, li)
    for k in arrs:
        if k not in li.mod: continue
        for q in arrs:
            if q == k: continue
            for i in idxphis(li):
                out.append(("%s <= M" % i, lambda lv, i=i: le(lv[i], lv.M)))
                out.append(("%s equals %s below %s" % (k[0], q[0], i), lambda lv, k=k, q=q, i=i: eqr(lv.arr(k), lv.arr(q), 0, lv[i])))
    return out, []


def both(*fs):
    def f(ex, li):
        a, b = [], []
        for g in fs:
            x, y = g(ex, li)
            a += x; b += y
        return a, b
    return f


def val(c, v):
    return sum([P(0)] + [v]) if isinstance(v, Poly) else None


def ctorpost(c):
    v = c.a("v")
    if isinstance(v, Bool): return [("value of the built-in", and_(implies(v, eq(c.Vn("a"), 1)), implies(not_(v), eq(c.Vn("a"), 0))))]
    return [("value of the built-in", eq(c.Vn("a"), v))]


for s, t, w, cn in UTYPES:
    if s != "b":
        unit("ctor_" + s, "void H(U* a, %s v) { new (a) U(v); }" % t, [("a", "sret:U"), ("v", "i%d" % w)], ["C16", "C23"], mods=["a"],
             lib=r"^Aeu<{N}ul>::Aeu<%s>\(%s\)$" % (cn, cn), cands=digitcands, post=ctorpost)
    unit("assign_" + s, "void H(U& a, %s v) { a = v; }" % t, [("a", "U"), ("v", "i%d" % w)], ["C16", "C23"], mods=["a"], uses=["ctor_" + s] if s != "b" else [], cands=digitcands, post=ctorpost)


def castpost(w):
    def post(c):
        x = sel(c.o("a"), 0) + sel(c.o("a"), 1) * B
        if w == 1: return [("nonzero", iff(c.ret, ne(x, 0)))]
        return [("value modulo the width", eq(c.ret, mod(x, 2 ** w)))]
    return post


for s, t, w in [x[:3] for x in UTYPES if x[0] != "b"] + STYPES:
    unit("cast_" + s, "uint%d_t H(const U& a) { return (uint%d_t) a.integralCast<%s>(); }" % (w, w, t),
         [("a", "cU")], ["C16", "C23"], ret="i%d" % w, cands=digitcands, post=castpost(w))


def pcpost(rel):
    def post(c):
        if rel == "lt": return [("widening keeps the value", eq(c.Vn("o"), c.Vo("a")))]
        if rel == "gt": return [("narrowing keeps the low bits", cong(c.Vn("o") - c.Vo("a"), 32 * c.M))]
        return [("value is kept", eq(c.Vn("o"), c.Vo("a")))]
    return post


for rel in ("lt", "gt"):
    unit("pcast_" + rel, "void H(UM& o, const U& a) { o = a.precisionCast<BITSM>(); }", [("o", "UM"), ("a", "cU")], ["C16", "C23"], mods=["o"], rel=rel, cands=copycands, opts=dict(vsplit=1), post=pcpost(rel))
unit("swap", "void H(U& a, U& b) { a.swap(b); }", [("a", "U"), ("b", "U")], ["C16", "C23"], mods=["a", "b"], alias=[("a", "b")],
     post=lambda c: [("first receives second", eqr(c.n("a"), c.o("b"), 0, c.N)), ("second receives first", eqr(c.n("b"), c.o("a"), 0, c.N))])
unit("copy", "void H(U& o, const U& a) { U t(a); o = t; }", [("o", "U"), ("a", "cU")], ["C16", "C23"], mods=["o"], alias=[("o", "a")], post=lambda c: [("copy has the same blocks", eqr(c.n("o"), c.o("a"), 0, c.N))])
