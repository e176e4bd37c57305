"""Contracts of the unsigned operations."""
from .units import unit
from .term import *
from .cands import *
from . import cands as C

B = 2 ** 32


def relcands(ex, li):
    """V(A,i) = s1 V(A at entry,i) + s2 V(other,i) + s3 c E(32 i) - s3 c0, for carries c among the loop variables"""
    out = []
    idx = [x for x in intphis(li) if li.phis[x] >= 32 and isinstance(li.inits.get(x), Poly) and li.inits[x].isconst and li.inits[x].const == 0]
    cs = [x for x in intphis(li)]
    arrs = [k for k in regions(ex, li) if elt(ex, k) == 4]
    for k in arrs:
        if k not in li.mod: continue
        for i in idx:
            for s1, b, s2 in [(1, None, 0), (-1, None, 0), (0, None, 0)] + [(1, q, 1) for q in arrs] + [(1, q, -1) for q in arrs if q != k]+ [(0, q, -1) for q in arrs if q != k] + [(0, q, 1) for q in arrs if q != k]:
                for c in [x for x in cs if x != i] + [None]:
                    for s3 in (1, -1):
                        if s2 and c is None: continue
                        if s2 and s3 < 0: continue

                        def f(lv, k=k, i=i, s1=s1, b=b, s2=s2, c=c, s3=s3):
                            l = V(lv.arr(k), lv[i])
                            r = s1 * V(lv.arrL(k), lv[i])
                            if b is not None: r = r + s2 * V(lv.arrL(b), lv[i])
                            cc, c0 = (lv[c], lv.init[c]) if c else (P(1), P(1))
                            if not isinstance(c0, Poly): raise Undefined()
                            return eq(l + s3 * cc * E(32 * lv[i]), r + s3 * c0)
                        # -A + const and ~A use E(32 i) with the complement
                        out.append(("V(%s,%s) = %+d*old %+d*%s %+d*carry %s" % (k[0], i, s1, s2, b, -s3, c), f))
                        if s1 == -1 or (s1 == 0 and s2 == -1):
                            def g(lv, f=f, i=i):
                                b_ = f(lv)
                                return b_

                            def h(lv, k=k, i=i, s1=s1, b=b, s2=s2, c=c, s3=s3):
                                l = V(lv.arr(k), lv[i])
                                r = s1 * V(lv.arrL(k), lv[i])
                                if b is not None: r = r + s2 * V(lv.arrL(b), lv[i])
                                cc, c0 = (lv[c], lv.init[c]) if c else (P(1), P(1))
                                if not isinstance(c0, Poly): raise Undefined()
                                return eq(l + s3 * cc * E(32 * lv[i]), r + s3 * c0 + E(32 * lv[i]) - 1)
                            out.append(("V(%s,%s) = %+d*old %+d*%s %+d*carry %s + all ones" % (k[0], i, s1, s2, b, -s3, c), h))
    return out, []


def modpost(f):
    return lambda c: [("value is exact modulo 2^precision", cong(f(c), c.W))]


UW = [("u8", "uint8_t", 8), ("u16", "uint16_t", 16), ("u32", "uint32_t", 32), ("u64", "uint64_t", 64), ("ull", "unsigned long long", 64)]

# ---------------------------------------------------------------- C01
unit("add", "U* H(U& a, const U& b) { return &(a += b); }", [("a", "U"), ("b", "cU")], ["C01", "C23"],
     lib=r"^operator\+=\(Aeu<{N}ul>&, Aeu<{N}ul> const&\)", mods=["a"], ret="ref:a", alias=[("a", "b")],
     post=modpost(lambda c: c.Vn("a") - c.Vo("a") - c.Vo("b")), cands=relcands)
unit("plus", "void H(U& o, const U& a, const U& b) { o = a + b; }", [("o", "U"), ("a", "cU"), ("b", "cU")], ["C01", "C23"],
     mods=["o"], alias=[("a", "b"), ("o", "a"), ("o", "b")], uses=["add"],
     post=modpost(lambda c: c.Vn("o") - c.Vo("a") - c.Vo("b")), cands=relcands)
unit("sub", "U* H(U& a, const U& b) { return &(a -= b); }", [("a", "U"), ("b", "cU")], ["C01", "C23"],
     lib=r"^operator-=\(Aeu<{N}ul>&, Aeu<{N}ul> const&\)", mods=["a"], ret="ref:a", alias=[("a", "b")], uses=["add"],
     post=modpost(lambda c: c.Vn("a") - c.Vo("a") + c.Vo("b")), cands=relcands)
unit("minus", "void H(U& o, const U& a, const U& b) { o = a - b; }", [("o", "U"), ("a", "cU"), ("b", "cU")], ["C01", "C23"],
     mods=["o"], alias=[("a", "b"), ("o", "a"), ("o", "b")], uses=["sub", "add"],
     post=modpost(lambda c: c.Vn("o") - c.Vo("a") + c.Vo("b")), cands=relcands)
unit("neg", "void H(U& o, const U& a) { o = -a; }", [("o", "U"), ("a", "cU")], ["C01", "C23"],
     mods=["o"], alias=[("o", "a")], post=modpost(lambda c: c.Vn("o") + c.Vo("a")), cands=relcands)
unit("pos", "void H(U& o, const U& a) { o = +a; }", [("o", "U"), ("a", "cU")], ["C01", "C23"],
     mods=["o"], alias=[("o", "a")], post=modpost(lambda c: c.Vn("o") - c.Vo("a")), cands=relcands)
unit("inc", "U* H(U& a) { return &++a; }", [("a", "U")], ["C01", "C23"], mods=["a"], ret="ref:a",
     lib=r"^Aeu<{N}ul>::operator\+\+\(\)", post=modpost(lambda c: c.Vn("a") - c.Vo("a") - 1), cands=relcands)
unit("dec", "U* H(U& a) { return &--a; }", [("a", "U")], ["C01", "C23"], mods=["a"], ret="ref:a",
     lib=r"^Aeu<{N}ul>::operator--\(\)", post=modpost(lambda c: c.Vn("a") - c.Vo("a") + 1), cands=relcands)
unit("postinc", "void H(U& o, U& a) { o = a++; }", [("o", "U"), ("a", "U")], ["C01", "C23"], mods=["o", "a"], uses=["inc"],
     post=lambda c: [("value is exact modulo 2^precision", cong(c.Vn("a") - c.Vo("a") - 1, c.W)), ("old value is returned", eq(c.Vn("o"), c.Vo("a")))], cands=relcands)
unit("postdec", "void H(U& o, U& a) { o = a--; }", [("o", "U"), ("a", "U")], ["C01", "C23"], mods=["o", "a"], uses=["dec"],
     post=lambda c: [("value is exact modulo 2^precision", cong(c.Vn("a") - c.Vo("a") + 1, c.W)), ("old value is returned", eq(c.Vn("o"), c.Vo("a")))], cands=relcands)
for s, t, w in UW:
    unit("addeq_" + s, "U* H(U& a, %s v) { return &(a += v); }" % t, [("a", "U"), ("v", "i%d" % w)], ["C01", "C23"], mods=["a"], ret="ref:a",
         lib=r"Aeu<{N}ul>& operator\+=<unsigned int>\(Aeu<{N}ul>&, unsigned int\)" if s == "u32" else None,
         post=modpost(lambda c: c.Vn("a") - c.Vo("a") - c.a("v")), cands=relcands)
    unit("plusv_" + s, "void H(U& o, const U& a, %s v) { o = a + v; }" % t, [("o", "U"), ("a", "cU"), ("v", "i%d" % w)], ["C01", "C23"], mods=["o"],
         alias=[("o", "a")], post=modpost(lambda c: c.Vn("o") - c.Vo("a") - c.a("v")), cands=relcands)
    unit("vplus_" + s, "void H(U& o, const U& a, %s v) { o = v + a; }" % t, [("o", "U"), ("a", "cU"), ("v", "i%d" % w)], ["C01", "C23"], mods=["o"], uses=["add"],
         alias=[("o", "a")], post=modpost(lambda c: c.Vn("o") - c.Vo("a") - c.a("v")), cands=relcands)
    unit("subeq_" + s, "U* H(U& a, %s v) { return &(a -= v); }" % t, [("a", "U"), ("v", "i%d" % w)], ["C01", "C23"], mods=["a"], ret="ref:a", uses=["sub"],
         post=modpost(lambda c: c.Vn("a") - c.Vo("a") + c.a("v")), cands=relcands)
    unit("vminus_" + s, "void H(U& o, const U& a, %s v) { o = v - a; }" % t, [("o", "U"), ("a", "cU"), ("v", "i%d" % w)], ["C01", "C23"], mods=["o"], uses=["sub", "add"],
         alias=[("o", "a")], post=modpost(lambda c: c.Vn("o") + c.Vo("a") - c.a("v")), cands=relcands)


# ---------------------------------------------------------------- C04
def bitcands(ex, li):
    """modified array equals the operator applied block by block below the index"""
    out = []
    from .exec import mkand, mkor, mkxor
    idx = [x for x in intphis(li) if li.phis[x] >= 32]
    arrs = [k for k in regions(ex, li) if elt(ex, k) == 4]
    for k in arrs:
        if k not in li.mod: continue
        for i in idx:
            for rng in ("below", "from"):
                def rg(lv, i=i, rng=rng, k=k):
                    return (P(0), lv[i]) if rng == "below" else (lv[i], count(ex, k))
                for q in arrs:
                    out.append(("%s = ~%s %s %s" % (k[0], q[0], rng, i), lambda lv, k=k, q=q, rg=rg: forall(*rg(lv), lambda j: eq(sel(lv.arr(k), j) + sel(lv.arrL(q), j), B - 1))))
                    for r in arrs:
                        if repr(r) < repr(q): continue
                        for nm, f in (("and", mkand), ("or", mkor), ("xor", mkxor)):
                            out.append(("%s = %s %s %s %s %s" % (k[0], q[0], nm, r[0], rng, i),
                                        lambda lv, k=k, q=q, r=r, f=f, rg=rg: forall(*rg(lv), lambda j: eq(sel(lv.arr(k), j), f(sel(lv.arrL(q), j), sel(lv.arrL(r), j))))))
    return out, []


def blockpost(f):
    """result block j is f(j) for every j"""
    return lambda c: [("every block has the right bits", forall(0, c.N, lambda j: f(c, j)))]


from .exec import mkand, mkor, mkxor
for nm, op, f in (("xor", "^", mkxor), ("and", "&", mkand), ("or", "|", mkor)):
    unit("b%s" % nm, "U* H(U& a, const U& b) { return &(a %s= b); }" % op, [("a", "U"), ("b", "cU")], ["C04", "C23"], mods=["a"], ret="ref:a", alias=[("a", "b")],
         lib=r"^operator\%s=\(Aeu<{N}ul>&, Aeu<{N}ul> const&\)" % op, cands=bitcands,
         post=blockpost(lambda c, j, f=f: eq(sel(c.n("a"), j), f(sel(c.o("a"), j), sel(c.o("b"), j)))))
    unit("b%s2" % nm, "void H(U& o, const U& a, const U& b) { o = a %s b; }" % op, [("o", "U"), ("a", "cU"), ("b", "cU")], ["C04", "C23"], mods=["o"],
         alias=[("a", "b"), ("o", "a"), ("o", "b")], cands=bitcands, uses=["b" + nm],
         post=blockpost(lambda c, j, f=f: eq(sel(c.n("o"), j), f(sel(c.o("a"), j), sel(c.o("b"), j)))))
    unit("b%sv" % nm, "void H(U& o, const U& a, uint64_t v) { o = v %s a; }" % op, [("o", "U"), ("a", "cU"), ("v", "i64")], ["C04", "C23"], mods=["o"],
         alias=[("o", "a")], cands=lambda ex, li: (bitcands(ex, li)[0] + relcands(ex, li)[0] + digitcands(ex, li)[0], []), uses=["b" + nm],
         post=lambda c, f=f: [("block 0", eq(sel(c.n("o"), 0), f(mod(c.a("v"), B), sel(c.o("a"), 0)))), ("block 1", eq(sel(c.n("o"), 1), f(div(c.a("v"), B), sel(c.o("a"), 1)))),
                              ("higher blocks", forall(2, c.N, lambda j: eq(sel(c.n("o"), j), f(P(0), sel(c.o("a"), j)))))])
unit("bnot", "void H(U& o, const U& a) { o = ~a; }", [("o", "U"), ("a", "cU")], ["C04", "C23"], mods=["o"], alias=[("o", "a")], cands=bitcands,
     post=blockpost(lambda c, j: eq(sel(c.n("o"), j) + sel(c.o("a"), j), B - 1)))


def digitcands(ex, li):
    """digits of a built-in number written block by block"""
    out = []
    idx = [x for x in intphis(li) if li.phis[x] >= 32]
    cs = [x for x in intphis(li)]
    for k in regions(ex, li):
        if k not in li.mod or elt(ex, k) != 4: continue
        for i in idx:
            for c in cs:
                if c == i: continue

                def f(lv, k=k, i=i, c=c):
                    a, v0 = lv.arr(k), lv.init[c]
                    return and_(implies(eq(lv[i], 0), eq(lv[c], v0)), implies(eq(lv[i], 1), eq(lv[c], div(v0, B))), implies(ge(lv[i], 2), eq(lv[c], 0)),
                                implies(ge(lv[i], 1), eq(sel(a, 0), mod(v0, B))), implies(ge(lv[i], 2), eq(sel(a, 1), div(v0, B))),
                                eqr(a, aconst(0), 2, lv[i]))
                out.append(("digits of %s in %s below %s" % (c, k[0], i), f))
    return out, []


# ---------------------------------------------------------------- C08
def suffcands(ex, li):
    """blocks at and above an index agree"""
    out = []
    arrs = [k for k in regions(ex, li) if elt(ex, k) == 4]
    for x in intphis(li):
        if li.phis[x] < 32: continue
        for n, p in enumerate(arrs):
            for q in arrs[n + 1:]:
                cs = [count(ex, p)]
                if count(ex, q) is not cs[0]: cs.append(count(ex, q))
                for n_, m in enumerate(cs):
                    out.append(("%s equals %s from %s (%d)" % (p[0], q[0], x, n_), lambda lv, x=x, p=p, q=q, m=m: eqr(lv.arr(p), lv.arr(q), lv[x], m)))
    for k in arrs:
        if k in li.mod: continue
        for x in intphis(li):
            if li.phis[x] >= 32:
                out.append(("%s zero above %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), aconst(0), lv[x] + 1, count(ex, k))))
    return out, []


unit("filled", "size_t H(const U& a) { return a.filledBlocksNumber(); }", [("a", "cU")], ["C08", "C23"], ret="i64",
     lib=r"^Aeu<{N}ul>::filledBlocksNumber\(\) const$", cands=suffcands,
     post=lambda c: [("within the number", le(c.ret, c.N)), ("all higher blocks are zero", eqr(c.o("a"), aconst(0), c.ret, c.N)),
                     ("highest counted block is nonzero", implies(ge(c.ret, 1), ge(sel(c.o("a"), c.ret - 1), 1)))])
unit("isZero", "bool H(const U& a) { return a.isZero(); }", [("a", "cU")], ["C08", "C23"], ret="i1", uses=["filled"], cands=suffcands,
     post=lambda c: [("exactly for zero", iff(c.ret, eq(c.Vo("a"), 0)))])
unit("isOdd", "bool H(const U& a) { return a.isOdd(); }", [("a", "cU")], ["C08", "C23"], ret="i1",
     post=lambda c: [("lowest bit", iff(c.ret, eq(mod(sel(c.o("a"), 0), 2), 1)))])
unit("isEven", "bool H(const U& a) { return a.isEven(); }", [("a", "cU")], ["C08", "C23"], ret="i1",
     post=lambda c: [("lowest bit", iff(c.ret, eq(mod(sel(c.o("a"), 0), 2), 0)))])
unit("bitness", "size_t H(const U& a) { return a.getBitness(); }", [("a", "cU")], ["C08", "C23"], ret="i64", post=lambda c: [("precision", eq(c.ret, 32 * c.N))])
unit("totalBlocks", "size_t H(const U& a) { return a.totalBlocksNumber(); }", [("a", "cU")], ["C08", "C23"], ret="i64", post=lambda c: [("block count", eq(c.ret, c.N))])
unit("bitCount", "size_t H(const U& a) { return a.bitCount(); }", [("a", "cU")], ["C08", "C23"], ret="i64", cands=suffcands,
     lib=r"^Aeu<{N}ul>::bitCount\(\) const$",
     post=lambda c: [("value fits in that many bits", lt(c.Vo("a"), E(c.ret))), ("not in fewer", implies(ge(c.ret, 1), ge(c.Vo("a"), E(c.ret - 1)))), ("within the precision", le(c.ret, c.W))])
unit("byteCount", "size_t H(const U& a) { return a.byteCount(); }", [("a", "cU")], ["C08", "C23"], ret="i64", cands=suffcands,
     post=lambda c: [("value fits in that many bytes", lt(c.Vo("a"), E(8 * c.ret))), ("not in fewer", implies(ge(c.ret, 1), ge(c.Vo("a"), E(8 * c.ret - 8)))), ("within the precision", le(c.ret, 4 * c.N))])

# ---------------------------------------------------------------- C06
REL = {"eq": "U", "lt": "UM", "gt": "UM"}


def cmppost(x, y): return [("equal", iff(eq(x[0], 0), eq(x[1], y))), ("less", iff(eq(x[0], 1), lt(x[1], y))), ("greater", iff(eq(x[0], 2), gt(x[1], y)))]


OPS = [("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]


def relop(o, a, b): return {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge}[o](a, b)


def cmplib(l, r): return r"^Aeu<{%s}ul>::compareTo<{%s}ul>\(Aeu<{%s}ul> const&\) const$" % (l, r, r)


unit("cmp", "unsigned H(const U& a, const U& b) { return (unsigned) a.compareTo(b); }", [("a", "cU"), ("b", "cU")], ["C06", "C23"], ret="i32", alias=[("a", "b")],
     lib=r"Aeu<{N}ul>::compareTo<{N}ul>\(Aeu<{N}ul> const&\) const$", cands=suffcands, post=lambda c: cmppost((c.ret, c.Vo("a")), c.Vo("b")))
for rel in ("lt", "gt"):
    unit("cmp_" + rel, "unsigned H(const U& a, const UM& b) { return (unsigned) a.compareTo(b); }", [("a", "cU"), ("b", "cUM")], ["C06", "C23"], ret="i32", rel=rel,
         lib=r"Aeu<{N}ul>::compareTo<{M}ul>\(Aeu<{M}ul> const&\) const$", cands=suffcands, post=lambda c: cmppost((c.ret, c.Vo("a")), c.Vo("b")))
for s, t, w in UW[:4]:
    unit("cmpv_" + s, "unsigned H(const U& a, %s v) { return (unsigned) a.compareTo(v); }" % t, [("a", "cU"), ("v", "i%d" % w)], ["C06", "C23"], ret="i32", uses=["filled"], cands=suffcands,
         lib=r"Aeu<{N}ul>::compareTo<?.*\(unsigned %s\) const$" % {"u8": "char", "u16": "short", "u32": "int", "u64": "long"}[s], post=lambda c: cmppost((c.ret, c.Vo("a")), c.a("v")))
for o, op in OPS:
    unit("op_%s" % o, "bool H(const U& a, const U& b) { return a %s b; }" % op, [("a", "cU"), ("b", "cU")], ["C06", "C23"], ret="i1", uses=["cmp"], cands=suffcands,
         alias=[("a", "b")], post=lambda c, o=o: [("is the numeric relation", iff(c.ret, relop(o, c.Vo("a"), c.Vo("b"))))])
    for rel in ("lt", "gt"):
        unit("op_%s_%s" % (o, rel), "bool H(const U& a, const UM& b) { return a %s b; }" % op, [("a", "cU"), ("b", "cUM")], ["C06", "C23"], ret="i1", rel=rel, cands=suffcands,
             uses=["cmp_" + rel], post=lambda c, o=o: [("is the numeric relation", iff(c.ret, relop(o, c.Vo("a"), c.Vo("b"))))])
    for s, t, w in UW[:4]:
        unit("op_%s_v%s" % (o, s), "bool H(const U& a, %s v) { return a %s v; }" % (t, op), [("a", "cU"), ("v", "i%d" % w)], ["C06", "C23"], ret="i1", uses=["filled", "cmpv_" + s], cands=suffcands,
             post=lambda c, o=o: [("is the numeric relation", iff(c.ret, relop(o, c.Vo("a"), c.a("v"))))])
        unit("opr_%s_v%s" % (o, s), "bool H(const U& a, %s v) { return v %s a; }" % (t, op), [("a", "cU"), ("v", "i%d" % w)], ["C06", "C23"], ret="i1", uses=["filled", "cmpv_" + s], cands=suffcands,
             post=lambda c, o=o: [("is the numeric relation", iff(c.ret, relop(o, c.a("v"), c.Vo("a"))))])

# ---------------------------------------------------------------- C07
def fieldpost(bits, rd, val):
    """index i selects a field of the given width; rd(c): old value read / new value written"""
    per = 32 // bits

    def f(c, r=None):
        pass
    return f


def getfield(bits, cnt=lambda c: c.N):
    per = 32 // bits

    def post(c):
        i = c.a("i")
        k = div(i, per)
        N = cnt(c)
        inside = lt(i, per * N)
        r = c.ret if isinstance(c.ret, Poly) else None
        out = []
        for j in range(per):
            f = mod(div(sel(c.o("a"), k), 2 ** (bits * j)), 2 ** bits) if not (i.isconst and i.const >= per * N.const if N.isconst else False) else P(0)
            out.append(("~reads field %d of the block" % j, implies(and_(inside, eq(mod(i, per), j)), iff(c.ret, eq(f, 1)) if r is None else eq(r, f))))
        out.append(("reads zero outside", implies(ge(i, per * N), not_(c.ret) if r is None else eq(r, 0))))
        if r is None:
            out.append(("reads the bit", implies(inside, and_(implies(c.ret, eq(bit(c.o("a"), i), 1)), implies(not_(c.ret), eq(bit(c.o("a"), i), 0))))))
        return out
    return post


def setfield(bits):
    per = 32 // bits

    def post(c):
        i, v = c.a("i"), c.a("v")
        b = isinstance(v, Bool)
        k = div(i, per)
        inside = lt(i, per * c.N)
        o, n = c.o("a"), c.n("a")
        if i.isconst and c.N.isconst and i.const >= per * c.N.const:
            return [("writes nothing outside", eqr(n, o, 0, c.N))]
        out = [("writes nothing outside", implies(ge(i, per * c.N), eqr(n, o, 0, c.N))),
               ("other blocks keep their value", implies(inside, and_(eqr(n, o, 0, k), eqr(n, o, k + 1, c.N))))]
        for j in range(per):
            old = mod(div(sel(o, k), 2 ** (bits * j)), 2 ** bits)

            def w(x): return eq(sel(n, k), sel(o, k) + (x - old) * 2 ** (bits * j))
            g = and_(implies(v, w(P(1))), implies(not_(v), w(P(0)))) if b else w(v)
            out.append(("~writes field %d of the block" % j, implies(and_(inside, eq(mod(i, per), j)), g)))
        if b:
            def val(x): return eq(c.Vn("a"), c.Vo("a") + (x - bit(o, i)) * E(i))
            out.append(("value changes by that bit", implies(inside, and_(implies(v, val(P(1))), implies(not_(v), val(P(0)))))))
        return out
    return post


unit("getBit", "bool H(const U& a, size_t i) { return a.getBit(i); }", [("a", "cU"), ("i", "i64")], ["C07", "C23"], ret="i1", opts=dict(bitdef=1),
     lib=r"^Aeu<{N}ul>::getBit\(unsigned long\) const$", post=getfield(1))
unit("setBit", "void H(U& a, size_t i, bool v) { a.setBit(i, v); }", [("a", "U"), ("i", "i64"), ("v", "i1")], ["C07", "C23"], mods=["a"], opts=dict(bitdef=1),
     lib=r"^Aeu<{N}ul>::setBit\(unsigned long, bool\)$", post=setfield(1))
unit("getByte", "uint8_t H(const U& a, size_t i) { return a.getByte(i); }", [("a", "cU"), ("i", "i64")], ["C07", "C23"], ret="i8", post=getfield(8))
unit("setByte", "void H(U& a, size_t i, uint8_t v) { a.setByte(i, v); }", [("a", "U"), ("i", "i64"), ("v", "i8")], ["C07", "C23"], mods=["a"], post=setfield(8))
unit("getBlock", "uint32_t H(const U& a, size_t i) { return a.getBlock(i); }", [("a", "cU"), ("i", "i64")], ["C07", "C23"], ret="i32", post=getfield(32))
unit("setBlock", "void H(U& a, size_t i, uint32_t v) { a.setBlock(i, v); }", [("a", "U"), ("i", "i64"), ("v", "i32")], ["C07", "C23"], mods=["a"], post=setfield(32))

# the same functions of the second precision of mixed-precision operations
for rel in ("lt", "gt"):
    unit("filledM_" + rel, "size_t H(const UM& a) { return a.filledBlocksNumber(); }", [("a", "cUM")], ["C10", "C23"], ret="i64", rel=rel,
         lib=r"^Aeu<{M}ul>::filledBlocksNumber\(\) const$", cands=suffcands,
         post=lambda c: [("within the number", le(c.ret, c.M)), ("all higher blocks are zero", eqr(c.o("a"), aconst(0), c.ret, c.M)),
                         ("highest counted block is nonzero", implies(ge(c.ret, 1), ge(sel(c.o("a"), c.ret - 1), 1)))])
    unit("getBitM_" + rel, "bool H(const UM& a, size_t i) { return a.getBit(i); }", [("a", "cUM"), ("i", "i64")], ["C10", "C23"], ret="i1", opts=dict(bitdef=1), rel=rel,
         lib=r"^Aeu<{M}ul>::getBit\(unsigned long\) const$", post=getfield(1, lambda c: c.M))
