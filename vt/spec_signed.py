"""Contracts of the signed numbers.

A signed number is (sign cell, magnitude array); sign cells hold 0, 1 or 2^32-1 (= -1).
Every contract takes canonical operands (zero magnitude iff zero sign, no fourth sign) and
gives back canonical results, so canonicity is an invariant of the class."""
import itertools
from .units import unit
from .term import *
from .cands import *
from .mathfn import *
from .spec_unsigned import relcands, suffcands, digitcands
from .spec_arith import Es
from .spec_conv import both, copycands, UTYPES, STYPES

B = 2 ** 32
NEG = B - 1
SG = {0: "0", 1: "+", NEG: "-"}


def canon(s, v):
    return or_(and_(eq(s, 0), eq(v, 0)), and_(eq(s, 1), ge(v, 1)), and_(eq(s, NEG), ge(v, 1)))


def cases_num(s, v): return [("0", eq(s, 0), P(0)), ("+", eq(s, 1), v), ("-", eq(s, NEG), -v)]


def cases_in(c, pn):
    """the mathematical integer an operand denotes, by cases"""
    if pn in c.sc:
        v = c.sc[pn]
        kind = c.kinds[pn]
        if kind == "b": return [("false", not_(v), P(0)), ("true", v, P(1))]
        w = int(kind[1:])
        if kind[0] == "u": return [("", TRUE, v)]
        return [(">=0", lt(v, 2 ** (w - 1)), v), ("<0", ge(v, 2 ** (w - 1)), v - 2 ** w)]
    return cases_num(c.os(pn), c.Vo(pn))


def is_signed_value(s, v, x, W):
    """(s, v) is the integer x, when |x| is below 2^W"""
    return and_(or_(lt(x, 1), ge(x, E(W)), and_(eq(s, 1), eq(v, x))), or_(lt(-x, 1), ge(-x, E(W)), and_(eq(s, NEG), eq(v, -x))),
                or_(ne(x, 0), and_(eq(s, 0), eq(v, 0))))


def exact(ins, out, f, kinds={}, W=None):
    """out is exactly f(ins), whenever that integer is representable; out is canonical in any case"""
    def post(c):
        c.kinds = kinds
        ps = []
        for combo in itertools.product(*[cases_in(c, i) for i in ins]):
            cond = and_(*[x[1] for x in combo])
            x = f(*[x[2] for x in combo])
            w = W(c) if W else c.W
            ps.append(("exact for operands (%s)" % ",".join(y[0] for y in combo), implies(cond, is_signed_value(c.ns(out), c.Vn(out), x, w))))
        ps.append(("canonical result", canon(c.ns(out), c.Vn(out))))
        return ps
    return post


def canonpre(*names):
    return lambda c: [canon(c.os(n), c.Vo(n)) for n in names]


def sunit(name, cpp, params, props, ins, **kw):
    kw.setdefault("pre", canonpre(*[n for n in ins]))
    kw["opts"] = dict(kw.get("opts") or {}, unitprop=1)
    unit(name, cpp, params, props, **kw)


# every built-in type: name, C++ type, width, signedness ('b' bool), name in the demangled code
INTS = [(s, t, w, "u%d" % w, cn) for s, t, w, cn in UTYPES if s != "b"] + [(s, t, w, "s%d" % w, {"i8": "signed char", "i16": "short", "i32": "int", "i64": "long", "ll": "long long", "ch": "char", "wc": "wchar_t"}[s]) for s, t, w in STYPES] + [("b", "bool", 1, "b", "bool")]

# ---------------------------------------------------------------- C22 constructors
for s, t, w, kd, cn in INTS:
    unit("sctor_" + s, "void H(S* a, %s v) { new (a) S(v); }" % t, [("a", "sret:S"), ("v", "i%d" % w)], ["C22", "C21", "C23"], mods=["a"],
         lib=r"^Aesi<{N}ul>::Aesi<%s>\(%s\)$" % (cn, cn), uses=["ctor_ull"], post=exact(["v"], "a", lambda v: v, {"v": kd}))
# ---------------------------------------------------------------- C17
sunit("sadd", "S* H(S& a, const S& b) { return &(a += b); }", [("a", "S"), ("b", "cS")], ["C17", "C21", "C23"], ["a", "b"], mods=["a"], ret="ref:a", alias=[("a", "b")],
      lib=r"^operator\+=\(Aesi<{N}ul>&, Aesi<{N}ul> const&\)$", uses=["add", "sub", "cmp", "isZero"], cands=relcands, post=exact(["a", "b"], "a", lambda x, y: x + y))
sunit("ssub", "S* H(S& a, const S& b) { return &(a -= b); }", [("a", "S"), ("b", "cS")], ["C17", "C21", "C23"], ["a", "b"], mods=["a"], ret="ref:a", alias=[("a", "b")],
      lib=r"^operator-=\(Aesi<{N}ul>&, Aesi<{N}ul> const&\)$", uses=["add", "sub", "cmp", "isZero"], cands=relcands, post=exact(["a", "b"], "a", lambda x, y: x - y))
sunit("splus", "void H(S& o, const S& a, const S& b) { o = a + b; }", [("o", "S"), ("a", "cS"), ("b", "cS")], ["C17", "C21", "C23"], ["a", "b"], mods=["o"], alias=[("a", "b"), ("o", "a"), ("o", "b")],
      uses=["sadd"], post=exact(["a", "b"], "o", lambda x, y: x + y))
sunit("sminus", "void H(S& o, const S& a, const S& b) { o = a - b; }", [("o", "S"), ("a", "cS"), ("b", "cS")], ["C17", "C21", "C23"], ["a", "b"], mods=["o"], alias=[("a", "b"), ("o", "a"), ("o", "b")],
      uses=["ssub"], post=exact(["a", "b"], "o", lambda x, y: x - y))
sunit("sneg", "void H(S& o, const S& a) { o = -a; }", [("o", "S"), ("a", "cS")], ["C17", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")], post=exact(["a"], "o", lambda x: -x))
sunit("spos", "void H(S& o, const S& a) { o = +a; }", [("o", "S"), ("a", "cS")], ["C17", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")], post=exact(["a"], "o", lambda x: x))
sunit("sinverse", "void H(S& a) { a.inverse(); }", [("a", "S")], ["C17", "C21", "C23"], ["a"], mods=["a"], post=exact(["a"], "a", lambda x: -x))
for nm, op, d in (("inc", "++", 1), ("dec", "--", -1)):
    sunit("s" + nm, "S* H(S& a) { return &%sa; }" % op, [("a", "S")], ["C17", "C21", "C23"], ["a"], mods=["a"], ret="ref:a", lib=r"^Aesi<{N}ul>::operator%s\(\)$" % op.replace("+", r"\+"),
          uses=["inc", "dec", "isZero", "ctor_u32"], post=exact(["a"], "a", lambda x, d=d: x + d), cands=relcands)

    def oldpost(c, d=d):
        return exact(["a"], "a", lambda x: x + d)(c) + [("old value is returned: " + l, b) for l, b in exact(["a"], "o", lambda x: x)(c)]
    sunit("spost" + nm, "void H(S& o, S& a) { o = a%s; }" % op, [("o", "S"), ("a", "S")], ["C17", "C21", "C23"], ["a"], mods=["o", "a"], uses=["s" + nm], post=oldpost)
# operands of built-in types convert first
for s, t, w, kd, cn in INTS:
    if s not in ("i8", "i32", "i64", "u32", "u64"): continue
    for nm, op, f in (("add", "+", lambda x, y: x + y), ("sub", "-", lambda x, y: x - y)):
        sunit("s%seq_%s" % (nm, s), "S* H(S& a, %s v) { return &(a %s= v); }" % (t, op), [("a", "S"), ("v", "i%d" % w)], ["C17", "C21", "C23"], ["a"], mods=["a"], ret="ref:a",
              uses=["s" + nm, "sctor_" + s], post=exact(["a", "v"], "a", f, {"v": kd}))
        sunit("s%sv_%s" % (nm, s), "void H(S& o, const S& a, %s v) { o = a %s v; }" % (t, op), [("o", "S"), ("a", "cS"), ("v", "i%d" % w)], ["C17", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")],
              uses=["s" + nm, "sctor_" + s], post=exact(["a", "v"], "o", f, {"v": kd}))
        sunit("sv%s_%s" % (nm, s), "void H(S& o, const S& a, %s v) { o = v %s a; }" % (t, op), [("o", "S"), ("a", "cS"), ("v", "i%d" % w)], ["C17", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")],
              uses=["s" + nm, "sctor_" + s], post=exact(["v", "a"], "o", f, {"v": kd}))

# ---------------------------------------------------------------- C18
times = lambda x, y: x * y
sunit("smul", "S* H(S& a, const S& b) { return &(a *= b); }", [("a", "S"), ("b", "cS")], ["C18", "C21", "C23"], ["a", "b"], mods=["a"], ret="ref:a", alias=[("a", "b")],
      lib=r"^operator\*=\(Aesi<{N}ul>&, Aesi<{N}ul> const&\)$", uses=["mul", "filled"], cands=relcands, post=exact(["a", "b"], "a", times))
sunit("stimes", "void H(S& o, const S& a, const S& b) { o = a * b; }", [("o", "S"), ("a", "cS"), ("b", "cS")], ["C18", "C21", "C23"], ["a", "b"], mods=["o"], alias=[("a", "b"), ("o", "a"), ("o", "b")],
      uses=["smul"], post=exact(["a", "b"], "o", times))
for s, t, w, kd, cn in INTS:
    sunit("smuleq_" + s, "S* H(S& a, %s v) { return &(a *= v); }" % t, [("a", "S"), ("v", "i%d" % w)], ["C18", "C21", "C23"], ["a"], mods=["a"], ret="ref:a",
          uses=["muleq_ull", "filled"], cands=relcands, post=exact(["a", "v"], "a", times, {"v": kd}))
    sunit("stimesv_" + s, "void H(S& o, const S& a, %s v) { o = a * v; }" % t, [("o", "S"), ("a", "cS"), ("v", "i%d" % w)], ["C18", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")],
          uses=["muleq_ull", "filled"], cands=relcands, post=exact(["a", "v"], "o", times, {"v": kd}))
    if s in ("i32", "i64", "u64"):
        sunit("svtimes_" + s, "void H(S& o, const S& a, %s v) { o = v * a; }" % t, [("o", "S"), ("a", "cS"), ("v", "i%d" % w)], ["C18", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")],
              uses=["smul", "sctor_" + s], post=exact(["v", "a"], "o", times, {"v": kd}))


# ---------------------------------------------------------------- C19
def divs(ins, outs, kinds={}):
    """n = q*d + r with |r| < |d|, q truncated toward zero, r of the sign of n"""
    def post(c):
        c.kinds = kinds
        ps = []
        for (a, ca, n), (b, cb, d) in itertools.product(cases_in(c, ins[0]), cases_in(c, ins[1])):
            if d is P(0) or d == P(0): continue
            an, ad = (-n if a in ("-", "<0") else n), (-d if b in ("-", "<0") else d)
            cond = and_(ca, cb, ge(ad, 1))
            neg = (a in ("-", "<0")) != (b in ("-", "<0"))
            x = {"q": (-1 if neg else 1) * quo(an, ad), "r": (-1 if a in ("-", "<0") else 1) * rem(an, ad)}
            for o, w in outs:
                ps.append(("%s for operands (%s,%s)" % ({"q": "truncated quotient", "r": "remainder with the sign of the dividend"}[w], a, b),
                           implies(cond, is_signed_value(c.ns(o), c.Vn(o), x[w], c.W))))
        for o, w in outs: ps.append(("canonical result " + o, canon(c.ns(o), c.Vn(o))))
        return ps
    return post


sunit("sdivide", "void H(const S& n, const S& d, S& q, S& r) { S::divide(n, d, q, r); }", [("n", "cS"), ("d", "cS"), ("q", "S"), ("r", "S")], ["C19", "C21", "C23"], ["n", "d"], mods=["q", "r"], alias=[("n", "d")],
      lib=r"^Aesi<{N}ul>::divide\(Aesi<{N}ul> const&, Aesi<{N}ul> const&, Aesi<{N}ul>&, Aesi<{N}ul>&\)$", uses=["divide", "filled"], cands=relcands, post=divs(["n", "d"], [("q", "q"), ("r", "r")]))
for nm, op, k in (("quo", "/", "q"), ("rem", "%", "r")):
    sunit("s%seq" % nm, "S* H(S& a, const S& b) { return &(a %s= b); }" % op, [("a", "S"), ("b", "cS")], ["C19", "C21", "C23"], ["a", "b"], mods=["a"], ret="ref:a", alias=[("a", "b")],
          lib=r"^operator\%s=\(Aesi<{N}ul>&, Aesi<{N}ul> const&\)$" % op, uses=["%seq" % nm, "filled"], cands=relcands, post=divs(["a", "b"], [("a", k)]))
    sunit("s" + nm, "void H(S& o, const S& a, const S& b) { o = a %s b; }" % op, [("o", "S"), ("a", "cS"), ("b", "cS")], ["C19", "C21", "C23"], ["a", "b"], mods=["o"], alias=[("a", "b"), ("o", "a"), ("o", "b")],
          uses=["s%seq" % nm], post=divs(["a", "b"], [("o", k)]))
    for s, t, w, kd, cn in INTS:
        sunit("s%seq_%s" % (nm, s), "S* H(S& a, %s v) { return &(a %s= v); }" % (t, op), [("a", "S"), ("v", "i%d" % w)], ["C19", "C21", "C23"], ["a"], mods=["a"], ret="ref:a",
              uses=["%seq" % nm, "filled", "ctor_ull"], cands=relcands, post=divs(["a", "v"], [("a", k)], {"v": kd}))
        sunit("s%sv_%s" % (nm, s), "void H(S& o, const S& a, %s v) { o = a %s v; }" % (t, op), [("o", "S"), ("a", "cS"), ("v", "i%d" % w)], ["C19", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")],
              uses=["%seq" % nm, "filled", "ctor_ull"], cands=relcands, post=divs(["a", "v"], [("o", k)], {"v": kd}))
        if s in ("i32", "i64", "u64"):
            sunit("sv%s_%s" % (nm, s), "void H(S& o, const S& a, %s v) { o = v %s a; }" % (t, op), [("o", "S"), ("a", "cS"), ("v", "i%d" % w)], ["C19", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")],
                  uses=["s%seq" % nm, "sctor_" + s], post=divs(["v", "a"], [("o", k)], {"v": kd}))


# ---------------------------------------------------------------- C20
from .spec_unsigned import relop, OPS, cmppost


def scmp(ins, kinds={}, f=None):
    """f(result) holds exactly when the integers are in the relation, for each relation"""
    def post(c):
        c.kinds = kinds
        ps = []
        for (a, ca, x), (b, cb, y) in itertools.product(cases_in(c, ins[0]), cases_in(c, ins[1])):
            cond = and_(ca, cb)
            if f:
                ps.append(("numeric relation for operands (%s,%s)" % (a, b), implies(cond, iff(c.ret, relop(f, x, y)))))
            else:
                ps.append(("numeric order of operands (%s,%s)" % (a, b), implies(cond, and_(iff(eq(c.ret, 0), eq(x, y)), iff(eq(c.ret, 1), lt(x, y)), iff(eq(c.ret, 2), gt(x, y))))))
        return ps
    return post


sunit("scmp", "unsigned H(const S& a, const S& b) { return (unsigned) a.compareTo(b); }", [("a", "cS"), ("b", "cS")], ["C20", "C23"], ["a", "b"], ret="i32", alias=[("a", "b")],
      lib=r"^Aesi<{N}ul>::compareTo\(Aesi<{N}ul> const&\) const$", uses=["cmp"], cands=suffcands, post=scmp(["a", "b"]))
for o, op in OPS:
    sunit("sop_" + o, "bool H(const S& a, const S& b) { return a %s b; }" % op, [("a", "cS"), ("b", "cS")], ["C20", "C23"], ["a", "b"], ret="i1", alias=[("a", "b")], uses=["scmp"], cands=suffcands, post=scmp(["a", "b"], f=o))
for s, t, w, kd, cn in INTS:
    lib = {"i32": "int", "i64": "long", "u32": "unsigned int", "u64": "unsigned long", "u8": "unsigned char", "i8": "signed char"}.get(s)
    sunit("scmpv_" + s, "unsigned H(const S& a, %s v) { return (unsigned) a.compareTo(v); }" % t, [("a", "cS"), ("v", "i%d" % w)], ["C20", "C23"], ["a"], ret="i32", uses=["cmpv_u64"], cands=suffcands, post=scmp(["a", "v"], {"v": kd}))
    for o, op in OPS:
        if not lib and o not in ("eq", "lt"): continue
        sunit("sop_%s_%s" % (o, s), "bool H(const S& a, %s v) { return a %s v; }" % (t, op), [("a", "cS"), ("v", "i%d" % w)], ["C20", "C23"], ["a"], ret="i1", uses=["cmpv_u64"], cands=suffcands, post=scmp(["a", "v"], {"v": kd}, f=o))
        if lib: sunit("sopr_%s_%s" % (o, s), "bool H(const S& a, %s v) { return v %s a; }" % (t, op), [("a", "cS"), ("v", "i%d" % w)], ["C20", "C23"], ["a"], ret="i1", uses=["cmpv_u64"], cands=suffcands, post=scmp(["v", "a"], {"v": kd}, f=o))

# ---------------------------------------------------------------- C22 conversions


def scastpost(w, signed):
    def post(c):
        s, v = c.os("a"), c.Vo("a")
        x = V(c.o("a"), P(2))
        if w == 1: return [("nonzero", implies(lt(v, E(64)), iff(c.ret, ne(v, 0))))]
        h = 2 ** (w - 1) if signed else 2 ** w
        ps = [("zero", implies(eq(s, 0), eq(c.ret, 0))), ("positive value that fits", implies(and_(eq(s, 1), lt(v, h)), eq(c.ret, v))),
              ("positive value modulo the width", implies(eq(s, 1), eq(c.ret, mod(x, 2 ** w))))]
        if signed:
            ps += [("negative value that fits", implies(and_(eq(s, NEG), le(v, h)), eq(c.ret, 2 ** w - v))),
                   ("negative value modulo the width", implies(eq(s, NEG), eq(mod(c.ret + x, 2 ** w), 0)))]
        return ps
    return post


for s, t, w, kd, cn in INTS:
    sunit("scast_" + s, "uint%d_t H(const S& a) { return (uint%d_t) a.integralCast<%s>(); }" % (max(w, 8), max(w, 8), t) if w > 1 else "bool H(const S& a) { return a.integralCast<bool>(); }",
          [("a", "cS")], ["C22", "C23"], ["a"], ret="i%d" % w, cands=digitcands, opts=dict(vlow=1), post=scastpost(w, kd[0] == "s"))


def spc(dst):
    """dst: count of destination blocks; src count is the other"""
    def post(c):
        n, o = c.Vn("o"), c.Vo("a")
        d, s = (c.M, c.N) if dst == "M" else (c.N, c.M)
        return [("canonical result", canon(c.ns("o"), n)), ("keeps the low digits", cong(n - o, 32 * d)), ("keeps a magnitude that fits", implies(lt(o, E(32 * d)), eq(n, o))), ("sign of a nonzero result", implies(ge(n, 1), eq(c.ns("o"), c.os("a"))))]
    return post


for rel in ("lt", "gt"):
    sunit("spcast_" + rel, "void H(SM& o, const S& a) { o = a.precisionCast<BITSM>(); }", [("o", "SM"), ("a", "cS")], ["C22", "C21", "C23"], ["a"], mods=["o"], rel=rel, uses=["filledM_" + rel],
          cands=both(copycands, suffcands), opts=dict(vsplit=1, vtop=1), post=spc("M"))
    unit("cmpM_" + rel, "unsigned H(const UM& a, const UM& b) { return (unsigned) a.compareTo(b); }", [("a", "cUM"), ("b", "cUM")], ["C20", "C23"], ret="i32", rel=rel, cands=suffcands,
         lib=r"Aeu<{M}ul>::compareTo<{M}ul>\(Aeu<{M}ul> const&\) const$", post=lambda c: cmppost((c.ret, c.Vo("a")), c.Vo("b")))
    sunit("scmp_" + rel, "unsigned H(const S& a, const SM& b) { return (unsigned) a.compareTo(b); }", [("a", "cS"), ("b", "cSM")], ["C20", "C23"], ["a", "b"], ret="i32", rel=rel,
          uses=["cmp", "cmpM_" + rel, "filled", "filledM_" + rel], cands=both(copycands, suffcands), opts=dict(vsplit=1, vtop=1), post=scmp(["a", "b"]))
sunit("sswap", "void H(S& a, S& b) { a.swap(b); }", [("a", "S"), ("b", "S")], ["C22", "C21", "C23"], ["a", "b"], mods=["a", "b"], alias=[("a", "b")],
              post=lambda c: [("first receives second", and_(eqr(c.n("a"), c.o("b"), 0, c.N), eq(c.ns("a"), c.os("b")))), ("second receives first", and_(eqr(c.n("b"), c.o("a"), 0, c.N), eq(c.ns("b"), c.os("a"))))])
sunit("scopy", "void H(S& o, const S& a) { S t(a); o = t; }", [("o", "S"), ("a", "cS")], ["C22", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")],
      post=lambda c: [("same blocks", eqr(c.n("o"), c.o("a"), 0, c.N)), ("same sign", eq(c.ns("o"), c.os("a")))])
sunit("sunsigned", "void H(U& o, const S& a) { o = a.unsignedCast(); }", [("o", "U"), ("a", "cS")], ["C22", "C21", "C23"], ["a"], mods=["o"], post=lambda c: [("the magnitude", eqr(c.n("o"), c.o("a"), 0, c.N))])
unit("sfromu", "void H(S* o, const U& a) { new (o) S(a); }", [("o", "sret:S"), ("a", "cU")], ["C22", "C21", "C23"], mods=["o"], uses=["filled"], cands=suffcands,
     post=lambda c: [("same magnitude", eqr(c.n("o"), c.o("a"), 0, c.N)), ("canonical result", canon(c.ns("o"), c.Vn("o"))), ("not negative", ne(c.ns("o"), NEG))])
for s, t, w, kd, cn in INTS:
    unit("sassign_" + s, "void H(S& a, %s v) { a = v; }" % t, [("a", "S"), ("v", "i%d" % w)], ["C22", "C21", "C23"], mods=["a"], uses=["sctor_" + s], post=exact(["v"], "a", lambda v: v, {"v": kd}))

# ---------------------------------------------------------------- C21 observers
from .units import UNITS


def known(base):
    """what callers of a function with a contract know of it (its '~' clauses are consequences kept to its own proof)"""
    f = base.kw["post"]
    return (lambda c: [x for x in f(c) if x[0][0] != "~"]) if base.lib else f


for nm, sg in (("isZero", 0), ("isPositive", 1), ("isNegative", NEG)):
    sunit("s" + nm, "bool H(const S& a) { return a.%s(); }" % nm, [("a", "cS")], ["C21", "C23"], ["a"], ret="i1",
          post=lambda c, sg=sg: [("exactly for that sign", iff(c.ret, eq(c.os("a"), sg))), ("agrees with the magnitude", iff(eq(c.os("a"), 0), eq(c.Vo("a"), 0)))])
for nm, r, ps, op in (("isOdd", "i1", [], "bool"), ("isEven", "i1", [], "bool"), ("bitCount", "i64", [], "size_t"), ("byteCount", "i64", [], "size_t"), ("filledBlocksNumber", "i64", [], "size_t"),
                      ("getBit", "i1", [("i", "i64")], "bool"), ("getByte", "i8", [("i", "i64")], "uint8_t"), ("getBlock", "i32", [("i", "i64")], "uint32_t")):
    base = UNITS["filled" if nm == "filledBlocksNumber" else nm]
    sunit("s" + nm, "%s H(const S& a%s) { return a.%s(%s); }" % (op, ", size_t i" if ps else "", nm, "i" if ps else ""), [("a", "cS")] + ps, ["C21", "C08" if not ps else "C07", "C23"], ["a"], ret=r,
          uses=[base.name] if base.lib else [], cands=base.kw.get("cands"), opts=base.kw.get("opts"), post=known(base))
for nm, w, t in (("setBit", 1, "bool"), ("setByte", 8, "uint8_t"), ("setBlock", 32, "uint32_t")):
    base = UNITS[nm]
    unit("s" + nm, "void H(S& a, size_t i, %s v) { a.%s(i, v); }" % (t, nm), [("a", "S"), ("i", "i64"), ("v", "i%d" % w)], ["C07", "C23"], mods=["a"], opts=base.kw.get("opts") or {},
         uses=[base.name] if base.lib else [], post=lambda c, f=known(base): f(c) + [("sign is kept", eq(c.ns("a"), c.os("a")))])

# ---------------------------------------------------------------- C11
sunit("ssquareRoot", "void H(S& o, const S& a) { o = a.squareRoot(); }", [("o", "S"), ("a", "cS")], ["C11", "C21", "C23"], ["a"], mods=["o"], alias=[("o", "a")], uses=["squareRoot", "ctor_ull"],
      post=lambda c: [("root of a positive number", implies(eq(c.os("a"), 1), and_(le(c.Vn("o") * c.Vn("o"), c.Vo("a")), lt(c.Vo("a"), c.Vn("o") * c.Vn("o") + 2 * c.Vn("o") + 1), ne(c.ns("o"), NEG)))),
                      ("zero otherwise", implies(ne(c.os("a"), 1), eq(c.ns("o"), 0))), ("canonical result", canon(c.ns("o"), c.Vn("o")))])
unit("spower2", "void H(S& o, size_t e) { o = S::power2(e); }", [("o", "S"), ("e", "i64")], ["C11", "C21", "C23"], mods=["o"], uses=["power2", "filled"], cands=suffcands,
     post=lambda c: [("the power of two below the precision", implies(lt(c.a("e"), c.W), eq(c.Vn("o"), Es(c.a("e"), c.W)))), ("zero from the precision on", implies(ge(c.a("e"), c.W), eq(c.Vn("o"), 0))),
                     ("canonical and not negative", and_(canon(c.ns("o"), c.Vn("o")), ne(c.ns("o"), NEG)))])
