"""Contracts of the number-theoretic functions: gcd, lcm, powm, squareRoot, power2."""
import itertools
from .units import unit
from . import nat
from .term import *
from .cands import *
from .mathfn import *
from .spec_arith import *
from .spec_unsigned import relcands, digitcands, suffcands
from .spec_conv import both


def roarrs(ex, li):
    out = {pn for pn, kind in ex.contract.params if kind.startswith("sret:")}
    return [k for k in arrays(ex, li) if k not in li.mod and k[0] in ex.pobj and k[0] not in out]


def modarrs(ex, li): return [k for k in arrays(ex, li) if k in li.mod]


def value(k): return lambda lv: V(lv.arr(k), lv.N)


# ---------------------------------------------------------------- C09
def gcdcands(ex, li):
    out, meas = [], []
    ro = roarrs(ex, li)
    ms = modarrs(ex, li)
    pairs = [(x, y) for x in ro for y in ro if x != y] or [(x, x) for x in ro]
    for k in ms: meas.append(("value of %s" % k[0], lambda lv, k=k: V(lv.arr(k), lv.N)))
    for g in ms:
        for r in ms:
            if g == r: continue
            for a, b in pairs[:1]:
                out.append(("gcd(%s,%s) = gcd(%s,%s)" % (g[0], r[0], a[0], b[0]), lambda lv, g=g, r=r, a=a, b=b: eq(gcd_(V(lv.arr(g), lv.N), V(lv.arr(r), lv.N)), gcd_(V(lv.arr(a), lv.N), V(lv.arr(b), lv.N)))))
            out.append(("%s < %s or zero" % (r[0], g[0]), lambda lv, g=g, r=r: or_(eq(V(lv.arr(g), lv.N), 0), lt(V(lv.arr(r), lv.N), V(lv.arr(g), lv.N)))))
    return out, meas


DZ = dict(uses=DIVUSE, lib=DIVLIB, cands=divcands2)


def euclidz(c, n, d, q, r):
    return [("n = q*d + r, also for divisor 0", eq(n, q * d + r)), ("remainder below a nonzero divisor", implies(ge(d, 1), lt(r, d)))] + euclid(c, n, d, q, r)


unit("dividez", "void H(const U& n, const U& d, U& q, U& r) { U::divide(n, d, q, r); }", DIVPAR, ["C09"], mods=["q", "r"], alias=[("n", "d")],
     opts=dict(small=1, early=1, bsplit=1, heavy=1), post=lambda c: euclidz(c, c.Vo("n"), c.Vo("d"), c.Vn("q"), c.Vn("r")), **DZ)
unit("gcd", "void H(U& o, const U& a, const U& b) { o = U::gcd(a, b); }", [("o", "sret:U"), ("a", "cU"), ("b", "cU")], ["C09", "C23"], mods=["o"], alias=[("a", "b")],
     lib=r"^Aeu<{N}ul>::gcd\(Aeu<{N}ul> const&, Aeu<{N}ul> const&\)$", uses=["dividez", "cmp", "cmpv_u32"], cands=both(gcdcands, digitcands, suffcands), opts=dict(gcdcomm=1),
     post=lambda c: [("is the greatest common divisor", implies(ge(c.Vo("a") + c.Vo("b"), 1), eq(c.Vn("o"), gcd_(c.Vo("a"), c.Vo("b")))))])


def bezcands(ex, li):
    """L*x + S*y = g and L*x + S*y = g*q + r (modulo 2^precision), where L is the larger operand"""
    out, meas = gcdcands(ex, li)
    ro = roarrs(ex, li)
    ms = modarrs(ex, li)
    vv = lambda lv, k: V(lv.arr(k), lv.N)

    def big(a, b, f): return lambda lv: implies(gt(vv(lv, a), vv(lv, b)), f(lv))

    def small(a, b, f): return lambda lv: implies(le(vv(lv, a), vv(lv, b)), f(lv))
    cs = []
    for x, y in itertools.permutations(ms, 2):
        rest = [g for g in ms if g not in (x, y)]
        for g in rest:
            cs.append((x, y, g, lambda lv, g=g: vv(lv, g), g[0]))
            for q in rest:
                if q == g or repr(q) < repr(g): continue
                for r in rest:
                    if r not in (g, q): cs.append((x, y, g, lambda lv, g=g, q=q, r=r: vv(lv, g) * vv(lv, q) + vv(lv, r), "%s*%s + %s" % (g[0], q[0], r[0])))
    a, b = (ro + ro)[:2] if ro else (None, None)
    if a is None: return out, meas
    if a == b: out += [("%s = 0" % k[0], lambda lv, k=k: eq(vv(lv, k), 0)) for k in ms] + [("%s = 1" % k[0], lambda lv, k=k: eq(vv(lv, k), 1)) for k in ms] + [("%s = %s" % (k[0], a[0]), lambda lv, k=k: eq(vv(lv, k), vv(lv, a))) for k in ms]
    for x, y, g, f, nm in cs:
        def eqn(lv, L, S, x=x, y=y, f=f): return cong(vv(lv, L) * vv(lv, x) + vv(lv, S) * vv(lv, y) - f(lv), 32 * lv.N)
        if a == b: out.append(("%s*(%s + %s) = %s" % (a[0], x[0], y[0], nm), lambda lv, e=eqn: e(lv, a, a)))
        else:
            out.append(("%s*%s + %s*%s = %s if %s is larger" % (a[0], x[0], b[0], y[0], nm, a[0]), big(a, b, lambda lv, e=eqn: e(lv, a, b))))
            out.append(("%s*%s + %s*%s = %s unless %s is larger" % (b[0], x[0], a[0], y[0], nm, a[0]), small(a, b, lambda lv, e=eqn: e(lv, b, a))))
    return out, meas


unit("bezout", "void H(U& o, const U& a, const U& b, U& x, U& y) { o = U::gcd(a, b, x, y); }", [("o", "sret:U"), ("a", "cU"), ("b", "cU"), ("x", "U"), ("y", "U")], ["C09", "C23"], mods=["o", "x", "y"], alias=[("a", "b")],
     lib=r"^Aeu<{N}ul>::gcd\(Aeu<{N}ul> const&, Aeu<{N}ul> const&, Aeu<{N}ul>&, Aeu<{N}ul>&\)$", uses=["dividez", "cmp", "cmpv_u32", "mul", "sub", "ctor_u32"], cands=both(bezcands, digitcands, suffcands), opts=dict(gcdcomm=1, heavy=1),
     post=lambda c: [("is the greatest common divisor", implies(ge(c.Vo("a") + c.Vo("b"), 1), eq(c.Vn("o"), gcd_(c.Vo("a"), c.Vo("b"))))),
                     ("coefficients", implies(ge(c.Vo("a") + c.Vo("b"), 1), cong(c.Vo("a") * c.Vn("x") + c.Vo("b") * c.Vn("y") - c.Vn("o"), c.W)))])


def lcmpost(c):
    a, b, o = c.Vo("a"), c.Vo("b"), c.Vn("o")
    g = gcd_(a, b)
    return [("low digits of a*b/gcd", implies(ge(a + b, 1), cong(o - quo(a, g) * b, c.W))),
            ("is the least common multiple when it fits", implies(and_(ge(a + b, 1), lt(quo(a, g) * b, E(c.W))), eq(o * g, a * b)))]


unit("lcm", "void H(U& o, const U& a, const U& b) { o = U::lcm(a, b); }", [("o", "sret:U"), ("a", "cU"), ("b", "cU")], ["C09", "C23"], mods=["o"], alias=[("a", "b")],
     lib=r"^Aeu<{N}ul>::lcm\(Aeu<{N}ul> const&, Aeu<{N}ul> const&\)$", uses=["dividez", "gcd", "mul"], cands=relcands, opts=dict(gcdcomm=1, small=1), post=lcmpost)


# ---------------------------------------------------------------- C10
def powcands(ex, li):
    """output = base^(low bits of the power) mod m, b = base^(2^i) mod m"""
    out = []
    ro, ms = roarrs(ex, li), modarrs(ex, li)
    vv = lambda lv, k: V(lv.arr(k), count(ex, k))
    for i in idxphis(li):
        for e in ro:
            out.append(("a block of %s from %s-1 on is nonzero" % (e[0], i), lambda lv, e=e, i=i: implies(ge(lv[i], 1), ge(vv(lv, e), E(32 * div(lv[i] - 1, 32))))))
            out.append(("%s within %s" % (i, e[0]), lambda lv, e=e, i=i: le(lv[i], 32 * count(ex, e))))
        for b in ro:
            for m in ro:
                if m == b and len(ro) > 1 and len(ex.pobj) > 2 and not ex.sc: continue
                for x in ms:
                    out.append(("%s = %s^(2^%s) mod %s" % (x[0], b[0], i, m[0]), lambda lv, x=x, b=b, m=m, i=i: eq(vv(lv, x), pm(vv(lv, b), E(lv[i]), vv(lv, m)))))
                    for e in ro:
                        out.append(("%s = %s^(%s mod 2^%s) mod %s" % (x[0], b[0], e[0], i, m[0]), lambda lv, x=x, b=b, m=m, i=i, e=e: eq(vv(lv, x), pm(vv(lv, b), low(lv.arr(e), lv[i]), vv(lv, m)))))
    return out, [("bits of %s above %s" % (e[0], i), lambda lv, i=i, e=e: 32 * count(ex, e) - lv[i]) for i in idxphis(li) for e in ro]


def gen_powm(rng, ct, N, M):
    ne = M if dict(ct.params)["e"] == "cUM" else N
    m = rng.choice([1, 2, 3, 2 ** (16 * N), rng.randrange(1, 2 ** (16 * N) + 1), rng.randrange(1, 2 ** 16)])
    b = rng.choice([0, 1, m, m - 1, m + 1, nat.rnd_value(rng, N, [m])])
    e = rng.choice([0, 1, 2, 3, rng.getrandbits(33), rng.getrandbits(64), rng.getrandbits(32 * ne - 1)])
    return dict(o=(None, nat.to_limbs(0, N)), b=(None, nat.to_limbs(b, N)), e=(None, nat.to_limbs(e, ne)), m=(None, nat.to_limbs(m, N)))


def powcase(tag, rel, kind, uses, cpp):
    unit("powm" + tag, cpp, [("o", "sret:U"), ("b", "cU"), ("e", kind), ("m", "cU")], ["C10", "C23"], mods=["o"], rel=rel,
         alias=[("b", "e"), ("b", "m"), ("e", "m"), ("b", "e", "m")] if kind == "cU" else [("b", "m")],
         uses=uses, cands=both(powcands, digitcands, suffcands), opts=dict(small=1, heavy=1, sqmono=1, vtop=1, conc=2),
         gen=gen_powm, pre=lambda c: [ge(c.Vo("m"), 1), le(c.Vo("m") * c.Vo("m"), E(c.W))],
         post=lambda c: [("is base^power mod modulo", eq(c.Vn("o"), pm(c.Vo("b"), c.Vo("e"), c.Vo("m"))))])


powcase("", "eq", "cU", ["dividez", "mul", "filled", "getBit", "ctor_u32", "cmpv_u32"], "void H(U& o, const U& b, const U& e, const U& m) { o = U::powm(b, e, m); }")
powcase("_t", "eq", "cU", ["dividez", "mul", "filled", "getBit", "ctor_u32", "cmpv_u32"], "void H(U& o, const U& b, const U& e, const U& m) { o = U::powm<BITS>(b, e, m); }")
for rel in ("lt", "gt"):
    powcase("_" + rel, rel, "cUM", ["dividez", "mul", "filledM_" + rel, "getBitM_" + rel, "ctor_u32", "cmpv_u32"], "void H(U& o, const U& b, const UM& e, const U& m) { o = U::powm(b, e, m); }")


# ---------------------------------------------------------------- C11
unit("power2", "void H(U& o, size_t e) { o = U::power2(e); }", [("o", "sret:U"), ("e", "i64")], ["C11", "C23"], mods=["o"], uses=["setBit"], cands=relcands,
     lib=r"^Aeu<{N}ul>::power2\(unsigned long\)$",
     post=lambda c: [("the power of two below the precision", implies(lt(c.a("e"), c.W), eq(c.Vn("o"), Es(c.a("e"), c.W)))), ("zero from the precision on", implies(ge(c.a("e"), c.W), eq(c.Vn("o"), 0)))])


def rootcands(ex, li):
    """Newton iteration from above: (y+1)^2 > n, y <= 2^(precision/2), y >= 1 unless n = 0"""
    out, meas = [], []
    vv = lambda lv, k: V(lv.arr(k), count(ex, k))
    for y in modarrs(ex, li):
        meas.append(("value of " + y[0], lambda lv, y=y: vv(lv, y)))
        out.append(("%s at most the root of 2^precision" % y[0], lambda lv, y=y: le(vv(lv, y), E(16 * lv.N))))
        for n in roarrs(ex, li):
            out.append(("(%s+1)^2 > %s" % (y[0], n[0]), lambda lv, y=y, n=n: lt(vv(lv, n), vv(lv, y) * vv(lv, y) + 2 * vv(lv, y) + 1)))
            out.append(("%s positive for positive %s" % (y[0], n[0]), lambda lv, y=y, n=n: implies(ge(vv(lv, n), 1), ge(vv(lv, y), 1))))
            out.append(("%s at most 1 for zero %s" % (y[0], n[0]), lambda lv, y=y, n=n: implies(le(vv(lv, n), 0), le(vv(lv, y), 1))))
    return out, meas


unit("squareRoot", "void H(U& o, const U& a) { o = a.squareRoot(); }", [("o", "sret:U"), ("a", "cU")], ["C11", "C23"], mods=["o"], lib=r"^Aeu<{N}ul>::squareRoot\(\) const$",
     uses=["bitCount", "power2", "dividez", "add", "shreq_u32", "cmp"], cands=rootcands, opts=dict(amgm=1, small=1, heavy=1, vtop=1),
     post=lambda c: [("square at most the number", le(c.Vn("o") * c.Vn("o"), c.Vo("a"))), ("next square above it", lt(c.Vo("a"), c.Vn("o") * c.Vn("o") + 2 * c.Vn("o") + 1))])
