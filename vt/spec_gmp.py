"""C25: numbers constructed from GMP integers"""
from .units import unit, clone
from .term import *
from . import nat, extern
from .spec_signed import canon

GMP = ("AESI_GMP_INTEGRATION",)
A = ("contracts assumed for mpz_sizeinbase, mpz_export (GMP), operator new and operator delete; GMP integers have at most 2^37 bits",)


def gen(rng, ct, N, M):
    W = 32 * N
    t = rng.random()
    if t < .1: v = 0
    elif t < .3: v = 1 << rng.randrange(4 * W)
    elif t < .45: v = (1 << rng.randrange(1, 4 * W)) - 1
    elif t < .6: v = rng.getrandbits(W) << rng.choice([0, W, W // 2, 2 * W])
    elif t < .7: v = nat.rnd_value(rng, N, [])
    else: v = rng.getrandbits(rng.randrange(1, 4 * W))
    vals = {}
    for pn, kind in ct.params:
        k, ro = nat.kindof(kind)
        if k == "Z":
            n = (v.bit_length() + 63) // 64 * 2
            vals[pn] = (0 if v == 0 else rng.choice([1, -1]), nat.to_limbs(v, n))
        elif k in ("U", "S"): vals[pn] = (rng.choice([0, 1, -1]), [rng.getrandbits(32) for _ in range(N)])
        else: return None
    return vals


def guard(b, f):
    """b implies f(), where f() need not be defined otherwise"""
    return TRUE if b is FALSE else implies(b, f())


def pairs(c, ex, li):
    from . import cands as C
    ks = C.regions(ex, li)
    out = []
    for k in ks:
        if k not in li.mod: continue
        for q in ks:
            if q in li.mod or C.elt(ex, q) != C.elt(ex, k): continue
            for x, w in li.phis.items():
                if w < 32: continue
                out.append(("%s equals %s" % (k[0], q[0]), lambda lv, k=k, q=q: eqr(lv.arr(k), lv.arr(q), 0, lv.count(k))))
                out.append(("%s equals %s below %s" % (k[0], q[0], x), lambda lv, k=k, q=q, x=x: eqr(lv.arr(k), lv.arr(q), 0, lv[x])))
                out.append(("%s equals %s below %s and its end" % (k[0], q[0], x), lambda lv, k=k, q=q, x=x: guard(le(lv[x], lv.count(k)), lambda: eqr(lv.arr(k), lv.arr(q), 0, lv[x]))))
                out.append(("%s equals %s once %s is past its end" % (k[0], q[0], x), lambda lv, k=k, q=q, x=x: guard(ge(lv[x], lv.count(k)), lambda: eqr(lv.arr(k), lv.arr(q), 0, lv.count(k)))))
                out.append(("%s equals %s from %s" % (k[0], q[0], x), lambda lv, k=k, q=q, x=x: eqr(lv.arr(k), lv.arr(q), lv[x], lv.count(k))))
    return out, []


def low(c, m): return cong(c.Vn("o") - m, c.W)


O = dict(vsplit=True, osplit=1)
CD = lambda ex, li: pairs(None, ex, li)


def spost(c):
    return [("the magnitude is |z| modulo 2^precision", low(c, c.a("z.mag"))),
            ("zero has sign Zero", implies(eq(c.Vn("o"), 0), eq(c.ns("o"), 0))),
            ("the sign is the sign of z", implies(ne(c.Vn("o"), 0), eq(c.ns("o"), c.a("z.sgn"))))]


def upost(c): return [("the value is |z| modulo 2^precision", low(c, c.a("z.mag")))]


for d, tag, props in ((GMP, "_z", ["C25"]), (GMP + ("AESI_UNSAFE",), "_zus", ["C24"])):
    kw = dict(defs=d, gen=gen, assumes=A, cands=CD, opts=O)
    iz = clone("isZero", d, tag)
    unit("ufrom" + tag, "void H(U* o, const mpz_class* z) { new(o) U(*z); }", [("o", "sret:U"), ("z", "cZ")], props, post=upost,
         lib=r"^Aeu<{N}ul>::Aeu\(__gmp_expr<__mpz_struct \[1\]", **kw)
    u = ["ufrom" + tag, iz]
    unit("uassign" + tag, "void H(U* o, const mpz_class* z) { *o = *z; }", [("o", "U"), ("z", "cZ")], props, mods=("o",), post=upost, uses=u, **kw)
    unit("sfrom" + tag, "void H(S* o, const mpz_class* z) { new(o) S(*z); }", [("o", "sret:S"), ("z", "cZ")], props, uses=u, post=spost, **kw)
    unit("sassign" + tag, "void H(S* o, const mpz_class* z) { *o = *z; }", [("o", "S"), ("z", "cZ")], props, uses=u, mods=("o",), post=spost, **kw)
