"""Contracts of unsigned multiplication, division and shifts."""
from .units import unit
from .term import *
from .cands import *
from .spec_unsigned import modpost, relcands, suffcands, digitcands, UW
from .exec import Exec
from .mathfn import *

B = 2 ** 32


def idxphis(li): return [x for x in intphis(li) if li.phis[x] >= 32]


def arrays(ex, li): return [k for k in regions(ex, li) if elt(ex, k) == 4]


def mulcands(ex, li):
    """multiply-accumulate invariants for schoolbook products"""
    out = []
    arrs = arrays(ex, li)
    ph = intphis(li)
    outs = [o for o in outers(li)]
    tops = [o for o in outs if li.outer[o].hi is not None]
    params = {v for v in ex.ctx.sc.values()}
    outs = [o for o in outs if not any(a.kind in ("sel", "div") for a in li.outer[o].atoms()) and li.outer[o] not in params]
    for k in arrs:
        if k not in li.mod: continue
        n = count(ex, k)
        for i in idxphis(li):
            for q in arrs:
                if q == k: continue
                for s in outs + [None]:
                    def whole(lv, k=k, i=i, q=q, s=s, p=None, n=n):
                        return cong(V(lv.arr(k), n) - V(lv.arrL(k), n) - V(lv.arr(p), lv[i]) * V(lv.arr(q), lv[s] if s else n), 32 * n)
                    for p in arrs:
                        if p != k: out.append(("%s += %s[0..%s] * %s[0..%s]" % (k[0], p[0], i, q[0], s), lambda lv, w=whole, p=p: w(lv, p=p)))
                    if s is None or li.outer[s].hi is not None and li.outer[s].hi < 2 ** 64:
                        pass
            for d in pathconsts(ex, li):
                out.append(("%s zero from %s+%s" % (k[0], i, d), lambda lv, k=k, i=i, d=d, n=n: eqr(lv.arr(k), aconst(0), lv[i] + lv[d], n)))
                for s in outs:
                    out.append(("%s zero from %s+%s" % (k[0], s, d), lambda lv, k=k, s=s, d=d, n=n: eqr(lv.arr(k), aconst(0), lv[s] + lv[d], n)))
            for s in outs:
                # rest of the accumulator still zero
                out.append(("%s zero from %s+%s" % (k[0], i, s), lambda lv, k=k, i=i, s=s, n=n: eqr(lv.arr(k), aconst(0), lv[i] + lv[s], n)))
                out.append(("%s+%s <= N" % (i, s), lambda lv, i=i, s=s, n=n: le(lv[i] + lv[s], n)))
            for off in outs:
                for off2 in outs:
                    if off != off2: out.append(("%s zero from %s+%s" % (k[0], off, off2), lambda lv, k=k, off=off, off2=off2, n=n: eqr(lv.arr(k), aconst(0), lv[off] + lv[off2], n)))
            for c in ph:
                if c == i: continue
                for t in tops:
                    if li.outer[t].hi >= 2 ** 33: continue
                    for off in outs:
                        for q in arrs:
                            if q == k: continue
                            out.append(("%s + %s = %s*%s[0..%s] at %s" % (k[0], c, t, q[0], i, off),
                                        lambda lv, k=k, c=c, t=t, q=q, i=i, off=off, n=n: cong(V(lv.arr(k), n) + lv[c] * E(32 * (lv[i] + lv[off])) - V(lv.arrL(k), n) - lv[t] * E(32 * lv[off]) * V(lv.arr(q), lv[i]), 32 * n)))
                        for f in tops:
                            if f == t: continue

                            def dig(lv, k=k, c=c, t=t, f=f, i=i, off=off, n=n):
                                b = V(lv.arr(k), n) - V(lv.arrL(k), n) + lv[c] * E(32 * (lv[i] + lv[off]))
                                u = lv[t] * E(32 * lv[off])
                                return and_(implies(eq(lv[i], 0), cong(b, 32 * n)), implies(eq(lv[i], 1), cong(b - u * mod(lv[f], B), 32 * n)),
                                            implies(eq(lv[i], 2), cong(b - u * lv[f], 32 * n)), le(lv[i], 2))
                            if li.outer[f].hi >= 2 ** 63: out.append(("%s + %s = %s*digits of %s below %s at %s" % (k[0], c, t, f, i, off), dig))
                for t in tops:
                    if li.outer[t].hi >= 2 ** 33: continue
                    out.append(("%s[0..%s] + %s = %s * old" % (k[0], i, c, t), lambda lv, k=k, i=i, c=c, t=t: eq(V(lv.arr(k), lv[i]) + lv[c] * E(32 * lv[i]), lv[t] * V(lv.arrL(k), lv[i]))))
            for f in tops:
                if li.outer[f].hi < 2 ** 33: continue
                for p in arrs:
                    if p != k: out.append(("%s += %s[0..%s]*%s" % (k[0], p[0], i, f), lambda lv, k=k, p=p, i=i, f=f, n=n: cong(V(lv.arr(k), n) - V(lv.arrL(k), n) - V(lv.arr(p), lv[i]) * lv[f], 32 * n)))
    return out, []


CN = {"u8": "unsigned char", "u16": "unsigned short", "u32": "unsigned int", "u64": "unsigned long", "ull": "unsigned long long"}


# ---------------------------------------------------------------- C02
unit("mul", "U* H(U& a, const U& b) { return &(a *= b); }", [("a", "U"), ("b", "cU")], ["C02", "C23"], mods=["a"], ret="ref:a", alias=[("a", "b")], uses=["filled"],
     lib=r"^operator\*=\(Aeu<{N}ul>&, Aeu<{N}ul> const&\)$", post=modpost(lambda c: c.Vn("a") - c.Vo("a") * c.Vo("b")), cands=mulcands, opts=dict(vsplit=1))
unit("times", "void H(U& o, const U& a, const U& b) { o = a * b; }", [("o", "U"), ("a", "cU"), ("b", "cU")], ["C02", "C23"], mods=["o"], uses=["mul"],
     alias=[("a", "b"), ("o", "a"), ("o", "b")], post=modpost(lambda c: c.Vn("o") - c.Vo("a") * c.Vo("b")), cands=mulcands)
for s, t, w in UW:
    unit("muleq_" + s, "U* H(U& a, %s v) { return &(a *= v); }" % t, [("a", "U"), ("v", "i%d" % w)], ["C02", "C23"], mods=["a"], ret="ref:a", uses=["filled"],
         lib=r"Aeu<{N}ul>& operator\*=<%s>\(Aeu<{N}ul>&, %s\)" % (CN[s], CN[s]) if s in ("ull", "u32") else None,
         post=modpost(lambda c: c.Vn("a") - c.Vo("a") * c.a("v")), cands=mulcands, opts=dict(vsplit=1))
    unit("timesv_" + s, "void H(U& o, U& a, %s v) { o = a * v; }" % t, [("o", "U"), ("a", "U"), ("v", "i%d" % w)], ["C02", "C23"], mods=["o"], uses=["filled"],
         alias=[("o", "a")], post=modpost(lambda c: c.Vn("o") - c.Vo("a") * c.a("v")), cands=mulcands, opts=dict(vsplit=1))
    unit("vtimes_" + s, "void H(U& o, const U& a, %s v) { o = v * a; }" % t, [("o", "U"), ("a", "cU"), ("v", "i%d" % w)], ["C02", "C23"], mods=["o"], uses=["mul"],
         alias=[("o", "a")], post=modpost(lambda c: c.Vn("o") - c.Vo("a") * c.a("v")), cands=relcands)


# ---------------------------------------------------------------- C05
def pathval(lv, p, lim=32):
    """value of p fixed by the path (case split already made by the executor)"""
    p = P(p)
    if p.isconst: return p.const
    for f in lv.st.facts:
        if f.op == "eq":
            for s in (f.args[0], -f.args[0]):
                d = p - s
                if d.isconst and 0 <= d.const < lim: return d.const
    raise Undefined()


def shiftcands(ex, li):
    out = []
    sv = ex.ctx.sc.get("s")
    if sv is None: return out, []

    def amount(lv):
        s = term_cs(P(sv))
        q = div(s, 32)
        return q, pathval(lv, s - 32 * q)
    for k in arrays(ex, li):
        if k not in li.mod: continue
        n = count(ex, k)
        for i in idxphis(li):
            def shl(lv, k=k, i=i, n=n):
                q, r = amount(lv)
                o, a, x = lv.arrL(k), lv.arr(k), lv[i]
                top = div(sel(o, x - q - 1), 2 ** (32 - r)) * E(32 * x) if r else 0
                return cong(V(a, n) - V(a, x) - 2 ** r * E(32 * q) * (V(o, n) - V(o, x - q)) - top, 32 * n)

            def shr(lv, k=k, i=i, n=n):
                q, r = amount(lv)
                o, a, x = lv.arrL(k), lv.arr(k), lv[i]
                top = mod(sel(o, x + q), 2 ** r) * E(32 * (x + q)) - mod(sel(o, q), 2 ** r) * E(32 * q) if r else 0
                return eq(2 ** r * V(a, x) * E(32 * q), V(o, x + q) - V(o, q) + top)
            def moved(lv, k=k, i=i, n=n):
                q, r = amount(lv)
                return TRUE if r else eqr(lv.arr(k), lv.arrL(k), lv[i], n, -q)
            out.append(("%s = old moved up from %s" % (k[0], i), moved))
            out.append(("%s = old << s from %s" % (k[0], i), shl))
            def down(lv, k=k, i=i, n=n):
                q, r = amount(lv)
                return TRUE if r else eqr(lv.arr(k), lv.arrL(k), 0, lv[i], q)
            out.append(("%s = old moved down below %s" % (k[0], i), down))
            out.append(("%s = old >> s below %s" % (k[0], i), shr))
            out.append(("%s >= s/32 + [s%%32>0]" % i, lambda lv, i=i: ge(lv[i], amount(lv)[0] + (1 if amount(lv)[1] else 0))))
            out.append(("%s >= s/32" % i, lambda lv, i=i: ge(lv[i], amount(lv)[0])))
            out.append(("%s <= s/32" % i, lambda lv, i=i: le(lv[i], amount(lv)[0])))
            out.append(("%s + s/32 <= N" % i, lambda lv, i=i, n=n: le(lv[i] + amount(lv)[0], n)))
            out.append(("%s + s/32 + [s%%32>0] <= N" % i, lambda lv, i=i, n=n: le(lv[i] + amount(lv)[0] + (1 if amount(lv)[1] else 0), n)))
            out.append(("%s + s/32 >= N" % i, lambda lv, i=i, n=n: ge(lv[i] + amount(lv)[0], n)))
            out.append(("%s zero from N-s/32 below %s" % (k[0], i), lambda lv, k=k, i=i, n=n: eqr(lv.arr(k), aconst(0), n - amount(lv)[0], lv[i])))
            out.append(("%s unchanged below N-s/32" % k[0], lambda lv, k=k, n=n: eqr(lv.arr(k), lv.arrL(k), 0, n - amount(lv)[0])))
    return out, []


from .term import _cs as term_cs
from .term import CONC


def Es(s, w):
    """2^s; 0 for concrete amounts outside a concrete precision w (the clauses that use it do not apply then)"""
    s, w = P(s), P(w)
    if CONC[0]: s, w = term_cs(s), term_cs(w)
    if s.isconst and w.isconst and s.const >= w.const: return P(0)
    return E(s)




def shlpost(t):
    def post(c):
        s = c.a("s")
        return [("amounts of at least the precision leave the value", implies(ge(s, c.W), eqr(c.n(t), c.o("a"), 0, c.N))),
                ("value is exact modulo 2^precision", implies(lt(s, c.W), cong(c.Vn(t) - c.Vo("a") * Es(s, c.W), c.W)))]
    return post


def shrpost(t):
    def post(c):
        s = c.a("s")
        return [("amounts of at least the precision leave the value", implies(ge(s, c.W), eqr(c.n(t), c.o("a"), 0, c.N))),
                ("value is the floor of the quotient by 2^amount", implies(lt(s, c.W), and_(le(c.Vn(t) * Es(s, c.W), c.Vo("a")), lt(c.Vo("a"), (c.Vn(t) + 1) * Es(s, c.W)))))]
    return post


for s, t, w in UW:
    if s == "ull": continue
    # an 8-bit amount cannot reach the precision from 8 blocks on: the code has two shapes
    for tag, rel in ((("", "ge8"), ("_n", "le7")) if s == "u8" else (("", "eq"),)):
        for nm, op, post in (("shl", "<<", shlpost), ("shr", ">>", shrpost)):
            unit("%seq_%s%s" % (nm, s, tag), "U* H(U& a, %s s) { return &(a %s= s); }" % (t, op), [("a", "U"), ("s", "i%d" % w)], ["C05", "C23"], mods=["a"], ret="ref:a",
                 lib=r"Aeu<{N}ul>& operator%s=<%s>\(Aeu<{N}ul>&, %s\)" % (op, CN[s], CN[s]), post=post("a"), cands=shiftcands, opts=dict(vsplit=1, normfirst=1, heavy=1 + (nm == "shr")), rel=rel)
            unit("%s_%s%s" % (nm, s, tag), "void H(U& o, const U& a, %s s) { o = a %s s; }" % (t, op), [("o", "U"), ("a", "cU"), ("s", "i%d" % w)], ["C05", "C23"], mods=["o"],
                 uses=["%seq_%s%s" % (nm, s, tag)], alias=[("o", "a")], post=post("o"), cands=shiftcands, rel=rel)


# ---------------------------------------------------------------- C03
def euclid(c, n, d, q, r):
    return [("quotient by a nonzero divisor", implies(ge(d, 1), eq(q, quo(n, d)))),
            ("remainder by a nonzero divisor", implies(ge(d, 1), eq(r, rem(n, d)))),
            ("equal operands give 1 and 0", implies(and_(ge(d, 1), eq(n, d)), and_(eq(q, 1), eq(r, 0))))]


def divcands(ex, li):
    """bit-serial division: n = q*d + r*2^i + (n mod 2^i)"""
    out = []
    arrs = arrays(ex, li)
    for q in arrs:
        if q not in li.mod: continue
        for r in arrs:
            if r == q or r not in li.mod: continue
            for n in arrs:
                if n in li.mod: continue
                for d in arrs:
                    if d in li.mod or d == n: continue
                    for i in idxphis(li):
                        c = count(ex, q)
                        out.append(("%s = %s*%s + %s*2^%s + low bits" % (n[0], q[0], d[0], r[0], i),
                                    lambda lv, q=q, r=r, n=n, d=d, i=i, c=c: eq(V(lv.arr(n), c), V(lv.arr(q), c) * V(lv.arr(d), c) + V(lv.arr(r), c) * E(lv[i]) + low(lv.arr(n), lv[i]))))
    for q in arrs:
        if q not in li.mod: continue
        c = count(ex, q)
        for i in idxphis(li):
            out.append(("%s multiple of 2^%s" % (q[0], i), lambda lv, q=q, i=i, c=c: cong(V(lv.arr(q), c), lv[i])))
        for d in arrs:
            if d not in li.mod: out.append(("%s < %s" % (q[0], d[0]), lambda lv, q=q, d=d, c=c: implies(ge(V(lv.arr(d), c), 1), lt(V(lv.arr(q), c), V(lv.arr(d), c)))))
    return out, []


def divcands2(ex, li): return divcands(ex, li)[0] + digitcands(ex, li)[0], []


DIVLIB = r"^Aeu<{N}ul>::divide\(Aeu<{N}ul> const&, Aeu<{N}ul> const&, Aeu<{N}ul>&, Aeu<{N}ul>&\)$"
DIVPAR = [("n", "cU"), ("d", "cU"), ("q", "U"), ("r", "U")]
DIVUSE = ["cmp", "shleq_u32", "setBit", "getBit", "sub", "filled"]
unit("divide", "void H(const U& n, const U& d, U& q, U& r) { U::divide(n, d, q, r); }", DIVPAR, ["C03", "C23"], mods=["q", "r"],
     alias=[("n", "d")], uses=DIVUSE, lib=DIVLIB, cands=divcands2, opts=dict(small=1, early=1, bsplit=1, heavy=1), post=lambda c: euclid(c, c.Vo("n"), c.Vo("d"), c.Vn("q"), c.Vn("r")))
unit("divide2", "void H(const U& n, const U& d, U& q, U& r) { const auto p = U::divide(n, d); q = p.first; r = p.second; }", DIVPAR, ["C03", "C23"], mods=["q", "r"],
     alias=[("n", "d"), ("n", "q"), ("n", "r"), ("d", "q"), ("d", "r")], uses=["divide"], cands=divcands2, post=lambda c: euclid(c, c.Vo("n"), c.Vo("d"), c.Vn("q"), c.Vn("r")))
for nm, op, f in (("quo", "/", quo), ("rem", "%", rem)):
    unit(nm, "void H(U& o, const U& a, const U& b) { o = a %s b; }" % op, [("o", "U"), ("a", "cU"), ("b", "cU")], ["C03", "C23"], mods=["o"], alias=[("a", "b"), ("o", "a"), ("o", "b")],
         uses=["divide"], cands=divcands2, post=lambda c, f=f, nm=nm: [("is the %s" % nm, implies(ge(c.Vo("b"), 1), eq(c.Vn("o"), f(c.Vo("a"), c.Vo("b")))))])
    unit(nm + "eq", "U* H(U& a, const U& b) { return &(a %s= b); }" % op, [("a", "U"), ("b", "cU")], ["C03", "C23"], mods=["a"], ret="ref:a", alias=[("a", "b")],
         lib=r"^operator\%s=\(Aeu<{N}ul>&, Aeu<{N}ul> const&\)$" % op,
         uses=["divide"], cands=divcands2, post=lambda c, f=f, nm=nm: [("is the %s" % nm, implies(ge(c.Vo("b"), 1), eq(c.Vn("a"), f(c.Vo("a"), c.Vo("b")))))])
