"""Mathematical functions on nonnegative integers used in specifications, with the facts about them that proofs may use.

Every function is total: outside its natural domain it is 0.  The lemmas are stated in lemmas/Lemmas.lean."""
import itertools, math
from .term import *
from .term import ONE
from . import smt, term


def _c(args):
    out = []
    for x in args:
        x = P(x)
        if term.CONC[0]: x = term._cs(x)
        out.append(x)
    return out, all(x.isconst for x in out)


def _define(name, f):
    def g(*args):
        xs, k = _c(args)
        if k: return P(f(*[x.const for x in xs]))
        return fn(name, *xs)
    declare_fn(name, 0, None)
    FN_MK[name] = g
    return g


def _definea(name, f, lo=0, hi=None):
    """a function of an array and of integers"""
    def g(a, *args):
        xs, k = _c(args)
        if a.kind == "lit":
            if not k: raise Undefined()
            return P(f(a.args[0], *[x.const for x in xs]))
        return fn(name, a, *xs)
    declare_fn(name, lo, hi)
    FN_MK[name] = g
    return g


quo = _define("quo", lambda a, d: a // d if d >= 1 and a >= 0 else 0)
rem = _define("rem", lambda a, d: a % d if d >= 1 and a >= 0 else 0)
gcd_ = _define("gcd", lambda a, b: math.gcd(a, b) if a >= 0 and b >= 0 else 0)
# b^e mod m
pm = _define("pm", lambda b, e, m: pow(b, e, m) if e >= 0 and b >= 0 and m >= 1 else 0)


def squares(co, add):
    """a product of two numbers below m is below m^2"""
    two = [mo for mo in co.monos if mo is not ONE and mo.e is None and sum(k for _, k in mo.f) == 2 and all(a.lo is not None and a.lo >= 0 for a, _ in mo.f)]
    sq = [mo.f[0][0] for mo in two if len(mo.f) == 1]
    for mo in two:
        x, y = pa(mo.f[0][0]), pa(mo.f[-1][0])
        for m in sq:
            m = pa(m)
            if m is x and m is y: continue
            add("square_mono", implies(and_(le(x, m - 1), le(y, m - 1)), le(x * y, m * m - 1)))


def means(co, add):
    """x + q <= 2 z + 1 implies x (q + 1) <= (z + 1)^2"""
    two = [mo for mo in co.monos if mo is not ONE and mo.e is None and sum(k for _, k in mo.f) == 2 and all(a.lo is not None and a.lo >= 0 for a, _ in mo.f)]
    sq = [pa(mo.f[0][0]) for mo in two if len(mo.f) == 1]
    for mo in two:
        if len(mo.f) == 1: continue
        for x, q in itertools.permutations([pa(a) for a, _ in mo.f]):
            for z in sq:
                if z is x: add("far_factor", implies(ge(q, x + 3), ge(x * q, x * x + 3 * x)))
                add("amgm", implies(le(x + q, 2 * z + 1), le(x * q + x, z * z + 2 * z + 1)))
    es = [a for a in co.atoms if a.kind == "E"]
    for x in es:
        if any(a.kind == "div" and a.args[1] == 2 for m, _ in x.args[0].t if m is not ONE for a, _ in m.f) and len(x.args[0].t) == 1 and x.args[0].t[0][1] == 1:
            add("E_mono", implies(ge(x.args[0], 0), ge(E(2 * x.args[0]), pa(x))))
    for x in es:
        for y in es:
            if 2 * x.args[0] is y.args[0]: add("E_square", implies(ge(x.args[0], 32), ge(pa(y), 2 ** 32 * pa(x))))


def hook(co, add, sels, Vs, Es, opts):
    if opts.get("sqmono"): squares(co, add)
    if opts.get("amgm"): means(co, add)
    fs = {}
    for a in list(co.atoms):
        if a.kind == "fn" and a.args[0] in ("quo", "rem", "gcd", "pm"): fs.setdefault(a.args[0], []).append(a)
    if not fs: return
    for x in dict.fromkeys(y.args[1:] for y in fs.get("quo", []) + fs.get("rem", [])):
        a, d = x
        q, r = quo(a, d), rem(a, d)
        add("euclid", implies(and_(ge(d, 1), ge(a, 0)), and_(eq(a, q * d + r), ge(q, 0), ge(r, 0), le(r, d - 1))))
        add("rem_small", implies(and_(ge(a, 0), lt(a, d)), and_(eq(r, a), eq(q, 0))))
    for n in ("quo", "rem", "gcd", "pm"):
        at = fs.get(n, [])
        pr = [(x, y) for i, x in enumerate(at) for y in at[i + 1:]]
        for x, y in pr[:15]:
            add("fun_cong", implies(and_(*[eq(u, v) for u, v in zip(x.args[1:], y.args[1:])]), eq(pa(x), pa(y))))
    rems = {x.args[1:] for x in fs.get("rem", [])}
    for g in fs.get("gcd", []):
        a, b = g.args[1:]
        add("gcd_zero", implies(and_(eq(b, 0), ge(a, 0)), eq(pa(g), a)))
        add("gcd_zero", implies(and_(eq(a, 0), ge(b, 0)), eq(pa(g), b)))
        for x in (a, b):
            if (x, pa(g)) in {y.args[1:] for y in fs.get("quo", [])}: add("gcd_divides", implies(and_(ge(a, 0), ge(b, 0), ge(a + b, 1)), eq(x, quo(x, pa(g)) * pa(g))))
        add("gcd_pos", implies(and_(ge(a, 0), ge(b, 0), ge(a + b, 1)), ge(pa(g), 1)))
        for x, y in ((a, b), (b, a)):
            if (x, y) in rems: add("gcd_rem", implies(and_(ge(y, 1), ge(x, 0)), eq(pa(g), gcd_(y, rem(x, y)))))
        if (b, a) not in {h.args[1:] for h in fs["gcd"]} and not opts.get("nocomm") and b.id != a.id and not any(h.args[1:] == (b, a) for h in fs["gcd"]):
            if opts.get("gcdcomm"): add("gcd_comm", eq(pa(g), gcd_(b, a)))
        elif b is not a: add("gcd_comm", eq(pa(g), gcd_(b, a)))
    made = co.__dict__.setdefault("pm_made", set())
    base = [p for p in fs.get("pm", []) if p not in made]
    known = {p for p in fs.get("pm", [])}
    for i, p in enumerate(base[:6]):
        for q in base[:i + 1]:
            if p.args[1] is not q.args[1] or p.args[3] is not q.args[3]: continue
            b, e, m = p.args[1:]
            f = q.args[2]
            s = pm(b, e + f, m)
            for mo, _ in s.t:
                for a, _k in mo.f:
                    if a.kind == "fn" and a not in known: made.add(a)
            add("pm_mul", implies(and_(ge(m, 1), ge(b, 0), ge(e, 0), ge(f, 0)), eq(rem(pa(p) * pa(q), m), s)))
    for p in base:
        b, e, m = p.args[1:]
        add("pm_zero", implies(and_(ge(m, 1), ge(b, 0), eq(e, 0)), eq(pa(p), rem(P(1), m))))
        add("pm_one", implies(and_(ge(m, 1), ge(b, 0), eq(e, 1)), eq(pa(p), rem(b, m))))
    for p in fs.get("pm", []):
        b, e, m = p.args[1:]
        add("pm_range", implies(and_(ge(m, 1), ge(b, 0), ge(e, 0)), and_(ge(pa(p), 0), le(pa(p), m - 1))))


smt.LEMMA_HOOKS.append(hook)
