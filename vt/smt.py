"""Discharging obligations: lemma instantiation, linearisation, z3."""
import z3, time, itertools
from . import term as T
from .term import *

B32 = 2 ** 32
STATS = dict(queries=0, solver_s=0.0, lemma_instances=0, cong_goals=0, unknown=0)

# ---------------------------------------------------------------- translation
_zi = {}
_zb = {}
_uf = {}


def uf(name, n):
    k = (name, n)
    f = _uf.get(k)
    if f is None:
        f = z3.Function(name, *([z3.IntSort()] * (n + 1)))
        _uf[k] = f
    return f


def zatom(a):
    r = _zi.get(a)
    if r is not None: return r
    k = a.kind
    if k == "var": r = z3.Int(a.args[0])
    elif k == "sel": r = uf("sel%d" % a.args[0].id, 1)(zpoly(a.args[1]))
    elif k == "V": r = uf("V%d" % a.args[0].id, 1)(zpoly(a.args[1]))
    elif k == "E": r = uf("E", 1)(zpoly(a.args[0]))
    elif k == "div": r = uf("div_%d" % a.args[1], 1)(zpoly(a.args[0]))
    elif k == "fn":
        nm = a.args[0]
        ar = []
        for x in a.args[1:]:
            if isinstance(x, Arr): nm += "$%d" % x.id
            elif isinstance(x, str): nm += "$" + x
            else: ar.append(zpoly(x))
        r = uf(nm, len(ar))(*ar) if ar else z3.Int(nm)
    _zi[a] = r
    return r


def zmono(m):
    r = _zi.get(m)
    if r is not None: return r
    fs = [zatom(a) for a in m.factors()]
    if m.e is not None: fs.append(zatom(eatom(m.e)))
    r = fs[0]
    mul = uf("mul", 2)
    for x in fs[1:]: r = mul(r, x)
    _zi[m] = r
    return r


def zpoly(p):
    r = _zi.get(p)
    if r is not None: return r
    if p.isconst: r = z3.IntVal(p.const)
    else:
        ts = []
        for m, c in p.t:
            if m is ONE: ts.append(z3.IntVal(c))
            elif c == 1: ts.append(zmono(m))
            else: ts.append(z3.IntVal(c) * zmono(m))
        r = ts[0] if len(ts) == 1 else z3.Sum(ts)
    _zi[p] = r
    return r


def zbool(b):
    r = _zb.get(b)
    if r is not None: return r
    o, a = b.op, b.args
    if o == "true": r = z3.BoolVal(True)
    elif o == "false": r = z3.BoolVal(False)
    elif o == "le": r = zpoly(a[0]) <= 0
    elif o == "eq": r = zpoly(a[0]) == 0
    elif o == "not": r = z3.Not(zbool(a[0]))
    elif o == "and": r = z3.And([zbool(x) for x in a])
    elif o == "or": r = z3.Or([zbool(x) for x in a])
    elif o == "bvar": r = z3.Bool(a[0])
    else: r = z3.Bool("prop%d" % b.id)      # structural: proxied
    _zb[b] = r
    return r


# ---------------------------------------------------------------- collecting
class Coll:
    """atoms, monomials, arrays and structural facts occurring in a set of formulas"""

    def __init__(self):
        self.atoms = {}
        self.monos = {}
        self.bools = set()
        self.structs = {}
        self.arrs = {}
        self.polys = set()

    def poly(self, p):
        if p in self.polys: return
        self.polys.add(p)
        for m, c in p.t:
            if m is ONE or m in self.monos: continue
            self.monos[m] = 1
            for a, k in m.f: self.atom(a)
            if m.e is not None: self.atom(eatom(m.e))

    def atom(self, a):
        if a in self.atoms or a is QV: return
        self.atoms[a] = 1
        for x in a.args:
            if isinstance(x, Poly): self.poly(x)
            elif isinstance(x, Arr): self.arr(x)

    def arr(self, a):
        if a in self.arrs: return
        self.arrs[a] = 1
        for x in a.args:
            if isinstance(x, Poly): self.poly(x)
            elif isinstance(x, Arr): self.arr(x)

    def bool(self, b):
        if b in self.bools: return
        self.bools.add(b)
        o = b.op
        if o in ("le", "eq"): self.poly(b.args[0])
        elif o in ("not", "and", "or"):
            for x in b.args: self.bool(x)
        elif o == "eqr":
            self.structs[b] = 1
            self.arr(b.args[0]); self.arr(b.args[1])
            for x in b.args[2:]: self.poly(x)
        elif o == "cong":
            self.structs[b] = 1
            self.poly(b.args[0]); self.poly(b.args[1])
        elif o == "all":
            self.structs[b] = 1
            self.poly(b.args[0]); self.poly(b.args[1])
            # body is collected on instantiation only, but arrays are noted
            c = Coll(); c.bool(b.args[2])
            for a in c.arrs: self.arr(a)
        elif o in EXTRA_STRUCT:
            self.structs[b] = 1
            for x in b.args:
                if isinstance(x, Poly): self.poly(x)
                elif isinstance(x, Arr): self.arr(x)


EXTRA_STRUCT = set()


def basic_axioms(co, done):
    """range and definition axioms (semantics of the atoms)"""
    out = []
    for a in list(co.atoms):
        if a in done: continue
        done.add(a)
        z = zatom(a)
        if a.kind == "div":
            d = zpoly(a.args[0]) - a.args[1] * z
            out.append(z3.And(d >= 0, d <= a.args[1] - 1))
        if a.lo is not None: out.append(z >= a.lo)
        if a.hi is not None: out.append(z <= a.hi)
        if a.kind == "sel" and a.args[0].kind == "store":
            ar, i, v = a.args[0].args
            out.append(z3.If(zpoly(a.args[1]) == zpoly(i), z == zpoly(v), z == zpoly(sel(ar, a.args[1]))))
            co.poly(sel(ar, a.args[1])); co.poly(v); co.poly(i)
    for m in list(co.monos):
        if m in done: continue
        done.add(m)
        if m.deg >= 2:
            z = zmono(m)
            if m.lo is not None: out.append(z >= m.lo)
            if m.hi is not None: out.append(z <= m.hi)
    return out


# ---------------------------------------------------------------- lemma instances
LEMMA_USE = {}
QMONO = P(QV).t[0][0]
LEMMA_HOOKS = []    # functions(co, add, facts) for user-level lemmas (specs)


def base_of(a):
    while a.kind == "store": a = a.args[0]
    return a


def lemma_round(co, seen, structs_true, opts):
    """one round of ground instantiation; returns new Bool lemmas"""
    out = []

    def add(name, b):
        if b is TRUE or b in seen: return
        seen.add(b)
        LEMMA_USE[name] = LEMMA_USE.get(name, 0) + 1
        STATS["lemma_instances"] += 1
        out.append(b)
    sels = {}
    Vs = {}
    Es = []
    for a in list(co.atoms):
        if a.kind == "sel":
            sels.setdefault(base_of(a.args[0]), {})[a.args[1]] = 1
        elif a.kind == "V": Vs.setdefault(a.args[0], {})[a.args[1]] = 1
        elif a.kind == "E": Es.append(a)
    # V lemmas
    for arr, idx in Vs.items():
        sidx = dict(sels.get(base_of(arr), {}))
        x = arr
        while x.kind == "store":
            sidx[x.args[1]] = 1
            x = x.args[0]
        for i in idx:
            add("V_range", implies(ge(i, 0), lt(V(arr, i), E(32 * i))))
            add("V_nonpos", implies(le(i, 0), eq(V(arr, i), 0)))
            add("V_nonneg", ge(V(arr, i), 0))
            if arr.kind == "store":
                a0, k, v = arr.args
                add("V_store_lo", implies(le(i, k), eq(V(arr, i), V(a0, i))))
                add("V_store_hi", implies(and_(gt(i, k), ge(k, 0)), eq(V(arr, i), V(a0, i) + (v - sel(a0, k)) * E(32 * k))))
            elif arr.kind in ("avar", "const"):
                for k in sidx:
                    d = i - k
                    if d.isconst and d.const in (0, 1):
                        add("V_step", implies(ge(k, 0), eq(V(arr, k + 1), V(arr, k) + sel(arr, k) * E(32 * k))))
                for k in idx:
                    d = i - k
                    if d.isconst and 0 < d.const <= 2:
                        for q in range(d.const):
                            add("V_step", implies(ge(k + q, 0), eq(V(arr, k + q + 1), V(arr, k + q) + sel(arr, k + q) * E(32 * (k + q)))))
                    elif not d.isconst and k is not i:
                        add("V_mono", implies(and_(ge(k, 0), le(k, i)), le(V(arr, k), V(arr, i))))
                        if opts.get("vsplit"): add("V_split", implies(and_(ge(k, 0), le(k, i)), eq(V(arr, i), V(arr, k) + E(32 * k) * fn("Vs", arr, k, i))))
                    if arr.kind == "const" and k is not i:
                        pass
    if opts.get("vlow"):
        # the value is its lowest blocks plus a multiple of the next power
        for arr, idx in Vs.items():
            for k in sels.get(base_of(arr), {}):
                if not k.isconst or k.const < 0: continue
                for i in idx:
                    if not i.isconst: add("V_split", implies(le(k + 1, i), eq(V(arr, i), V(arr, k + 1) + E(32 * k + 32) * fn("Vs", arr, k + 1, i))))
    # structural facts
    allidx = {}
    for b, d in sels.items():
        for i in d: allidx[i] = 1
    for s in list(co.structs):
        if s.op == "eqr":
            a, b, lo, hi, sh = s.args
            ia = dict(sels.get(base_of(a), {}))
            ib = sels.get(base_of(b), {})
            for x in (a, b):
                while x.kind == "store":
                    (ia if x is a else ia)[x.args[1]] = 1
                    x = x.args[0]
            cand = dict(ia)
            for j in ib: cand[j - sh] = 1
            for j in cand:
                add("eqr_elem", or_(not_(s), not_(and_(le(lo, j), lt(j, hi))), eq(sel(a, j), sel(b, j + sh))))
            if opts.get("vtop") and a in Vs and lo - 1 in ia:
                add("V_top", implies(and_(ge(lo, 1), ge(sel(a, lo - 1), 1)), ge(V(a, lo), E(32 * lo - 32))))
            if a in Vs or b in Vs:
                pts = {lo: 1, hi: 1, P(0): 1, P(1): 1, P(2): 1}
                for j in Vs.get(a, {}): pts[j] = 1
                for j in Vs.get(b, {}): pts[j - sh] = 1
                pts = list(pts)
                n = 0
                for x, y in itertools.permutations(pts, 2):
                    d = y - x
                    if d.hi is not None and d.hi <= 0: continue
                    if n > 40: break
                    n += 1
                    if sh.isconst and sh.const == 0:
                        concl = eq(V(a, y) - V(a, x), V(b, y) - V(b, x))
                    else:
                        concl = eq((V(a, y) - V(a, x)) * E(32 * sh), V(b, y + sh) - V(b, x + sh))
                    add("eqr_V", or_(not_(s), not_(and_(le(lo, x), le(x, y), le(y, hi), ge(x, 0), ge(sh, 0))), concl))
        elif s.op == "all":
            lo, hi, body = s.args
            c = Coll(); c.bool(body)
            bases = {base_of(x) for x in c.arrs}
            idx = {}
            for bse in bases:
                for i in sels.get(bse, {}): idx[i] = 1
            if not bases: idx = allidx
            for x in list(c.atoms):
                if x.kind != "sel": continue
                i = x.args[1]
                k = i.coef(QMONO)
                if abs(k) != 1 or i is P(QV): continue
                rest = i - P(QV) * k
                if QV in rest.atoms(): continue
                for j in sels.get(base_of(x.args[0]), {}): idx[(j - rest) * k] = 1
            for i in list(idx)[:24]:
                add("all_inst", or_(not_(s), inst(s, i)))
        elif s.op == "cong":
            p, e = s.args
            w = var("w$%d" % s.id)
            add("cong_witness", or_(not_(s), eq(p, w * E(e))))
            if opts.get("small"): add("cong_small", or_(not_(s), ge(p, E(e)), le(p, -E(e)), eq(p, 0)))
    # powers
    EE = Es[:14]
    for x in EE:
        e = x.args[0]
        add("E_zero", implies(le(e, 0), eq(pa(x), 1)))
        for c in (32, 64):
            add("E_const", implies(ge(e, c), ge(pa(x), 2 ** c)))
            add("E_const", implies(le(e, c), le(pa(x), 2 ** c)))
        add("E_grow", implies(ge(e, 0), ge(pa(x), e + 1)))
    for x, y in itertools.combinations(EE, 2):
        e, f = x.args[0], y.args[0]
        px, py = pa(x), pa(y)
        d = f - e
        if d.isconst and abs(d.const) <= 128:
            if d.const > 0: add("E_step", implies(ge(e, 0), eq(py, 2 ** d.const * px)))
            else: add("E_step", implies(ge(f, 0), eq(px, 2 ** -d.const * py)))
        add("E_mono", implies(le(e, f), le(px, py)))
        add("E_mono", implies(and_(lt(e, f), ge(e, 0)), le(2 * px, py)))
        add("E_mono", implies(le(f, e), le(py, px)))
        add("E_mono", implies(and_(lt(f, e), ge(f, 0)), le(2 * py, px)))
    for x, y in itertools.permutations(EE, 2):
        if not synnonneg(x.args[0]):
            for c in (0, 32, 64):
                z = eatom(x.args[0] + y.args[0]) if False else None
            s = E(x.args[0] + y.args[0])
            if x.id < y.id or synnonneg(y.args[0]):
                at = [k for k in s.atoms() if k.kind == "E"]
                if all(k in co.atoms for k in at):
                    add("E_add", implies(and_(ge(x.args[0], 0), ge(y.args[0], 0)), eq(pa(x) * pa(y), s)))
    # powers at an exponent split into blocks and bits
    divs = {a.args[0]: a for a in co.atoms if a.kind == "div" and a.args[1] == 32}
    for x in EE:
        e = x.args[0]
        if e in divs:
            f = 32 * pa(divs[e])
            for j in range(32): add("E_split", implies(and_(ge(e, 0), eq(e - f, j)), eq(pa(x), 2 ** j * E(f))))
    for a in list(co.atoms):
        if a.kind == "fn" and a.args[0] == "bit":
            arr, i = a.args[1], a.args[2]
            if arr.kind == "store":
                pass
            if opts.get("bitdef"):
                d = div(i, 32)
                r = i - 32 * d
                for j in ([r.const] if r.isconst else range(32)):
                    add("bit_def", implies(eq(r, j), eq(pa(a), mod(div(sel(arr, d), 2 ** j), 2))))
    # the bits below a position
    for a in [x for x in co.atoms if x.kind == "fn" and x.args[0] == "low"]:
        arr, i = a.args[1], a.args[2]
        add("low_range", implies(ge(i, 0), le(pa(a), E(i) - 1)))
        add("low_zero", implies(le(i, 0), eq(pa(a), 0)))
        for k in Vs.get(arr, {}): add("low_block", implies(eq(i, 32 * k), eq(pa(a), V(arr, k))))
    lows = {x.args[1] for x in co.atoms if x.kind == "fn" and x.args[0] == "low"}
    for a in [x for x in co.atoms if x.kind == "fn" and x.args[0] == "bit"]:
        arr, i = a.args[1], a.args[2]
        if arr in lows:
            add("low_step", implies(ge(i, 0), eq(low(arr, i + 1), low(arr, i) + pa(a) * E(i))))
            if opts.get("vtop"):
                add("low_step", implies(and_(ge(i, 0), ge(pa(a), 1)), eq(low(arr, i + 1), low(arr, i) + E(i))))
                add("low_step", implies(and_(ge(i, 0), le(pa(a), 0)), eq(low(arr, i + 1), low(arr, i))))
        if i.isconst and 0 <= i.const < 32:
            for k in Vs.get(arr, {}): add("bit_val", implies(ge(k, 1), eq(pa(a), mod(div(V(arr, k), 2 ** i.const), 2))))
        # the value is a multiple of a higher power of two
        for s in list(co.structs):
            if s.op != "cong": continue
            q, e = s.args
            for k in Vs.get(arr, {}):
                if q is V(arr, k): add("cong_bit", or_(not_(s), not_(and_(le(0, i), lt(i, e), lt(i, 32 * k))), eq(pa(a), 0)))
    # bitwise functions: congruence up to argument order, neutral and absorbing elements
    bw = [a for a in co.atoms if a.kind == "fn" and a.args[0] in ("and", "or", "xor")][:16]
    for a in bw:
        f, x, y = a.args
        z = pa(a)
        for u, v in ((x, y), (y, x)):
            if not u.isconst:
                add("bw_zero", implies(eq(u, 0), eq(z, 0 if f == "and" else v)))
        add("bw_same", implies(eq(x, y), eq(z, 0 if f == "xor" else x)))
        if f == "and": add("bw_range", and_(le(z, x), le(z, y)))
        if f == "or": add("bw_range", and_(ge(z, x), ge(z, y), le(z, x + y)))
        if f == "xor": add("bw_range", le(z, x + y))
    for a, b in itertools.combinations(bw, 2):
        if a.args[0] == b.args[0]:
            add("bw_comm", implies(and_(eq(a.args[1], b.args[2]), eq(a.args[2], b.args[1])), eq(pa(a), pa(b))))
    for h in LEMMA_HOOKS:
        h(co, add, sels, Vs, Es, opts)
    return out


def const_bounds(facts):
    """constants that facts compare single quantities with: poly x -> {c}"""
    out = {}

    def go(f):
        if f.op in ("le", "eq"):
            p = f.args[0]
            ms = [(m, c) for m, c in p.t if m is not ONE]
            if len(ms) == 1 and abs(ms[0][1]) == 1:
                out.setdefault(mkpoly({ms[0][0]: 1}), set()).add(-p.c0 * ms[0][1])
        elif f.op in ("and", "or", "not"):
            for x in f.args: go(x)
    for f in facts: go(f)
    return out


def mono_hints(co, seen, limit=160, consts=None, goals=(), scale=()):
    """monotonicity of products sharing a positive factor"""
    out = []
    consts = consts or {}

    def add(b):
        if b is TRUE or b in seen: return
        seen.add(b)
        STATS["lemma_instances"] += 1
        LEMMA_USE["mul_mono"] = LEMMA_USE.get("mul_mono", 0) + 1
        out.append(b)
    groups = {}
    for m in co.monos:
        if m.deg < 2: continue
        fs = m.factors()
        items = list(dict.fromkeys(fs))
        if m.e is not None: items.append("E")
        for x in items:
            if x == "E":
                xp = E(m.e); rest = mono(None, m.f)
            else:
                xp = pa(x)
                d = dict(m.f); d[x] -= 1
                if not d[x]: del d[x]
                rest = mono(m.e, tuple(sorted(d.items(), key=lambda t: t[0].id)))
            if rest.lo is not None and rest.lo >= 0:
                groups.setdefault(rest, {})[xp] = 1
    for rest, xs in groups.items():
        R = mkpoly({rest: 1})
        xs = list(xs)
        gk = ({abs(g.coef(rest)) for g in goals} | set(scale)) - {0, 1}
        for x in xs:
            for k in gk:
                add(implies(ge(x, k), ge(x * R, k * R)))
                add(implies(lt(x, k), le(x * R, (k - 1) * R)))
            add(implies(le(x, 0), le(x * R, 0)))
            add(implies(ge(x, 0), ge(x * R, 0)))
            add(implies(ge(x, 1), ge(x * R, R)))
            add(implies(le(x, -1), le(x * R, -R)))
            for k in consts.get(x, ()):
                if k not in (-1, 0, 1):
                    add(implies(ge(x, k), ge(x * R, k * R)))
                    add(implies(le(x, k), le(x * R, k * R)))
            if len(out) > limit: return out
        for x, y in itertools.combinations(xs, 2):
            add(implies(lt(x, y), le(x * R + R, y * R)))
            add(implies(lt(y, x), le(y * R + R, x * R)))
            add(implies(eq(x, y), eq(x * R, y * R)))
            if len(out) > limit: return out
    return out


def mdiv(m, d):
    """monomial m / d if it divides (E parts must divide syntactically)"""
    f = dict(m.f)
    for a, k in d.f:
        if f.get(a, 0) < k: return None
        f[a] -= k
        if not f[a]: del f[a]
    e = m.e
    if d.e is not None:
        if e is None: return None
        q = e - d.e
        if not synnonneg(q): return None
        if q.isconst:
            if q.const != 0: return None
            e = None
        else: e = q
    return mono(e, tuple(sorted(f.items(), key=lambda t: t[0].id)))


def mul_poly_mono(p, m):
    return mkpoly({mmul(x, m): c for x, c in p.t})


def atom_subst(a, f):
    """a with atoms replaced by f, also inside quotients and bitwise functions; an atom"""
    b = f.get(a)
    if b is not None: return b
    if a.kind == "div" and any(x in f or x.kind in ("div", "fn") for m, _ in a.args[0].t if m is not ONE for x, _ in m.f):
        d = {}
        for m, c in a.args[0].t:
            if m is not ONE: m = mono_subst(m, f)
            d[m] = d.get(m, 0) + c
        q = mkpoly({m: c for m, c in d.items() if c})
        if q is not a.args[0]:
            r = div(q, a.args[1])
            if len(r.t) == 1 and r.t[0][1] == 1 and r.t[0][0] is not ONE and r.t[0][0].e is None and len(r.t[0][0].f) == 1 and r.t[0][0].f[0][1] == 1: return r.t[0][0].f[0][0]
    return a


def mono_subst(m, f):
    """m with atoms replaced by f (atom -> atom); returns a monomial"""
    d = {}
    ch = False
    for a, k in m.f:
        b = atom_subst(a, f)
        if b is not a: ch = True
        d[b] = d.get(b, 0) + k
    if not ch: return m
    return mono(m.e, tuple(sorted(d.items(), key=lambda t: t[0].id)))


def drop_zeros(eqs, goals):
    """remove the monomials that contain a factor known to be zero; merge atoms known to be equal"""
    rows = list(dict.fromkeys(eqs))
    extra = []
    for _ in range(4):
        f, z = {}, []

        def find(a):
            while a in f: a = f[a]
            return a
        for r in rows:
            if len(r.t) == 1 and r.t[0][0] is not ONE: z.append(r.t[0][0])
            if len(r.t) == 2 and all(m is not ONE and m.e is None and len(m.f) == 1 and m.f[0][1] == 1 and m.f[0][0].kind in ("V", "sel", "fn", "var") for m, _ in r.t) and r.t[0][1] == -r.t[1][1]:
                x, y = find(r.t[0][0].f[0][0]), find(r.t[1][0].f[0][0])
                if x is not y:
                    if x.id < y.id: x, y = y, x
                    f[x] = y
        if not f and not z: break
        for k in list(f): f[k] = find(k)

        def strip(p):
            d = {}
            for m, c in p.t:
                if m is not ONE:
                    if any(m is q or mdiv(m, q) is not None for q in z): continue
                    m = mono_subst(m, f)
                d[m] = d.get(m, 0) + c
            return mkpoly({m: c for m, c in d.items() if c})
        new = {}
        for r in rows:
            q = strip(r)
            if len(r.t) == 1: extra.append(r)
            if not q.t: continue
            # unit coefficient normal form of an equality
            if not q.isconst: new[q] = 1
        goals = [strip(g) for g in goals]
        if list(new) == rows: break
        rows = list(new)
    return list(dict.fromkeys(rows + extra)), goals


def product_closure(eqs, goals, rounds=2, cap=260):
    """multiply known equalities (polys = 0) by monomials so that they share monomials with the goal"""
    rows = list(dict.fromkeys(eqs))
    have = set(rows)
    work = {m for g in goals for m, _ in g.t if m is not ONE}
    work |= {m for r in rows if len(r.t) <= 8 and any(x in work for x, _ in r.t) for m, _ in r.t if m is not ONE and m.deg >= 2}
    base = list(rows)
    for _ in range(rounds):
        new = []
        for r in base:
            if len(r.t) > 14: continue
            for nu, _c in r.t:
                if nu is ONE: continue
                for mu in work:
                    if mu is nu: continue
                    q = mdiv(mu, nu)
                    if q is None or q is ONE: continue
                    p = mul_poly_mono(r, q)
                    if p not in have:
                        have.add(p); new.append(p)
                if len(have) > cap: break
            if len(have) > cap: break
        if not new: break
        rows += new
        w2 = set()
        for p in new:
            for m, _ in p.t:
                if m is not ONE: w2.add(m)
        work = work | w2
        if len(have) > cap: break
    return rows


# ---------------------------------------------------------------- lattice membership
def in_span(rows, goal):
    """is goal an integer combination of rows?  rows, goal: dict mono->int"""
    basis = {}   # pivot -> row

    def reduce_into(v):
        v = dict(v)
        while v:
            p = min(v, key=lambda m: m.id)
            if p not in basis:
                basis[p] = v
                return
            b = basis[p]
            x, y = v[p], b[p]
            if x % y == 0:
                axpy(v, b, -(x // y))
            else:
                # gcd step
                g, s, t = egcd(y, x)
                nb = comb(b, s, v, t)
                nv = comb(v, y // g, b, -(x // g))
                basis[p] = nb
                v = nv
    for r in rows: reduce_into(r)
    v = dict(goal)
    while v:
        p = min(v, key=lambda m: m.id)
        b = basis.get(p)
        if b is None or v[p] % b[p] != 0: return False
        axpy(v, b, -(v[p] // b[p]))
    return True


def axpy(v, b, k):
    for m, c in b.items():
        x = v.get(m, 0) + k * c
        if x: v[m] = x
        else: v.pop(m, None)


def comb(a, s, b, t):
    r = {}
    for m, c in a.items(): r[m] = r.get(m, 0) + s * c
    for m, c in b.items(): r[m] = r.get(m, 0) + t * c
    return {m: c for m, c in r.items() if c}


def egcd(a, b):
    if b == 0: return (a, 1, 0) if a >= 0 else (-a, -1, 0)
    g, s, t = egcd(b, a % b)
    return g, t, s - (a // b) * t


# ---------------------------------------------------------------- queries
SLOW = [1.0, 1.0]      # factor on the time limits; the wall clock time of a second of processor time


def zcheck(zs, timeout):
    """the search times have a heavy tail, so unfinished searches are restarted with another seed"""
    t, t1 = time.time(), time.process_time()
    k = SLOW[0] * max(1.0, min(4.0, SLOW[1]))
    seed, slice_, left = 0, .5 * k, timeout * k
    while True:
        s = z3.SolverFor("QF_UFLIA")
        s.set("timeout", int(min(slice_, left) * 1000))
        if seed: s.set("random_seed", seed)
        s.add(*zs)
        r = s.check()
        left -= slice_
        if r != z3.unknown or left < .2: break
        seed += 1
        slice_ = min(slice_ * 1.4, 2 * k)
    d, d1 = time.time() - t, time.process_time() - t1
    if d > .2: SLOW[1] += .2 * (min(5.0, d / max(d1, .01)) - SLOW[1])
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    if r == z3.unknown: STATS["unknown"] += 1
    return r, s


def flatten(facts):
    out = []
    for f in facts:
        if f.op == "and": out += flatten(f.args)
        elif f is not TRUE: out.append(f)
    return out


_qc = {}


def quick(facts, goal):
    """cheap linear entailment: True / False(not shown)"""
    if goal is TRUE: return True
    key = (tuple(facts), goal)
    r = _qc.get(key)
    if r is not None: return r
    fs = flatten(facts)
    if goal in fs or FALSE in fs:
        r = True
    elif goal is FALSE and not fs:
        r = False
    else:
        co = Coll()
        ng = not_(goal)
        # keep only facts connected to the goal (cone) for speed
        for f in fs: co.bool(f)
        co.bool(ng)
        zs = [zbool(f) for f in fs] + [zbool(ng)]
        done = set()
        while True:
            ax = basic_axioms(co, done)
            if not ax: break
            zs += ax
        rr, _ = zcheck(zs, 2.0)
        r = rr == z3.unsat
    _qc[key] = r
    return r


def elim_equalities(facts, goal):
    """Gaussian elimination of variables through path equalities"""
    facts = flatten(facts)
    mapping = {}
    while True:
        les = {f.args[0] for f in facts if f.op == "le"}
        cand = None
        for f in facts:
            if f.op == "eq": p = f.args[0]
            elif f.op == "le" and (-f.args[0]) in les: p = f.args[0]
            else: continue
            if p.isconst: continue
            best = None
            for m, c in p.t:
                if abs(c) == 1 and m.e is None and len(m.f) == 1 and m.f[0][1] == 1 and m.f[0][0].kind == "var":
                    a = m.f[0][0]
                    rest = p - mkpoly({m: c})
                    cc = Coll(); cc.poly(rest)
                    if a in cc.atoms: continue
                    if best is None or a.id > best[0].id: best = (a, rest * (-c))
            if best: cand = best; break
        if cand is None: return facts, goal
        a, r = cand
        mp = {a: r}
        # keep the range of the eliminated variable
        extra = []
        if a.lo is not None: extra.append(ge(r, a.lo))
        if a.hi is not None: extra.append(le(r, a.hi))
        cache = {}
        f2 = []
        for f in facts:
            g = subst_bool(f, lambda x: mp.get(x), cache)
            if g is TRUE: continue
            f2.append(g)
        facts = list(dict.fromkeys(flatten(f2 + [x for x in extra if x is not TRUE])))
        goal = subst_bool(goal, lambda x: mp.get(x), cache)
        if FALSE in facts: return [FALSE], goal


def unit_prop(facts):
    """drop the disjuncts that the literal facts refute"""
    facts = flatten(facts)
    out, todo = [f for f in facts if f.op != "or"], [f for f in facts if f.op == "or"]
    ch = changed = True
    changed = False
    while ch:
        ch = False
        rest = []
        for f in todo:
            units = tuple(x for x in out if x.op in ("le", "eq", "bvar") or x.op == "not")
            keep = []
            for d in f.args:
                if d in out: keep = None; break
                if d.op in ("le", "eq", "bvar", "not") and quick(units, not_(d)): continue
                keep.append(d)
            if keep is None: ch = changed = True; continue
            if len(keep) == len(f.args): rest.append(f); continue
            ch = changed = True
            g = or_(*keep)
            for x in flatten([g]):
                (rest if x.op == "or" else out).append(x)
        todo = rest
    return list(dict.fromkeys(out + todo)) if changed else facts


def fixed_divs(facts, goal):
    """replace quotients of small range that the literal facts fix"""
    co = Coll()
    for f in facts: co.bool(f)
    co.bool(goal)
    units = tuple(x for x in facts if x.op in ("le", "eq", "not"))
    mp = {}
    for a in list(co.atoms):
        if a.kind != "div" or a.hi is None or a.hi > 3: continue
        for k in range(a.hi + 1):
            if quick(units, eq(pa(a), k)): mp[a] = P(k); break
    if not mp: return facts, goal
    cache = {}
    keep = []
    for a, k in mp.items():
        p, c = a.args
        keep += [le(c * k, p), lt(p, c * k + c)]
    f2 = [subst_bool(f, lambda x: mp.get(x), cache) for f in facts]
    return [f for f in flatten(f2 + keep) if f is not TRUE], subst_bool(goal, lambda x: mp.get(x), cache)


class Result:
    def __init__(self, ok, how, info=None):
        self.ok, self.how, self.info = ok, how, info

    def __bool__(self): return self.ok


def bvars_of(facts):
    out = {}

    def go(b):
        if b.op == "bvar": out[b] = 1
        elif b.op in ("and", "or", "not"):
            for x in b.args: go(x)
    for f in facts:
        if f.op in ("and", "or"): go(f)
    fs = set(facts)
    return [b for b in out if b not in fs and not_(b) not in fs]


def prove(facts, goal, timeout=6.0, opts=None, depth=0):
    """try to show facts |= goal; with opts bsplit, by cases on an undetermined Boolean"""
    r = prove1(facts, goal, timeout, opts, depth)
    if not r and opts and opts.get("osplit") and not depth:
        for f in flatten(facts):
            if f.op != "or" or not any(g.op in ("eqr", "all") for g in f.args): continue
            for g in f.args:
                if g.op not in ("le", "eq", "not") or quick(tuple(facts), g) or quick(tuple(facts), not_(g)): continue
                o = dict(opts, osplit=opts["osplit"] - 1)
                if prove(list(facts) + [not_(g)] + [h for h in f.args if h is not g and len(f.args) == 2], goal, timeout, o) and prove(list(facts) + [g], goal, timeout, o): return Result(True, "case split")
    if r or not opts or not opts.get("bsplit") or depth: return r
    for b in bvars_of(flatten(facts))[:2]:
        o = dict(opts, bsplit=opts["bsplit"] - 1)
        if prove(list(facts) + [b], goal, timeout, o) and prove(list(facts) + [not_(b)], goal, timeout, o): return Result(True, "case split")
    return r


def has_cong(b):
    if b.op == "cong": return True
    return b.op in ("or", "and", "not") and any(has_cong(x) for x in b.args)


def prove1(facts, goal, timeout=6.0, opts=None, depth=0):
    """try to show facts |= goal"""
    opts = opts or {}
    if goal is TRUE: return Result(True, "trivial")
    if goal.op == "and":
        for g in goal.args:
            r = prove(facts, g, timeout, opts, depth)
            if not r: return r
        return r
    if goal.op == "or":
        # move negated literals to the facts; keep a structural disjunct as goal
        st = [g for g in goal.args if g.op in ("eqr", "all", "cong", "and") or g.op in EXTRA_STRUCT]
        if len(st) == 1:
            rest = [not_(g) for g in goal.args if g is not st[0]]
            return prove(list(facts) + rest, st[0], timeout, opts, depth)
        if not st:
            g = goal.args[-1]
            return prove(list(facts) + [not_(x) for x in goal.args[:-1]], g, timeout, opts, depth)
    if goal.op == "eqr":
        a, b, lo, hi, sh = goal.args
        k = var("sk!%d" % goal.id)
        return prove(list(facts) + [ge(k, lo), lt(k, hi)], eq(sel(a, k), sel(b, k + sh)), timeout, opts, depth)
    if goal.op == "all":
        lo, hi, body = goal.args
        k = var("sk!%d" % goal.id)
        return prove(list(facts) + [ge(k, lo), lt(k, hi)], subst(body, {QV: k}), timeout, opts, depth)
    facts0 = facts
    facts, goal = elim_equalities(facts, goal)
    if goal is TRUE or FALSE in facts: return Result(True, "simplified")
    if goal.op in ("and", "or", "eqr", "all") and depth < 4:
        if goal.op != "or": return prove(facts, goal, timeout, opts, depth + 1)
    if goal.op != "cong" and quick(tuple(facts), goal): return Result(True, "linear")
    if opts.get("unitprop"):
        f2 = unit_prop(facts)
        f3, g3 = fixed_divs(f2, goal)
        if f2 is not facts or f3 is not f2:
            facts, goal = elim_equalities(f3, g3)
            if goal is TRUE or FALSE in facts: return Result(True, "simplified")
            if quick(tuple(facts), goal): return Result(True, "linear")
    if goal.op in ("le", "eq") and not opts.get("nocong"):
        # first without the congruences, which rarely matter for (in)equalities
        few = [f for f in facts if not has_cong(f)]
        if len(few) < len(facts) - 3:
            r = prove1(few, goal, min(timeout, 2.0), dict(opts, nocong=1), depth)
            if r: return r
    # saturation
    co = Coll()
    for f in facts: co.bool(f)
    co.bool(goal)
    lem = []
    seen = set()
    for rnd in range(opts.get("rounds", 3)):
        new = lemma_round(co, seen, None, opts)
        if not new: break
        lem += new
        for b in new: co.bool(b)
    if opts.get("early"):
        h = mono_hints(co, seen, consts=const_bounds(list(facts) + [goal]), goals=Polys(goal), scale=(2,))
        lem += h
        for b in h: co.bool(b)
    done = set()
    zs = [zbool(f) for f in facts]
    zl = [zbool(b) for b in lem]
    ax = []
    while True:
        a = basic_axioms(co, done)
        if not a: break
        ax += a
    if goal.op == "cong":
        return prove_cong(facts, lem, goal, zs + zl + ax, co, seen, opts)
    ng = zbool(not_(goal))
    if goal.op == "le" and opts.get("normfirst") and any(m.deg >= 2 for m, _ in goal.args[0].t if m is not ONE):
        sol = z3.SolverFor("QF_UFLIA"); sol.set("timeout", 500); sol.add(*(zs + zl + ax))
        rn = norm_le(uncond_eqs(facts + lem, sol) + zero_atoms(co, sol), goal, zs + zl + ax, co, done, seen, 1.5, opts)
        if rn: return rn
    r, s = zcheck(zs + zl + ax + [ng], min(timeout, 3.0))
    if r == z3.unsat: return Result(True, "lemmas")
    # product hints
    kb = const_bounds(list(facts) + [goal])
    hints = mono_hints(co, seen, consts=kb, goals=Polys(goal))
    if goal.op == "eq" or True:
        sol = z3.SolverFor("QF_UFLIA"); sol.set("timeout", 500); sol.add(*(zs + zl + ax))
        eqs = uncond_eqs(facts + lem, sol) + zero_atoms(co, sol)
        gl = [goal.args[0]] if goal.op in ("eq", "le") else [x for x in Polys(goal)]
        for f in facts:
            if f.op in ("le", "eq") and any(m.deg >= 2 for m, _ in f.args[0].t): gl.append(f.args[0])
        rows = product_closure(eqs, gl, cap=opts.get("cap", 160))
        hints += [eq(p, 0) for p in rows if eq(p, 0) not in seen]
        if goal.op == "eq":
            if in_span([dict(p.t) for p in rows], dict(goal.args[0].t)): return Result(True, "polynomial identity")
            e2, g2 = drop_zeros(eqs, [goal.args[0]])
            r2 = product_closure(e2, g2, cap=opts.get("cap", 160))
            if in_span([dict(p.t) for p in r2], dict(g2[0].t)): return Result(True, "polynomial identity")
    for b in hints: co.bool(b)
    h2 = mono_hints(co, seen, consts=kb)
    for b in h2: co.bool(b)
    hints += h2
    ax2 = []
    while True:
        a = basic_axioms(co, done)
        if not a: break
        ax2 += a
    r, s = zcheck(zs + zl + ax + [zbool(b) for b in hints] + ax2 + [ng], timeout)
    if r == z3.unsat: return Result(True, "lemmas+products")
    if goal.op == "le":
        rn = norm_le(eqs, goal, zs + zl + ax, co, done, seen, timeout, opts)
        if rn: return rn
    info = dict(result=str(r), facts=[repr(f) for f in facts], goal=repr(goal))
    if r == z3.sat:
        try:
            m = s.model()
            info["model"] = {str(d): str(m[d]) for d in m.decls() if d.arity() == 0}
        except z3.Z3Exception:
            pass
    return Result(False, "open", info)


def norm_le(eqs, goal, zbase, co, done, seen, timeout, opts):
    """an inequality after merging equal atoms, with products closed and quotient remainders bounded"""
    e2, (g,) = drop_zeros([q for q in eqs if not has_vs(q)], [goal.args[0]])
    rows = product_closure(e2, [g], rounds=4, cap=opts.get("cap", 260))
    keep = reaching(rows, g)
    hints = [eq(q, 0) for q in keep]
    for q in keep + [g]:
        for m, _ in q.t:
            if m is ONE: continue
            for a, k in m.f:
                if a.kind != "div" or k != 1: continue
                rest = mono(m.e, tuple(x for x in m.f if x[0] is not a))
                if rest is ONE or rest.lo is None or rest.lo < 0: continue
                R = mkpoly({rest: 1})
                d = (a.args[0] - a.args[1] * pa(a)) * R
                hints.append(ge(d, 0)); hints.append(le(d, (a.args[1] - 1) * R))
    c2 = Coll()
    for b in hints: c2.bool(b)
    c2.poly(g)
    ax = []
    dn = set(done)
    while True:
        a = basic_axioms(c2, dn)
        if not a: break
        ax += a
    z, _ = zcheck(zbase + [zbool(b) for b in hints] + ax + [zbool(gt(g, 0))], timeout)
    if z == z3.unsat: return Result(True, "lemmas+products")
    return None


def reaching(rows, g):
    """the rows connected to the goal through shared non-linear monomials (three steps)"""
    want = {m for m, _ in g.t if m is not ONE}
    out = {}
    for _ in range(3):
        new = [q for q in rows if q not in out and any(m in want for m, _ in q.t)]
        if not new: break
        for q in new:
            out[q] = 1
            want |= {m for m, _ in q.t if m is not ONE}
    return list(out)


def Polys(b):
    o = b.op
    if o in ("le", "eq"): return [b.args[0]]
    if o in ("not", "and", "or"):
        r = []
        for x in b.args: r += Polys(x)
        return r
    return []


def models(sol, k=2):
    """a few models of the facts: cheap refutation of entailments"""
    out = []
    if sol.check() == z3.sat: out.append(sol.model())
    return out


def refuted(ms, b):
    for m in ms:
        if z3.is_false(m.eval(zbool(b), model_completion=True)): return True
    return False


def entails(sol, b, ms=()):
    if refuted(ms, b): return False
    if getattr(sol, "unfinished", 0) >= 4: return False    # a hard context: not worth asking again
    sol.push()
    sol.add(zbool(not_(b)))
    t = time.time()
    r = sol.check()
    if r == z3.unknown: sol.unfinished = getattr(sol, "unfinished", 0) + 1
    r = r == z3.unsat
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    sol.pop()
    return r


def zero_atoms(co, sol):
    """quotients that are zero under the facts"""
    out = []
    ms = models(sol)
    for a in list(co.atoms):
        if (a.kind == "div" and (a.lo is None or a.lo <= 0) or a.kind == "var" and a.lo == 0 and a.hi is None) and entails(sol, eq(pa(a), 0), ms): out.append(pa(a))
    return out


def uncond_eqs(bs, sol, with_cong=None):
    """equalities that hold unconditionally under the facts in sol"""
    eqs = []
    ms = models(sol)
    for b in bs:
        if b.op == "eq": eqs.append(b.args[0])
        elif b.op == "or":
            es = [x for x in b.args if x.op == "eq" or (with_cong is not None and x.op == "cong")]
            if len(es) != 1: continue
            if all(m.deg < 2 and m.e is None and all(a.kind == "var" for a, _ in m.f) for m, _ in (es[0].args[0].t)): continue
            rest = [x for x in b.args if x is not es[0]]
            if entails(sol, not_(or_(*rest)), ms):
                if es[0].op == "eq": eqs.append(es[0].args[0])
                else: with_cong.append(es[0])
    return eqs


def has_vs(q):
    return any(a.kind == "fn" and a.args[0] == "Vs" for m, _ in q.t if m is not ONE for a, _ in m.f)


def cong_span(eqs, p, e, sol, msol, opts):
    eqs, (p,) = drop_zeros(eqs, [p])
    rows = product_closure(eqs, [p], cap=opts.get("cap", 260))
    vecs = [dict(r.t) for r in rows]
    ms = {m for v in vecs for m in v} | {m for m, _ in p.t}
    for m in ms:
        me = m.e
        tot = P(0) if me is None else me
        for a, k in m.f:
            if a.kind == "E": tot = tot + a.args[0] * k
        hit = None
        if me is None and not any(a.kind == "E" for a, _ in m.f):
            if not e.isconst: continue
        for c in (0, 32, 64):
            if entails(sol, le(e, tot + c), msol):
                hit = c
                break
        if hit is not None:
            vecs.append({m: 2 ** hit})
    return in_span(vecs, dict(p.t))


def prove_cong(facts, lem, goal, zbase, co, seen, opts):
    """goal: p = 0 mod 2^e, by integer linear combination of known equalities and congruences"""
    STATS["cong_goals"] += 1
    p, e = goal.args
    sol = z3.SolverFor("QF_UFLIA")
    sol.set("timeout", 1000)
    sol.add(*zbase)
    if sol.check() == z3.unsat: return Result(True, "smt")
    congs = [f for f in facts if f.op == "cong"]
    eqs = uncond_eqs(facts + [l for l in lem if not any(m.f and any(a.kind == "var" and a.args[0].startswith("w$") for a, _ in m.f) for q in Polys(l) for m, _ in q.t)], sol, congs)
    eqs += zero_atoms(co, sol)
    for c in congs:
        if c.args[1] is e or entails(sol, le(e, c.args[1])): eqs.append(c.args[0])
    msol = models(sol)
    tries = [[q for q in eqs if not has_vs(q)], eqs]
    if len(tries[0]) == len(eqs): tries = [eqs]
    for es in tries:
        if cong_span(es, p, e, sol, msol, opts): return Result(True, "congruence lattice")
    rows = eqs
    return Result(False, "open", dict(result="congruence not derivable", facts=[repr(f) for f in facts], goal=repr(goal), rows=len(eqs)))
