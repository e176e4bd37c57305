"""Hash-consed terms: integers are polynomials over atoms, with exact semantics over Z.

E(e) denotes 2^max(e,0).  V(a,i) denotes sum_{0<=k<i} a[k]*2^(32k)  (0 when i<=0).
"""


class Undefined(Exception):
    pass


_tab = {}
_cnt = [0]
CONC = [None]       # during concrete evaluation of candidates: {symbolic precision: its value}


def _cs(p):
    m = CONC[0]
    if m and not p.isconst:
        for k, v in m.items():
            a = k.t[0][0].f[0][0]
            p = subst_poly(p, lambda x, a=a, v=v: v if x is a else None, {})
    return p


def _intern(cls, key):
    k = (cls, key)
    r = _tab.get(k)
    if r is None:
        r = object.__new__(cls)
        _cnt[0] += 1
        r.id = _cnt[0]
        r._init(*key)
        _tab[k] = r
    return r


class Node:
    __slots__ = ()

    def __deepcopy__(self, m):
        return self


# ---------------------------------------------------------------- arrays
class Arr(Node):
    __slots__ = ("id", "kind", "args")

    def _init(self, kind, *args):
        self.kind, self.args = kind, args

    def __repr__(self):
        if self.kind == "avar": return self.args[0]
        if self.kind == "store": return "%r[%r:=%r]" % self.args
        if self.kind == "const": return "const(%r)" % self.args[0]
        return "%s%r" % (self.kind, self.args)

    @property
    def hi(self):
        """upper bound of the elements"""
        if self.kind == "avar": return self.args[1]
        if self.kind == "store": return self.args[0].hi
        if self.kind == "const": return self.args[1]
        if self.kind == "lit": return self.args[1]
        raise AssertionError


def avar(name, hi=2**32 - 1): return _intern(Arr, ("avar", name, hi))
def aconst(v, hi=2**32 - 1): return _intern(Arr, ("const", P(v), hi))
def alit(vals, hi=2**32 - 1): return _intern(Arr, ("lit", tuple(vals), hi))


def store(a, i, v):
    i, v = P(i), P(v)
    if a.kind == "lit":
        if not (i.isconst and v.isconst): raise Undefined()
        k = i.const
        if not 0 <= k < len(a.args[0]): raise Undefined()
        l = list(a.args[0]); l[k] = v.const
        return alit(l, a.hi)
    if a.kind == "store" and a.args[1] is i:
        a = a.args[0]
    return _intern(Arr, ("store", a, i, v))


def sel(a, i):
    i = P(i)
    if CONC[0]: i = _cs(i)
    while True:
        if a.kind == "const": return a.args[0]
        if a.kind == "lit":
            if not i.isconst: raise Undefined()
            k = i.const
            if not 0 <= k < len(a.args[0]): raise Undefined()
            return P(a.args[0][k])
        if a.kind == "store":
            d = i - a.args[1]
            if d.isconst:
                if d.const == 0: return a.args[2]
                a = a.args[0]
                continue
            if d.lo is not None and d.lo > 0 or d.hi is not None and d.hi < 0:
                a = a.args[0]
                continue
        break
    return pa(_intern(Atom, ("sel", a, i)))


# ---------------------------------------------------------------- atoms
class Atom(Node):
    __slots__ = ("id", "kind", "args", "lo", "hi")

    def _init(self, kind, *args):
        self.kind, self.args = kind, args
        self.lo = self.hi = None
        if kind == "var":
            self.lo, self.hi = args[1], args[2]
        elif kind == "sel":
            self.lo, self.hi = 0, args[0].hi
        elif kind == "V":
            self.lo = 0
        elif kind == "E":
            self.lo = 1
            e = args[0]
            if e.hi is not None and e.hi < 4096: self.hi = 2 ** max(e.hi, 0)
            if e.lo is not None and 0 < e.lo < 4096: self.lo = 2 ** e.lo
        elif kind == "div":
            p, c = args
            if p.lo is not None: self.lo = p.lo // c
            if p.hi is not None: self.hi = p.hi // c
        elif kind == "fn":
            self.lo, self.hi = FN_RANGE.get(args[0], (None, None))

    def __repr__(self):
        k = self.kind
        if k == "var": return self.args[0]
        if k == "sel": return "%r[%r]" % self.args
        if k == "V": return "V(%r,%r)" % self.args
        if k == "E": return "E(%r)" % self.args
        if k == "div": return "(%r div %r)" % self.args
        return "%s(%s)" % (self.args[0], ",".join(map(repr, self.args[1:])))


FN_RANGE = {}


def declare_fn(name, lo=None, hi=None):
    FN_RANGE[name] = (lo, hi)


def var(name, lo=None, hi=None): return pa(_intern(Atom, ("var", name, lo, hi)))
def fn(name, *args): return pa(_intern(Atom, ("fn", name) + tuple(a if isinstance(a, (Arr, str)) else P(a) for a in args)))


_fresh = [0]


def fresh(base, lo=None, hi=None):
    _fresh[0] += 1
    return var("%s!%d" % (base, _fresh[0]), lo, hi)


def fresh_arr(base, hi=2**32 - 1):
    _fresh[0] += 1
    return avar("%s!%d" % (base, _fresh[0]), hi)


def fresh_name(base):
    _fresh[0] += 1
    return "%s!%d" % (base, _fresh[0])


# ---------------------------------------------------------------- monomials
class Mono(Node):
    """2^e (e: Poly or None, syntactically nonnegative, constant part 0) * prod atom^k"""
    __slots__ = ("id", "e", "f", "lo", "hi", "deg")

    def _init(self, e, f):
        self.e, self.f = e, f
        lo, hi = 1, 1
        fs = [(a.lo, a.hi) for a, k in f for _ in range(k)]
        if e is not None: fs.append((1 if e.lo is None or e.lo <= 0 or e.lo > 4096 else 2 ** e.lo, 2 ** e.hi if e.hi is not None and e.hi < 4096 else None))
        for l, h in fs:
            if l is not None and l >= 0 and lo is not None and lo >= 0:
                lo = lo * l
                hi = None if hi is None or h is None else hi * h
            elif None not in (l, h, lo, hi):
                c = (lo * l, lo * h, hi * l, hi * h)
                lo, hi = min(c), max(c)
            else:
                lo = hi = None
        self.lo, self.hi = lo, hi
        self.deg = sum(k for _, k in f) + (1 if e is not None else 0)

    def factors(self):
        r = []
        for a, k in self.f: r += [a] * k
        return r

    def __repr__(self):
        s = [repr(a) + ("^%d" % k if k > 1 else "") for a, k in self.f]
        if self.e is not None: s.append("E(%r)" % self.e)
        return "*".join(s) if s else "1"


def mono(e, f): return _intern(Mono, (e, f))


ONE = None  # set below


def mmul(a, b):
    if a is ONE: return b
    if b is ONE: return a
    e = a.e if b.e is None else b.e if a.e is None else a.e + b.e
    if e is not None and e.isconst and e.const == 0: e = None
    d = dict(a.f)
    for x, k in b.f: d[x] = d.get(x, 0) + k
    return mono(e, tuple(sorted(d.items(), key=lambda t: t[0].id)))


# ---------------------------------------------------------------- polynomials
class Poly(Node):
    __slots__ = ("id", "t", "lo", "hi", "isconst", "const")

    def _init(self, t):
        self.t = t
        self.isconst = not t or (len(t) == 1 and t[0][0] is ONE)
        self.const = (t[0][1] if t else 0) if self.isconst else None
        lo = hi = 0
        for m, c in t:
            l, h = (m.lo, m.hi) if c > 0 else (m.hi, m.lo)
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        self.lo, self.hi = lo, hi

    def __add__(self, o):
        if o.__class__ is not Poly: o = P(o)
        if o.isconst:
            if self.isconst: return P(self.const + o.const)
            if o.const == 0: return self
        elif self.isconst and self.const == 0: return o
        d = dict(self.t)
        for m, c in o.t: d[m] = d.get(m, 0) + c
        return mkpoly(d)

    __radd__ = __add__

    def __neg__(self): return mkpoly({m: -c for m, c in self.t})

    def __sub__(self, o):
        if o.__class__ is not Poly: o = P(o)
        if o.isconst:
            if self.isconst: return P(self.const - o.const)
            if o.const == 0: return self
        if self is o: return P(0)
        d = dict(self.t)
        for m, c in o.t: d[m] = d.get(m, 0) - c
        return mkpoly(d)

    def __rsub__(self, o): return P(o) - self

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 1: return self
            return mkpoly({m: c * o for m, c in self.t})
        o = P(o)
        if o.isconst: return self * o.const
        if self.isconst: return o * self.const
        d = {}
        for m, c in self.t:
            for m2, c2 in o.t:
                k = mmul(m, m2)
                d[k] = d.get(k, 0) + c * c2
        return mkpoly(d)

    __rmul__ = __mul__

    def coef(self, m):
        for x, c in self.t:
            if x is m: return c
        return 0

    @property
    def c0(self): return self.coef(ONE)

    def atoms(self):
        s = set()
        for m, _ in self.t:
            for a, _k in m.f: s.add(a)
            if m.e is not None: s.add(eatom(m.e))
        return s

    def __repr__(self):
        if not self.t: return "0"
        out = []
        for m, c in self.t:
            if m is ONE: out.append("%+d" % c if abs(c) < 10**6 else "%+#x" % c)
            elif c == 1: out.append("+%r" % m)
            elif c == -1: out.append("-%r" % m)
            else: out.append(("%+d*%r" if abs(c) < 10**6 else "%+#x*%r") % (c, m))
        s = "".join(out)
        return s[1:] if s[0] == "+" else s

    # comparisons build Bools
    def __le__(self, o): return le(self, o)
    def __lt__(self, o): return lt(self, o)
    def __ge__(self, o): return le(o, self)
    def __gt__(self, o): return lt(o, self)


def _mid(x): return x[0].id


def mkpoly(d):
    t = [x for x in d.items() if x[1] != 0]
    if len(t) > 1: t.sort(key=_mid)
    return _intern(Poly, (tuple(t),))


ONE = mono(None, ())
_pc = {}


def P(x):
    if x.__class__ is Poly: return x
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int):
        r = _pc.get(x)
        if r is None:
            r = mkpoly({ONE: x})
            if len(_pc) < 100000: _pc[x] = r
        return r
    if isinstance(x, Atom): return pa(x)
    raise TypeError(repr(x))


def pa(a):
    if a.kind == "E": return E(a.args[0])
    return pa0(a)


def pa0(a):
    return mkpoly({mono(None, ((a, 1),)): 1})


def nonneg(p):
    return p.lo is not None and p.lo >= 0


def synnonneg(p):
    """every monomial has a nonnegative coefficient and is nonnegative"""
    for m, c in p.t:
        if c < 0 or m.lo is None or m.lo < 0: return False
    return True


def eatom(e):
    return _intern(Atom, ("E", e))


def E(e):
    e = P(e)
    if CONC[0]: e = _cs(e)
    if e.isconst:
        if e.const > 200000: raise Undefined()
        return P(2 ** max(e.const, 0))
    if synnonneg(e):
        c = e.c0
        m = mono(e - c, ())
        return mkpoly({m: 2 ** c})
    return pa0(eatom(e))


_vc = {}


def V(a, i):
    i = P(i)
    if CONC[0]: i = _cs(i)
    if i.isconst and i.const <= 0: return P(0)
    if a.kind == "const" and a.args[0].isconst and a.args[0].const == 0: return P(0)
    if a.kind == "lit":
        if not i.isconst: raise Undefined()
        if i.const > len(a.args[0]): raise Undefined()
        k = (a, i)
        r = _vc.get(k)
        if r is None:
            r = P(sum(v << (32 * k) for k, v in enumerate(a.args[0][:i.const])))
            _vc[k] = r
        return r
    if i.isconst and i.const <= 4:
        r = P(0)
        for k in range(i.const): r = r + sel(a, k) * (2 ** (32 * k))
        return r
    return pa(_intern(Atom, ("V", a, i)))


def div(p, c):
    """floor division by a positive integer constant"""
    p = P(p)
    assert c > 0
    if c == 1: return p
    # split off multiples of c
    q = {}; r = {}
    for m, k in p.t:
        if m is ONE:
            qq = k // c
        else:
            qq = k // c if k % c == 0 else (k // c if k >= 0 else -((-k) // c))
        if qq: q[m] = qq
        if k - qq * c: r[m] = k - qq * c
    qp, rp = mkpoly(q), mkpoly(r)
    if rp.lo is not None and rp.hi is not None and rp.lo // c == rp.hi // c:
        return qp + rp.lo // c
    # floor(floor(x/c1)/c2) = floor(x/(c1 c2))
    if len(rp.t) == 1 and rp.t[0][1] == 1 and len(rp.t[0][0].f) == 1 and rp.t[0][0].e is None:
        a, k = rp.t[0][0].f[0]
        if k == 1 and a.kind == "div":
            return qp + div(a.args[0], a.args[1] * c)
    return qp + pa(_intern(Atom, ("div", rp, c)))


def mod(p, c):
    p = P(p)
    return p - div(p, c) * c


# ---------------------------------------------------------------- booleans
class Bool(Node):
    __slots__ = ("id", "op", "args")

    def _init(self, op, *args):
        self.op, self.args = op, args

    def __repr__(self):
        o, a = self.op, self.args
        if o == "le": return "(%r <= 0)" % a[0]
        if o == "eq": return "(%r == 0)" % a[0]
        if o == "not": return "!%r" % a[0]
        if o == "and": return "(" + " & ".join(map(repr, a)) + ")"
        if o == "or": return "(" + " | ".join(map(repr, a)) + ")"
        return "%s(%s)" % (o, ", ".join(map(repr, a)))


def B_(op, *args): return _intern(Bool, (op,) + args)


TRUE = B_("true")
FALSE = B_("false")


def boolc(b): return TRUE if b else FALSE


def le(a, b):
    a, b = P(a), P(b)
    if a.isconst and b.isconst: return TRUE if a.const <= b.const else FALSE
    p = a - b
    if CONC[0]: p = _cs(p)
    if p.hi is not None and p.hi <= 0: return TRUE
    if p.lo is not None and p.lo > 0: return FALSE
    return B_("le", p)


def lt(a, b):
    a, b = P(a), P(b)
    if a.isconst and b.isconst: return TRUE if a.const < b.const else FALSE
    return le(a + 1, b)


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    a, b = P(a), P(b)
    if a is b: return TRUE
    if a.isconst and b.isconst: return FALSE
    p = a - b
    if CONC[0]: p = _cs(p)
    if p.isconst: return boolc(p.const == 0)
    if p.lo is not None and p.lo > 0 or p.hi is not None and p.hi < 0: return FALSE
    if p.t[-1][1] < 0: p = -p
    return B_("eq", p)


def ne(a, b): return not_(eq(a, b))


def not_(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.op == "not": return b.args[0]
    if b.op == "le": return le(P(1), b.args[0])   # p>0  <=> 1-p<=0
    if b.op == "and": return or_(*[not_(x) for x in b.args])
    if b.op == "or": return and_(*[not_(x) for x in b.args])
    return B_("not", b)


def and_(*bs):
    out = []
    for b in bs:
        if b is TRUE: continue
        if b is FALSE: return FALSE
        for x in (b.args if b.op == "and" else (b,)):
            if x not in out: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return B_("and", *out)


def or_(*bs):
    out = []
    for b in bs:
        if b is FALSE: continue
        if b is TRUE: return TRUE
        for x in (b.args if b.op == "or" else (b,)):
            if x not in out: out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return B_("or", *out)


def implies(a, b): return or_(not_(a), b)
def iff(a, b): return and_(implies(a, b), implies(b, a))
def bvar(name): return B_("bvar", name)


def eqr(a, b, lo, hi, shift=0):
    """forall k in [lo,hi): a[k] == b[k+shift]"""
    lo, hi, shift = P(lo), P(hi), P(shift)
    if CONC[0]: lo, hi, shift = _cs(lo), _cs(hi), _cs(shift)
    if a is b and shift.isconst and shift.const == 0: return TRUE
    d = hi - lo
    if d.hi is not None and d.hi <= 0: return TRUE
    if a.kind == "lit" or b.kind == "lit":
        if not (lo.isconst and hi.isconst and shift.isconst): raise Undefined()
        r = TRUE
        for k in range(lo.const, hi.const):
            r = and_(r, eq(sel(a, k), sel(b, k + shift.const)))
        return r
    return B_("eqr", a, b, lo, hi, shift)


def cong(p, e):
    """p is a multiple of 2^e"""
    p, e = P(p), P(e)
    if CONC[0]: p, e = _cs(p), _cs(e)
    if p.isconst and p.const == 0: return TRUE
    if p.isconst and e.isconst: return boolc(p.const % (2 ** max(e.const, 0)) == 0)
    return B_("cong", p, e)


_qn = [0]


def forall(lo, hi, body):
    """forall k in [lo,hi): body(k)   -- body: Poly -> Bool"""
    lo, hi = P(lo), P(hi)
    if CONC[0]: lo, hi = _cs(lo), _cs(hi)
    if lo.isconst and hi.isconst:
        r = TRUE
        if hi.const - lo.const <= 4096:
            for k in range(lo.const, hi.const): r = and_(r, body(P(k)))
            return r
    v = var("?q")
    b = body(v)
    if b is TRUE: return TRUE
    return B_("all", lo, hi, b)


QV = var("?q").atoms().pop()


# ---------------------------------------------------------------- substitution
def subst_poly(p, f, cache):
    """f: Atom -> Poly or None"""
    k = (0, p)
    r = cache.get(k)
    if r is not None: return r
    r = P(0)
    for m, c in p.t:
        x = P(c)
        for a, n in m.f:
            y = subst_atom(a, f, cache)
            for _ in range(n): x = x * y
        if m.e is not None: x = x * E(subst_poly(m.e, f, cache))
        r = r + x
    cache[k] = r
    return r


def subst_atom(a, f, cache):
    k = (1, a)
    r = cache.get(k)
    if r is not None: return r
    r = f(a)
    if r is None:
        if a.kind == "var": r = pa(a)
        elif a.kind == "sel": r = sel(subst_arr(a.args[0], f, cache), subst_poly(a.args[1], f, cache))
        elif a.kind == "V": r = V(subst_arr(a.args[0], f, cache), subst_poly(a.args[1], f, cache))
        elif a.kind == "E": r = E(subst_poly(a.args[0], f, cache))
        elif a.kind == "div": r = div(subst_poly(a.args[0], f, cache), a.args[1])
        elif a.kind == "fn":
            r = mkfn(a.args[0], *[subst_any(x, f, cache) for x in a.args[1:]])
        else: raise AssertionError(a.kind)
    cache[k] = r
    return r


FN_MK = {}


def bit(a, i):
    """bit i of the number held in the blocks a"""
    i = P(i)
    if a.kind == "const" and a.args[0] is P(0): return P(0)
    if a.kind == "lit":
        if not i.isconst: raise Undefined()
        k = i.const
        return P((a.args[0][k // 32] >> (k % 32)) & 1) if 0 <= k // 32 < len(a.args[0]) else P(0)
    return fn("bit", a, i)


def low(a, i):
    """the value of the bits below i of the number held in the blocks a"""
    i = P(i)
    if CONC[0]: i = _cs(i)
    if i.isconst and i.const <= 0: return P(0)
    if a.kind == "lit":
        if not i.isconst: raise Undefined()
        return P(sum(v << (32 * k) for k, v in enumerate(a.args[0])) % 2 ** min(i.const, 200000))
    if i.c0 % 32 == 0 and all(c % 32 == 0 for m, c in i.t): return V(a, mkpoly({m: c // 32 for m, c in i.t}))
    return fn("low", a, i)


declare_fn("bit", 0, 1)
declare_fn("low", 0, None)
declare_fn("Vs", 0, None)
FN_MK["bit"] = bit
FN_MK["low"] = low


def mkfn(name, *args):
    g = FN_MK.get(name)
    return g(*args) if g else fn(name, *args)


def subst_arr(a, f, cache):
    k = (2, a)
    r = cache.get(k)
    if r is not None: return r
    if a.kind == "store":
        r = store(subst_arr(a.args[0], f, cache), subst_poly(a.args[1], f, cache), subst_poly(a.args[2], f, cache))
    elif a.kind == "const":
        r = aconst(subst_poly(a.args[0], f, cache), a.args[1])
    else:
        r = a
    cache[k] = r
    return r


def subst_any(x, f, cache):
    if isinstance(x, Poly): return subst_poly(x, f, cache)
    if isinstance(x, Arr): return subst_arr(x, f, cache)
    if isinstance(x, Bool): return subst_bool(x, f, cache)
    return x


def subst_bool(b, f, cache):
    k = (3, b)
    r = cache.get(k)
    if r is not None: return r
    o, a = b.op, b.args
    if o in ("true", "false", "bvar"): r = b
    elif o == "le": r = le(subst_poly(a[0], f, cache), 0)
    elif o == "eq": r = eq(subst_poly(a[0], f, cache), 0)
    elif o == "not": r = not_(subst_bool(a[0], f, cache))
    elif o == "and": r = and_(*[subst_bool(x, f, cache) for x in a])
    elif o == "or": r = or_(*[subst_bool(x, f, cache) for x in a])
    elif o == "eqr": r = eqr(*[subst_any(x, f, cache) for x in a])
    elif o == "cong": r = cong(*[subst_any(x, f, cache) for x in a])
    elif o == "all": r = B_("all", subst_poly(a[0], f, cache), subst_poly(a[1], f, cache), subst_bool(a[2], f, cache))
    else: raise AssertionError(o)
    cache[k] = r
    return r


def subst(x, mapping):
    """mapping: {Atom: Poly}"""
    return subst_any(x, lambda a: mapping.get(a), {})


def inst(allb, k):
    """instantiate an 'all' fact at k: returns (guarded Bool)"""
    lo, hi, body = allb.args
    b = subst(body, {QV: P(k)})
    return implies(and_(le(lo, k), lt(k, hi)), b)


_snap = [None]


def snapshot():
    _snap[0] = (len(_tab), len(_vc), len(_pc))


def reset():
    """forget terms created since the snapshot (concrete evaluation only)"""
    for d, n in zip((_tab, _vc, _pc), _snap[0]):
        while len(d) > n: d.popitem()
