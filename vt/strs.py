"""Specification of the textual notation: what number a sequence of characters denotes."""
from .term import *
from .term import ONE
from . import smt, mathfn
from .mathfn import _define, _definea


def ch(c): return ord(c)


def between(x, lo, hi): return and_(ge(x, ord(lo)), le(x, ord(hi)))


def alnum(x):
    """an ASCII letter or digit"""
    return or_(between(x, '0', '9'), between(x, 'a', 'z'), between(x, 'A', 'Z'))


def _alnum(x): return 48 <= x <= 57 or 97 <= x <= 122 or 65 <= x <= 90


def _dig(x):
    if 48 <= x <= 57: return x - 48
    if 97 <= x <= 102: return x - 87
    if 65 <= x <= 70: return x - 55
    return 99


def _fan(a, n):
    for k in range(max(n, 0)):
        if k >= len(a): raise Undefined()
        if _alnum(a[k]): return k
    return max(n, 0)


PRE = {98: 2, 66: 2, 111: 8, 79: 8, 120: 16, 88: 16}


def _prefix(a, n):
    f = _fan(a, n)
    if f + 1 < n and a[f] == 48 and a[f + 1] in PRE: return PRE[a[f + 1]], f + 2
    return 10, f


def _horner(a, b, lo, hi):
    r = 0
    for k in range(lo, hi):
        if not 0 <= k < len(a): raise Undefined()
        d = _dig(a[k])
        if d < b: r = r * b + d
    return r


def _dashes(a, n):
    if n > len(a): raise Undefined()
    return sum(1 for k in range(n) if a[k] == 45) % 2


# value of one character as a digit (99: not a digit)
dig = _define("dig", _dig)
# first letter or digit
fan = _definea("fan", _fan)
# the base announced by the prefix, and where the digits start
cbase = _definea("cbase", lambda a, n: _prefix(a, n)[0], 2, 16)
cstart = _definea("cstart", lambda a, n: _prefix(a, n)[1])
# the digits of base b in [lo,hi) read left to right, other characters skipped
horner = _definea("horner", _horner)
# parity of the number of dashes
dashes = _definea("dashes", _dashes, 0, 1)
declare_fn("dig", 0, 99)


def Q(x, b, j):
    """x div b^j"""
    x, b, j = P(x), P(b), P(j)
    if j is P(0): return x
    return _Q(x, b, j)


_Q = _define("Q", lambda x, b, j: x // b ** j if j >= 0 and b >= 2 and x >= 0 else 0)
FN_MK["Q"] = Q


def _nd(x, b):
    n = 0
    while x > 0: x //= b; n += 1
    return n


# digit j of x in base b; number of digits (0 has none); number of characters of the text of x
dg = _define("dg", lambda x, b, j: x // b ** j % b if j >= 0 and b >= 2 and x >= 0 else 0)
nd = _define("nd", _nd)
for _n in ("Q", "dg", "nd"): declare_fn(_n, 0, None)


def hexc(d, up): return 48 + d + fn_hex(d, P(55 if up else 87) - 48)


# offset of the characters beyond 9
fn_hex = _define("hexoff", lambda d, k: k if d >= 10 else 0)
declare_fn("hexoff", 0, 39)


def char(x, b, j, up=False):
    """the character of digit j"""
    return hexc(dg(x, b, j), up) if b > 10 else 48 + dg(x, b, j)


def digits_hook(co, add, sels, Vs, Es, opts):
    fs = {}
    for a in list(co.atoms):
        if a.kind == "fn" and a.args[0] in ("Q", "dg", "nd", "hexoff"): fs.setdefault(a.args[0], []).append(a)
    if not fs: return
    for a in fs.get("hexoff", []):
        d, k = a.args[1:]
        add("hex_digit", implies(ge(d, 10), eq(pa(a), k)))
        add("hex_digit", implies(le(d, 9), eq(pa(a), 0)))
    qs = {}
    for a in fs.get("Q", []) + fs.get("dg", []): qs.setdefault(a.args[1:3], {})[a.args[3]] = 1
    for (x, b), js in qs.items():
        if any(a.args[1:] == (x, b) for a in fs.get("nd", [])): js[P(0)] = 1
        for j in js:
            add("Q_step", implies(ge(j, 0), eq(Q(x, b, j), b.const * Q(x, b, j + 1) + dg(x, b, j))))
            add("dg_range", le(dg(x, b, j), b.const - 1))
            for a in fs.get("nd", []):
                if a.args[1:] != (x, b): continue
                add("nd_Q", implies(and_(ge(j, 0), ge(Q(x, b, j), 1)), ge(pa(a), j + 1)))
                add("nd_Q", implies(and_(ge(j, 0), eq(Q(x, b, j), 0)), le(pa(a), j)))
    bs = {a.args[2] for l in ("Q", "dg") for a in fs.get(l, [])}
    for a in list(co.atoms):
        if a.kind == "fn" and a.args[0] in ("quo", "rem"):
            x, d = a.args[1:3]
            if d.isconst: continue
            for b in bs:
                q, r = fn("quo", x, d), fn("rem", x, d)
                add("quo_const", implies(and_(eq(d, b), ge(x, 0)), eq(x, b.const * q + r)))
                add("quo_const", implies(and_(eq(d, b), ge(x, 0)), and_(ge(r, 0), le(r, b - 1))))
    at = [a for a in co.atoms if a.kind == "sel"]
    def arrof(x):
        return x.t[0][0].f[0][0] if len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0].f) == 1 and x.t[0][0].f[0][1] == 1 and x.t[0][0].f[0][0].kind == "V" else None
    for a in fs.get("nd", []):
        x, b = a.args[1:]
        if b is not P(16): continue
        v = arrof(x)
        if v is None: continue
        ar, n = v.args
        for s in at:
            if s.args[0] is not ar: continue
            i = s.args[1]
            add("hex_length", or_(not_(and_(ge(i, 0), lt(i, n), ge(pa(s), 1), eq(x, V(ar, i + 1)))), eq(pa(a), 8 * i + nd(pa(s), 16))))
    for (x, b), js in qs.items():
        v = arrof(x)
        if v is None or not b.isconst or b.const < 8: continue
        for j in js:
            if j is not P(0): add("digit_room", implies(and_(ge(j, 0), ge(3 * j, 32 * v.args[1])), eq(Q(x, b, j), 0)))
    for a in fs.get("nd", []):
        x, b = a.args[1:]
        v = arrof(x)
        if v is not None and b.isconst and b.const >= 8: add("digit_room", implies(ge(v.args[1], 0), le(3 * pa(a), 32 * v.args[1] + 2)))
    for a in fs.get("nd", []):
        x, b = a.args[1:]
        add("nd_Q", implies(ge(x, 1), ge(pa(a), 1)))
        add("nd_Q", implies(eq(x, 0), eq(pa(a), 0)))
        if b is P(16): add("hex_length", implies(le(x, 2 ** 32 - 1), le(pa(a), 8)))
    for a in fs.get("dg", []):
        x, b, j = a.args[1:]
        if b is not P(16): continue
        v = arrof(x)
        if v is None: continue
        ar, n = v.args
        for s in at:
            if s.args[0] is not ar: continue
            i = s.args[1]
            add("hex_digits", implies(and_(ge(i, 0), lt(i, n), le(8 * i, j), lt(j, 8 * i + 8)), eq(pa(a), dg(pa(s), 16, j - 8 * i))))


smt.LEMMA_HOOKS.append(digits_hook)


def strval(a, n): return horner(a, cbase(a, n), cstart(a, n), n)


def hook(co, add, sels, Vs, Es, opts):
    fs = {}
    for a in list(co.atoms):
        if a.kind == "fn" and a.args[0] in ("dig", "fan", "cbase", "cstart", "horner", "dashes"): fs.setdefault(a.args[0], []).append(a)
    if not fs: return
    for x in fs.get("dig", []):
        c, d = x.args[1], pa(x)
        for lo, hi, k in (('0', '9', 48), ('a', 'f', 87), ('A', 'F', 55)): add("digit", implies(between(c, lo, hi), eq(d, c - k)))
        add("digit", or_(between(c, '0', '9'), between(c, 'a', 'f'), between(c, 'A', 'F'), eq(d, 99)))
    at = {}
    for a in co.atoms:
        if a.kind == "sel": at.setdefault(a.args[0], []).append(a)
    for x in fs.get("fan", []):
        a, n = x.args[1:]
        f = pa(x)
        add("first_alnum", implies(ge(n, 0), le(f, n)))
        add("first_alnum", implies(lt(f, n), alnum(sel(a, f))))
        for s in at.get(a, []):
            i = s.args[1]
            add("first_alnum", implies(and_(ge(i, 0), lt(i, f)), not_(alnum(pa(s)))))
    for a, n in dict.fromkeys(x.args[1:] for x in fs.get("cbase", []) + fs.get("cstart", [])):
        b, s, f = cbase(a, n), cstart(a, n), fan(a, n)
        p = and_(lt(f + 1, n), eq(sel(a, f), 48)) if n is not P(0) else FALSE
        c = sel(a, f + 1)
        for k in (2, 8, 10, 16):
            hit = or_(*[eq(c, x) for x, y in PRE.items() if y == k]) if k != 10 else and_(*[ne(c, x) for x in PRE])
            for q in (eq(b, k), eq(s, f if k == 10 else f + 2)): add("prefix", implies(and_(p, hit), q))
        for q in (eq(b, 10), eq(s, f)): add("prefix", implies(not_(p), q))
        add("prefix", implies(ge(n, 0), and_(ge(s, 0), le(s, n))))
        add("prefix", or_(eq(b, 2), eq(b, 8), eq(b, 10), eq(b, 16)))
    hs = fs.get("horner", [])
    for x in hs:
        a, b, lo, hi = x.args[1:]
        add("horner_empty", implies(le(hi, lo), eq(pa(x), 0)))
        for y in hs:
            if y is x or y.args[1] is not a or y.args[2] is not b or y.args[3] is not lo: continue
            if x.id < y.id: add("fun_cong", implies(eq(hi, y.args[4]), eq(pa(x), pa(y))))
            if hi + 1 is not y.args[4]: continue
            d = dig(sel(a, hi))
            v, w = pa(x), pa(y)
            for k in ([b.const] if b.isconst else (2, 8, 10, 16)):
                add("horner_step", implies(and_(eq(b, k), le(lo, hi), lt(d, k)), eq(w, v * k + d)))
                add("horner_step", implies(and_(eq(b, k), le(lo, hi), ge(d, k)), eq(w, v)))
    ds = fs.get("dashes", [])
    for x in ds:
        a, n = x.args[1:]
        add("dashes_empty", implies(le(n, 0), eq(pa(x), 0)))
        for y in ds:
            if y is x or y.args[1] is not a or n + 1 is not y.args[2]: continue
            c = sel(a, n)
            add("dashes_step", implies(and_(ge(n, 0), eq(c, 45)), eq(pa(y), 1 - pa(x))))
            add("dashes_step", implies(and_(ge(n, 0), ne(c, 45)), eq(pa(y), pa(x))))


smt.LEMMA_HOOKS.append(hook)
