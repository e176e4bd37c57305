"""Contracts assumed for the external functions the library calls (allocation, GMP, C and C++ standard library)."""
from . import exec as X
from . import conc as K
from .exec import EXTERN, Ptr, Obj, Region, Unsupported, NULL
from .conc import CONC_EXTERN, Stop
from .term import *

ASSUMED = {}


def extern(*names, says=""):
    def d(f):
        for n in names: EXTERN[n] = f; ASSUMED[n] = says
        return f
    return d


def conc(*names):
    def d(f):
        for n in names: CONC_EXTERN[n] = f
        return f
    return d


def args(ex, st, i): return [ex.val(st, v, ty) for ty, v, at in i.args]


# ---------------------------------------------------------------- allocation
@extern("_Znwm", says="operator new returns a fresh object of the requested size (allocation failure is not modelled)")
def new(ex, st, i):
    n, = args(ex, st, i)
    elt = 4 if all(c % 4 == 0 for m, c in n.t) else 1
    o = Obj("new" + i.res, [Region(P(0), elt, mkpoly({m: c // elt for m, c in n.t}), "arr", 0)])
    if "$heap:" + o.name in st.env and "$freed:" + o.name not in st.env: raise Unsupported("allocation in a loop")
    ex.objs[o.name] = o
    st.env.pop("$freed:" + o.name, None)
    st.env["$heap:" + o.name] = TRUE
    st.mem[o.key(o.regions[0])] = fresh_arr(o.name, o.regions[0].hi)
    st.env[i.res] = Ptr(o, 0)


@conc("_Znwm")
def cnew(ex, st, i):
    n, = args(ex, st, i)
    if not n.isconst or n.const > 1 << 16: raise Stop()
    elt = 4 if n.const % 4 == 0 else 1
    o = Obj(ex.prefix + "new" + i.res, [Region(P(0), elt, P(n.const // elt), "arr", 0)])
    ex.objs[o.name] = o
    st.mem[o.key(o.regions[0])] = ex.randarr(o.regions[0])
    st.env[i.res] = Ptr(o, 0)


@extern("_ZdlPv", "_ZdlPvm", says="operator delete releases an object obtained from operator new")
def delete(ex, st, i):
    p = args(ex, st, i)[0]
    if p is NULL: return
    ok = isinstance(p, Ptr) and p.off is P(0) and "$heap:" + p.obj.name in st.env and "$freed:" + p.obj.name not in st.env
    ex.oblige(st, "memory", "released memory was allocated and not yet released", TRUE if ok else FALSE)
    if ok: st.env["$freed:" + p.obj.name] = TRUE


@conc("_ZdlPv", "_ZdlPvm")
def cdelete(ex, st, i): return None


@extern("_ZSt20__throw_length_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt17__throw_bad_allocv")
def throws(ex, st, i):
    ex.oblige(st, "termination", "no exception is thrown", FALSE)
    return "end"


# ---------------------------------------------------------------- GMP
def zval(ex, st, p):
    """ghost magnitude of an mpz object"""
    if not isinstance(p, Ptr) or p.off is not P(0) or not hasattr(p.obj, "mag"): raise Unsupported("not a GMP integer")
    return p.obj.mag


MAXBITS = 2 ** 37       # GMP: at most 2^31-1 limbs


def bits(m): return m.const.bit_length()


@extern("__gmpz_sizeinbase", says="mpz_sizeinbase(z, 2) is the bit length of |z| (1 for zero), at most 2^37")
def sizeinbase(ex, st, i):
    z, b = args(ex, st, i)
    if not (b.isconst and b.const == 2): raise Unsupported("mpz_sizeinbase in another base")
    m = zval(ex, st, z)
    if m.isconst: st.env[i.res] = P(max(1, bits(m))); return
    n = fresh("bits", 1, MAXBITS)
    st.add(lt(m, E(n)), or_(ge(m, E(n - 1)), and_(eq(m, 0), eq(n, 1))))
    st.env[i.res] = n


@extern("__gmpz_export", says="mpz_export(p, &c, -1, 4, -1, 0, z) stores the base-2^32 digits of |z|, least significant first, and their number")
def export(ex, st, i):
    d, c, order, size, endian, nails, z = args(ex, st, i)
    ok = order is P(2 ** 32 - 1) and size is P(4) and endian in (P(2 ** 32 - 1), P(0)) and nails is P(0)
    if not ok: raise Unsupported("mpz_export with another format")
    m = zval(ex, st, z)
    if not isinstance(d, Ptr): raise Unsupported("mpz_export into a fresh buffer")
    rs = [r for r in d.obj.regions if r.kind == "arr" and r.elt == 4 and r.start is d.off]
    if not rs: raise Unsupported("mpz_export into another layout")
    r = rs[0]; k = d.obj.key(r)
    if "$freed:" + d.obj.name in st.env: ex.oblige(st, "memory", "export into allocated memory", FALSE)
    old = ex.read_cell_or_arr(st, d.obj, r)
    if m.isconst:
        n = (bits(m) + 31) // 32
        if n > r.count.const: raise Stop()
        l = list(old.args[0]); l[:n] = [(m.const >> (32 * j)) & 0xFFFFFFFF for j in range(n)]
        na, cnt = alit(l, r.hi), P(n)
    else:
        cnt = fresh("limbs", 0, MAXBITS)
        na = fresh_arr(d.obj.name, r.hi)
        st.add(lt(m, E(32 * cnt)), or_(ge(m, E(32 * cnt - 32)), eq(cnt, 0)), implies(eq(cnt, 0), eq(m, 0)), implies(eq(m, 0), eq(cnt, 0)))
        ex.oblige(st, "memory", "the exported digits fit the buffer", le(cnt, r.count))
        st.add(le(cnt, r.count), eq(V(na, cnt), m), eqr(na, old, cnt, r.count))
    ex.note_write(st, k)
    st.mem[k] = na
    ex.store(st, c, 8, cnt)
    if i.res: st.env[i.res] = d


conc("__gmpz_sizeinbase")(sizeinbase)
conc("__gmpz_export")(export)
