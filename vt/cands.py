"""Loop-invariant candidates (Houdini): generated from the loop's own variables, kept only if proved."""
from .term import *


def regions(ex, li, mod=None):
    """keys of 32-bit block arrays live at the loop"""
    out = []
    for k, v in li.live.items():
        if isinstance(v, Arr):
            out.append(k)
    return sorted(out, key=repr)


def count(ex, key):
    o = ex.objs.get(key[0]) or ex.globs.get(key[0][1:])
    return o.regions[key[1]].count


def elt(ex, key):
    o = ex.objs.get(key[0]) or ex.globs.get(key[0][1:])
    return o.regions[key[1]].elt


def intphis(li, minw=8):
    return [x for x, w in li.phis.items() if w >= minw]


def outers(li, lim=6):
    """distinct non-constant integers defined before the loop"""
    seen, out = set(), []
    for k, v in li.outer.items():
        if v.isconst or v in seen: continue
        seen.add(v); out.append(k)
    return out


def pathconsts(ex, li):
    """values chosen by an earlier branch (constant on each path)"""
    sel = {i.res for b in ex.fn.order for i in ex.fn.blocks[b] if i.op in ("select", "phi")}
    return [k for k, v in li.outer.items() if k in sel and v.isconst]


def ptridx(ex, li):
    """pointers stepping through an array: index name -> (element index at entry, element count)"""
    out = {}
    for x, p in li.pphis.items():
        rs = [r for r in p.obj.regions if r.kind == "arr"]
        if len(rs) != 1: continue
        r = rs[0]
        d = p.off - r.start
        if any(c % r.elt for m, c in d.t): continue
        out[x + ".idx"] = (mkpoly({m: c // r.elt for m, c in d.t}), r.count)
    return out


def ocount(lv, x): return [r for r in lv[x].obj.regions if r.kind == "arr"][0].count


def generic(ex, li):
    out = []
    N = ex.cfg.N
    ph = intphis(li)

    def add(d, f): out.append((d, f))
    used = {"loc:" + x for x in ph}
    for x in ph:
        init = li.inits.get(x)
        add("%s <= N" % x, lambda lv, x=x: le(lv[x], lv.N))
        add("%s <= B-1" % x, lambda lv, x=x: le(lv[x], 2**32 - 1))
        add("%s <= 1" % x, lambda lv, x=x: le(lv[x], 1))
        if isinstance(init, Poly):
            add("%s >= init" % x, lambda lv, x=x: ge(lv[x], lv.init[x]))
            add("%s <= init" % x, lambda lv, x=x: le(lv[x], lv.init[x]))
        for o in outers(li)[:8] + pathconsts(ex, li):
            add("%s <= %s" % (x, o), lambda lv, x=x, o=o: le(lv[x], lv[o]))
        for k, v in sorted(li.live.items(), key=repr):
            if isinstance(v, Poly) and not v.isconst and k not in li.mod: add("%s <= %s" % (x, k[0]), lambda lv, x=x, k=k: le(lv[x], lv.cell(k)))
    for i, x in enumerate(ph):
        for y in ph[i + 1:]:
            add("%s-%s const" % (x, y), lambda lv, x=x, y=y: eq(lv[x] - lv.init[x], lv[y] - lv.init[y]))
            add("%s+%s const" % (x, y), lambda lv, x=x, y=y: eq(lv[x] + lv[y], lv.init[x] + lv.init[y]))
            add("%s <= %s" % (x, y), lambda lv, x=x, y=y: le(lv[x], lv[y]))
            add("%s <= %s" % (y, x), lambda lv, x=x, y=y: le(lv[y], lv[x]))
    ptrs = ptridx(ex, li)
    for x in ptrs:
        add("%s >= 0" % x, lambda lv, x=x: ge(lv[x], 0))
        add("%s <= 0" % x, lambda lv, x=x: le(lv[x], 0))
        add("%s in its object" % x, lambda lv, x=x: and_(ge(lv.elem(x[:-4]), 0), le(lv.elem(x[:-4]), ocount(lv, x[:-4]))))
    for x in ptrs:
        for y in ph + [z for z in ptrs if z < x]:
            add("%s-%s const" % (x, y), lambda lv, x=x, y=y: eq(lv[x] - lv.init[x], lv[y] - lv.init[y]))
            add("%s+%s const" % (x, y), lambda lv, x=x, y=y: eq(lv[x] + lv[y], lv.init[x] + lv.init[y]))
    arrs = regions(ex, li)
    idx = [x for x in ph if li.phis[x] >= 32]
    for k in arrs:
        if k in li.mod:
            for x in idx:
                add("%s unchanged from %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), lv.arrL(k), lv[x], lv.count(k)))
                add("%s unchanged below %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), lv.arrL(k), 0, lv[x]))
                add("%s zero from %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), aconst(0, lv.arr(k).hi), lv[x], lv.count(k)))
                add("%s zero below %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), aconst(0, lv.arr(k).hi), 0, lv[x]))
            for x in ptrs:
                add("%s unchanged from %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), lv.arrL(k), lv.elem(x[:-4]), lv.count(k)))
                add("%s unchanged below %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), lv.arrL(k), 0, lv.elem(x[:-4])))
                add("%s zero from %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), aconst(0, lv.arr(k).hi), lv.elem(x[:-4]), lv.count(k)))
                add("%s zero below %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), aconst(0, lv.arr(k).hi), 0, lv.elem(x[:-4])))
        else:
            for x in idx:
                add("%s zero from %s" % (k[0], x), lambda lv, x=x, k=k: eqr(lv.arr(k), aconst(0, lv.arr(k).hi), lv[x], lv.count(k)))
    return out


def measures(ex, li):
    out = []
    ph = intphis(li)
    for x in ptridx(ex, li):
        out.append(("end-" + x, lambda lv, x=x: ocount(lv, x[:-4]) - lv.elem(x[:-4])))
        out.append((x + "-begin", lambda lv, x=x: lv.elem(x[:-4])))
    for x in ph:
        out.append((x, lambda lv, x=x: lv[x]))
        out.append(("N-" + x, lambda lv, x=x: lv.N - lv[x]))
        for o in outers(li)[:8]:
            out.append(("%s-%s" % (o, x), lambda lv, x=x, o=o: lv[o] - lv[x]))
    return out
