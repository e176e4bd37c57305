"""Registry of verified units: C++ wrapper (what is run), contract (what is proved), property tags."""
import re
from .contract import Contract

UNITS = {}


class Unit:
    def __init__(self, name, cpp, params, props, lib=None, uses=(), extra=False, points=None, lits=None, nat=True, gen=None, hidden=False, defs=(), rel='eq', assumes=(), **kw):
        self.name, self.cpp, self.params, self.props = name, cpp, params, tuple(props)
        self.lib, self.uses = lib, tuple(uses)
        self.gen = gen
        self.nat = nat
        self.kw = kw
        self.points = points
        self.hidden = hidden
        self.kw_defs = defs
        self.assumes = tuple(assumes)
        self.nat = nat
        self.rel = rel
        UNITS[name] = self

    def contract(self, n0, m0):
        if self.lib:
            rx = self.lib.replace("{N}", str(32 * n0)).replace("{M}", str(32 * m0))
        else:
            rx = "^h_%s$" % re.escape(self.name)
        c = Contract(self.name, rx, self.params, **self.kw)
        c.unit = self
        return c

    def decl(self):
        return "extern \"C\" __attribute__((noinline)) " + self.cpp.replace("H(", "h_%s(" % self.name, 1)


def unit(name, cpp, params, props, **kw):
    return Unit(name, cpp, params, props, **kw)


def closure(names):
    out, st = [], list(names)
    while st:
        n = st.pop()
        if n in out: continue
        out.append(n)
        st += list(UNITS[n].uses)
    return sorted(out, key=lambda n: list(UNITS).index(n))


SAFETY = False      # only safety and termination are at stake (C23)
SAFE = {"C%02d" % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 18, 19, 20, 21, 22)}


def of_property(p):
    return [n for n, u in UNITS.items() if p in u.props and (p != "C23" or SAFE & set(u.props))]


def clone(name, defs, suffix):
    """the same contract for the code compiled with further macros"""
    u = UNITS[name]
    if name + suffix not in UNITS:
        Unit(name + suffix, u.cpp, u.params, [], lib=u.lib, uses=[clone(d, defs, suffix) for d in u.uses], defs=defs, rel=u.rel, nat=False, gen=u.gen, **u.kw)
    return name + suffix
