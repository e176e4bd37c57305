"""C24: the same contracts, for the code as compiled with AESI_UNSAFE (no range checks in the accessors).

The accessors get the precondition that the index is in range; everything built on them keeps its contract, so
an operation that relied on a range check fails the accessor's precondition or a memory obligation here."""
from .units import unit, UNITS, closure
from .term import *

DEFS = ("AESI_UNSAFE",)
PER = {"Bit": 32, "Byte": 4, "Block": 1}


def clone(name):
    u = UNITS[name]
    n2 = name + "_us"
    if n2 in UNITS: return n2
    uses = ["dividez" if d == "divide" else d for d in u.uses]
    for d in uses: clone(d)
    kw = dict(u.kw)
    pre = kw.get("pre")
    for k, per in PER.items():
        if name.lstrip("s") in ("get" + k, "set" + k, "et" + k) or name in ("getBitM_lt", "getBitM_gt", "sget" + k, "sset" + k):
            if "M_" in name and k != "Bit": continue
            cnt = (lambda c: c.M) if "M_" in name else (lambda c: c.N)
            pre = (lambda c, p0=kw.get("pre"), per=per, cnt=cnt: (p0(c) if p0 else []) + [lt(c.a("i"), per * cnt(c))])
    if name in ("power2", "spower2"):
        pre = lambda c: [lt(c.a("e"), c.W)]
    if pre: kw["pre"] = pre
    unit(n2, u.cpp, u.params, ["C24"] if name in TOP else [], lib=u.lib, uses=[d + "_us" for d in uses], defs=DEFS, rel=u.rel, nat=u.nat, gen=u.gen, **kw)
    return n2


TOP = ["getBit", "setBit", "getByte", "setByte", "getBlock", "setBlock", "sgetBit", "ssetBit", "sgetByte", "ssetByte", "sgetBlock", "ssetBlock",
       "dividez", "quo", "rem", "quoeq", "remeq", "gcd", "bezout", "lcm", "powm", "powm_lt", "powm_gt", "power2", "squareRoot", "ssquareRoot", "spower2",
       "cmp", "cmp_lt", "cmp_gt", "op_lt_lt", "op_eq_gt", "pcast_lt", "pcast_gt", "spcast_lt", "spcast_gt", "scmp", "scmp_lt", "scmp_gt", "sdivide", "squoeq", "sremeq"]
for n in TOP: clone(n)
