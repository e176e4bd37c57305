"""Running the real code on concrete inputs and evaluating the same contracts on the results."""
import ctypes, os, random, time, json, mmap, struct, signal, sys
from .term import *
from .contract import Ctx, Contract, isstr
from .exec import Cfg, bufkind
from . import units
from .units import UNITS

PAD = 64            # guard bytes around every object
GUARD = 0xA5


def kindof(k):
    out = k.startswith("sret:")
    k = k.replace("sret:", "")
    ro = k.startswith("c") and not k.startswith("cell")
    if ro: k = k[1:]
    return k, ro


def isscalar(k): return k[0] == "i" and k[1:].isdigit()


def nblocks(k, N, M): return M if k in ("UM", "SM") else N


class Inst:
    """one concrete execution"""

    def __init__(self, ct, N, M, vals):
        self.ct, self.N, self.M, self.vals = ct, N, M, vals


def to_limbs(v, n): return [(v >> (32 * i)) & 0xFFFFFFFF for i in range(n)]


def mkctx(ct, N, M, before, after, ret, alias):
    c = Ctx(Cfg(N, M))
    c.cnt = {}
    for pn, kind in ct.params:
        if isscalar(kind):
            w = int(kind[1:])
            v = before[pn]
            c.sc[pn] = boolc(v) if w == 1 else P(v)
            continue
        k, ro = kindof(kind)
        n = nblocks(k, N, M)
        for src, arrs, sg in ((before, c.old, c.osg), (after, c.new, c.nsg)):
            if src is None: continue
            v = src[pn]
            if k in ("U", "UM"): arrs[pn] = alit(v[1])
            elif k in ("S", "SM"): arrs[pn] = alit(v[1]); sg[pn] = P(v[0] & 0xFFFFFFFF)
            elif k == "Z":
                c.sc[pn + ".mag"] = P(sum(b << (32 * i) for i, b in enumerate(before[pn][1])))
                c.sc[pn + ".sgn"] = P(before[pn][0] % 2 ** 32)
            elif k == "UU":
                arrs[pn + ".0"] = alit(v[1][:n]); arrs[pn + ".1"] = alit(v[1][n:])
                c.cnt[pn + ".0"] = c.cnt[pn + ".1"] = P(n)
            elif k.startswith("cell"): sg[pn] = P(v[0])
            elif k.startswith("buf"):
                arrs[pn] = alit(v[1], 2 ** (8 * bufkind(k)[0]) - 1)
                c.cnt[pn] = P(len(v[1]))
            elif isstr(k):
                v = before[pn]
                c.old[pn] = alit(v[1], 2 ** (8 * int(k[2:])) - 1)
                c.sc[pn + ".n"] = c.cnt[pn] = P(len(v[1]))
        if k in ("U", "UM", "S", "SM"): c.cnt[pn] = P(n)
    if ct.ret is None or ct.ret.startswith("ref:"): c.ret = None
    elif ret is not None:
        w = int(ct.ret[1:])
        c.ret = boolc(ret & 1) if w == 1 else P(ret % 2 ** w)
    return c


class Runner:
    def __init__(self, so, ct, N, M):
        self.lib = ctypes.CDLL(so)
        self.fn = getattr(self.lib, "h_" + ct.name)
        self.ct, self.N, self.M = ct, N, M
        at = []
        for pn, kind in ct.params:
            if isscalar(kind):
                w = int(kind[1:])
                at.append({1: ctypes.c_bool, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[w])
            else: at.append(ctypes.c_void_p)
        self.fn.argtypes = at
        r = ct.ret
        self.fn.restype = None if r is None else ctypes.c_void_p if r.startswith("ref:") else {1: ctypes.c_bool, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[int(r[1:])]

    def pack(self, k, v):
        if k in ("U", "UM", "UU"): return struct.pack("<%dI" % len(v[1]), *v[1])
        if k in ("S", "SM"): return struct.pack("<i%dI" % len(v[1]), v[0], *v[1])
        if k.startswith("cell"): return int(v[0]).to_bytes(int(k[4:]), "little")
        if k == "Z":
            d = struct.pack("<%dI" % len(v[1]), *v[1])
            buf = ctypes.create_string_buffer(d + b"\xA5" * 16, len(d) + 16)
            self.keep.append(buf)
            return struct.pack("<iiQ", max(1, len(v[1]) // 2), v[0] * (len(v[1]) // 2), ctypes.addressof(buf))
        if isstr(k):
            w = int(k[2:])
            d = b"".join(int(x).to_bytes(w, "little") for x in v[1])
            buf = ctypes.create_string_buffer(d + b"\0" * w, len(d) + w)
            self.keep.append(buf)
            p, n = ctypes.addressof(buf), len(v[1])
            return struct.pack("<QQ", n, p) if k[:2] == "sv" else struct.pack("<QQQQ", p, n, n, 0)
        if k.startswith("buf"):
            b = bufkind(k)[0]
            return b"".join(int(x).to_bytes(b, "little") for x in v[1])
        raise KeyError(k)

    def unpack(self, k, b):
        if k in ("U", "UM", "UU"): return (None, list(struct.unpack("<%dI" % (len(b) // 4), b)))
        if k in ("S", "SM"):
            x = struct.unpack("<i%dI" % (len(b) // 4 - 1), b)
            return (x[0], list(x[1:]))
        if k.startswith("cell"): return (int.from_bytes(b, "little"), None)
        if k == "Z" or isstr(k): return (b, None)
        if k.startswith("buf"):
            w = bufkind(k)[0]
            return (None, [int.from_bytes(b[i:i + w], "little") for i in range(0, len(b), w)])

    def call(self, vals, alias):
        """vals: name -> (sign, limbs) or int.  Returns (after, ret, problem)"""
        bufs, args = {}, []
        self.keep = []
        al = {}
        for g in alias:
            for x in g[1:]: al[x] = g[0]
        for pn, kind in self.ct.params:
            if isscalar(kind):
                args.append(vals[pn]); continue
            k, ro = kindof(kind)
            if pn in al:
                bufs[pn] = bufs[al[pn]]
            else:
                d = self.pack(k, vals[pn])
                # trailing guard starts right after the object; 8-byte aligned start
                buf = ctypes.create_string_buffer(bytes([GUARD]) * PAD + d + bytes([GUARD]) * PAD, len(d) + 2 * PAD)
                bufs[pn] = (buf, len(d), d)
            args.append(ctypes.addressof(bufs[pn][0]) + PAD)
        r = self.fn(*args)
        after, prob = {}, None
        mods = set(self.ct.mods)
        for x in al:
            if al[x] in mods: mods.add(x)
            if x in mods: mods.add(al[x])
        for pn, kind in self.ct.params:
            if isscalar(kind): continue
            k, ro = kindof(kind)
            buf, n, d = bufs[pn]
            raw = buf.raw
            if raw[:PAD] != bytes([GUARD]) * PAD or raw[PAD + n:PAD + n + PAD] != bytes([GUARD]) * PAD:
                prob = "memory outside %s was written" % pn
            after[pn] = self.unpack(k, raw[PAD:PAD + n])
            if pn not in mods and not kind.startswith("sret") and raw[PAD:PAD + n] != d:
                prob = prob or "%s was modified" % pn
        if self.ct.ret and self.ct.ret.startswith("ref:"):
            i = [p for p, _ in self.ct.params].index(self.ct.ret[4:])
            if r != args[i]: prob = prob or "does not return a reference to its left operand"
            r = None
        return after, r, prob


# ---------------------------------------------------------------- inputs
BL = [0, 0, 0, 1, 2, 3, 5, 7, 10, 16, 0x7F, 0x80, 0xFF, 0x100, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFF, 0x10000, 0xFFFF0000, 0x55555555]


def blk(rng, harvest):
    if harvest and rng.random() < .15: return rng.choice(harvest) & 0xFFFFFFFF
    return rng.choice(BL)


def rnd_value(rng, n, pool, harvest=()):
    """an n-block value, shaped to reach carries, extreme blocks and lengths"""
    W = 32 * n
    t = rng.random()
    if t < .12: return rng.choice([0, 1, 2, 3, 2 ** W - 1, 2 ** W - 2, 2 ** (W - 1), 2 ** (W - 1) - 1, 2 ** 32, 2 ** 32 - 1, 2 ** 64 - 1, 2 ** 64, 2 ** 63, 2**31])
    if t < .30:
        e = rng.randrange(W)
        if rng.random() < .5: e = e // 32 * 32
        v = 2 ** e + rng.choice([-1, 0, 1, 0, -2, 2])
        if rng.random() < .3: v += 2 ** rng.randrange(W)
        return v % 2 ** W
    if t < .42 and pool:
        x = rng.choice(pool)
        m = rng.random()
        if m < .3: return x % 2 ** W
        if m < .45: return (x + rng.choice([-1, 1])) % 2 ** W
        if m < .6: return (x ^ (1 << rng.randrange(W))) % 2 ** W
        if m < .75: return (2 ** W - x) % 2 ** W
        if m < .85: return (x >> rng.randrange(1, W)) % 2 ** W
        if m < .92: return (x * rng.choice([2, 3, 2 ** 32, 2 ** 32 - 1])) % 2 ** W
        return ~x % 2 ** W
    if t < .46 and harvest: return rng.choice(harvest) % 2 ** W
    ln = rng.randrange(n + 1) if t < .75 else n
    sty = rng.random()
    if sty < .45: return sum(blk(rng, harvest) << (32 * i) for i in range(ln))
    if sty < .65: return sum((blk(rng, harvest) if rng.random() < .5 else rng.getrandbits(32)) << (32 * i) for i in range(ln))
    if sty < .75 and ln:
        return rng.getrandbits(rng.randrange(1, 32 * ln + 1))
    return rng.getrandbits(32 * ln) if ln else 0


def rnd_scalar(rng, w, N, pool, harvest=()):
    t = rng.random()
    if w == 1: return rng.random() < .5
    m = 2 ** w
    if t < .25: return rng.choice([0, 1, 2, 3, m - 1, m - 2, m // 2, m // 2 - 1, m // 2 + 1, 2 ** (w // 2), 2 ** (w // 2) - 1, 10, 16, 8, 5, 31, 32, 33, 63, 64, 65]) % m
    if t < .6:
        b = rng.choice([N, 4 * N, 32 * N, 32, 64, 8, 4])
        return (b + rng.choice([-33, -32, -31, -2, -1, 0, 1, 2, 31, 32, 33])) % m
    if t < .8: return rng.randrange(32 * N) % m
    if t < .85 and pool: return rng.choice(pool) % m
    if t < .88 and harvest: return rng.choice(harvest) % m
    return rng.getrandbits(rng.randrange(1, w + 1))


def gen_input(rng, ct, N, M, harvest=()):
    vals, pool = {}, []
    g = ct.unit.gen
    if g:
        v = g(rng, ct, N, M)
        if v is not None: return v
    for pn, kind in ct.params:
        if isscalar(kind):
            vals[pn] = rnd_scalar(rng, int(kind[1:]), N, pool, harvest)
            continue
        k, ro = kindof(kind)
        n = nblocks(k, N, M)
        if k in ("U", "UM"):
            v = rnd_value(rng, n, pool, harvest)
            pool.append(v)
            vals[pn] = (None, to_limbs(v, n))
        elif k in ("S", "SM"):
            v = rnd_value(rng, n, pool, harvest)
            pool.append(v)
            vals[pn] = (0 if v == 0 else rng.choice([1, -1]), to_limbs(v, n))
        elif k == "UU": vals[pn] = (None, [rng.getrandbits(32) for _ in range(2 * n)])
        elif k.startswith("cell"): vals[pn] = (rng.getrandbits(8 * int(k[4:])), None)
        else: raise KeyError(kind)
    return vals


def evaluate(ct, N, M, vals, after, ret):
    """labels of violated postconditions (None: precondition not met)"""
    if units.SAFETY: return []
    c = mkctx(ct, N, M, vals, after, ret, ())
    bad = []
    for lab, b in (ct.post(c) if ct.post else []):
        if b is FALSE: bad.append(lab)
        elif b is not TRUE: bad.append(lab + " (undecided: %r)" % (b,))
    return bad


def pre_ok(ct, N, M, vals):
    if not ct.pre: return True
    c = mkctx(ct, N, M, vals, None, None, ())
    try: return all(b is TRUE for b in ct.pre(c))
    except Undefined: return False


def describe(ct, vals):
    d = {}
    for pn, kind in ct.params:
        v = vals[pn]
        if isscalar(kind): d[pn] = int(v)
        elif v[1] is not None and not kindof(kind)[0].startswith("buf") and not isstr(kindof(kind)[0]):
            x = sum(b << (32 * i) for i, b in enumerate(v[1]))
            d[pn] = {"sign": v[0], "hex": hex(x)} if v[0] is not None else hex(x)
        else: d[pn] = v[1] if v[1] is not None else v[0]
    return d


def reset_terms():
    from . import term
    term.reset()


def worker(so, uname, n0, m0, N, M, seed, secs, maxn, shm, harvest=(), fixed=()):
    """child process: runs until the time is used or a violation; writes a JSON result to shm"""
    import locale
    locale.setlocale(locale.LC_ALL, "C")
    u = UNITS[uname]
    ct = u.contract(n0, m0)
    R = Runner(so, ct, N, M)
    rng = random.Random(seed)
    t0 = time.time()
    n = tried = 0
    scen = ct.scenarios()
    from . import term
    term.snapshot()

    def put(d):
        s = json.dumps(d).encode()
        shm.seek(0)
        shm.write(struct.pack("<I", len(s)) + s)
    fixed = list(fixed)
    while (n < maxn and time.time() - t0 < secs) or fixed:
        tried += 1
        if fixed: vals, alias = fixed.pop()
        else:
            if tried > 50 * maxn: break
            alias = scen[tried % len(scen)]
            vals = gen_input(rng, ct, N, M, harvest)
            for g in alias:
                for x in g[1:]: vals[x] = vals[g[0]]
        if not pre_ok(ct, N, M, vals): continue
        n += 1
        put(dict(state="running", n=n, vals=describe(ct, vals), alias=[list(g) for g in alias], raw={k: v for k, v in vals.items()}))
        after, ret, prob = R.call(vals, alias)
        if prob and units.SAFETY and not prob.startswith("memory"): prob = None
        bad = [prob] if prob else evaluate(ct, N, M, vals, after, ret)
        if bad:
            put(dict(state="bad", n=n, vals=describe(ct, vals), alias=[list(g) for g in alias], bad=bad, after=describe(ct, {**vals, **{k: v for k, v in after.items() if not isinstance(v[0], bytes)}}), ret=None if ret is None else int(ret), raw={k: v for k, v in vals.items()}))
            os._exit(3)
        if n % 200 == 0: reset_terms()
    put(dict(state="done", n=n))
    os._exit(0)


def run(so, uname, n0, m0, N, M, seed, secs, maxn=10 ** 9, harvest=(), fixed=(), hang=10.0):
    """forked execution with crash and hang detection"""
    shm = mmap.mmap(-1, 1 << 20)
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get("VT_DEBUG"): os.dup2(dn, 2)
            worker(so, uname, n0, m0, N, M, seed, secs, maxn, shm, harvest, fixed)
        except BaseException as e:
            if os.environ.get("VT_DEBUG"):
                import traceback; traceback.print_exc()
            os._exit(77)
        os._exit(0)

    def get():
        shm.seek(0)
        n, = struct.unpack("<I", shm.read(4))
        return json.loads(shm.read(n)) if n else dict(state="none", n=0)
    t0 = time.time(); last = None; lt = t0
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        time.sleep(0.02)
        if time.time() - lt > 1.0:
            try: d = get()
            except Exception: continue
            if d.get("n") != last: last = d.get("n"); lt = time.time()
            elif time.time() - lt > hang:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
                if d["state"] == "running":
                    d["bad"] = ["does not terminate within %d s" % hang]; d["state"] = "bad"
                return d
    try: d = get()
    except Exception: d = dict(state="none", n=0)
    if os.WIFSIGNALED(st):
        if d["state"] == "running":
            sg = os.WTERMSIG(st)
            d["state"] = "bad"
            d["bad"] = ["undefined behaviour trap" if sg in (signal.SIGILL, signal.SIGTRAP) else "failed assertion or abort" if sg == signal.SIGABRT else "invalid memory access" if sg in (signal.SIGSEGV, signal.SIGBUS) else "arithmetic trap" if sg == signal.SIGFPE else "killed by signal %d" % sg]
    elif os.WEXITSTATUS(st) == 77: d["state"] = "error"
    return d
