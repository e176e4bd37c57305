"""Mechanical extraction of the code under proof.

The real headers are compiled by clang to LLVM IR at several precisions, small
helpers are inlined by LLVM itself, and the IR texts of the sample precisions are
merged token by token into one IR whose integer literals are affine functions of
the number of blocks N (and of a second precision M where two precisions mix).
"""
import math, os, re, subprocess, hashlib, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

CLANG = os.environ.get("VT_CLANG", "clang++-18" if shutil.which("clang++-18") else "clang++")
OPT = shutil.which("opt-18") or shutil.which("opt") or "opt"
CXXFILT = shutil.which("llvm-cxxfilt-18") or shutil.which("llvm-cxxfilt") or "c++filt"
PASSES = "always-inline,function(sroa<modify-cfg>,early-cse,simplifycfg,adce,loop-simplify),globaldce"


class ExtractError(Exception):
    pass


class Aff:
    """integer literal c + n*N + m*M"""
    __slots__ = ("c", "n", "m")

    def __init__(self, c, n=0, m=0):
        self.c, self.n, self.m = c, n, m

    def at(self, N, M=0):
        return self.c + self.n * N + self.m * M

    def __repr__(self):
        s = str(self.c)
        if self.n: s += "%+d*N" % self.n
        if self.m: s += "%+d*M" % self.m
        return s

    def __eq__(self, o):
        return isinstance(o, Aff) and (self.c, self.n, self.m) == (o.c, o.n, o.m)

    def __hash__(self):
        return hash((self.c, self.n, self.m))


class NonAff:
    """literal that is not affine in the precision: known only at the sampled points,
    unless g*(p*N div q) fits all of them (then frac is (g, p, q), q as small as possible)"""
    __slots__ = ("samples", "frac")

    def __init__(self, samples):
        self.samples = samples
        self.frac = None
        if len(samples) >= 6 and not any(m for _, m in samples) and all(v >= 0 for v in samples.values()):
            g = math.gcd(*samples.values()) or 1
            lo = max(Fraction(v // g, n) for (n, _), v in samples.items())
            hi = min(Fraction(v // g + 1, n) for (n, _), v in samples.items())
            for q in range(1, 400):
                p = -(-lo.numerator * q // lo.denominator)
                if Fraction(p, q) < hi: self.frac = (g, p, q); break

    def at(self, N, M=0):
        if self.frac: return self.frac[0] * (self.frac[1] * N // self.frac[2])
        return self.samples[(N, M)]

    def __repr__(self):
        return "nonaff%r" % (self.samples,)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    return r.stdout


def demangle(names):
    names = list(names)
    if not names:
        return {}
    r = subprocess.run([CXXFILT, "-n"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, text=True)
    out = r.stdout.split("\n")
    return dict(zip(names, out))


MEMCPY_CONST = re.compile(r'\s+call void @llvm\.memcpy\.p0\.p0\.i64\(ptr align (?:4|8|16) (%[-\w.$]+|%"[^"]*"), ptr align (4|8|16) (@__const\.[-\w.$]+), i64 (\d+), i1 false\)')


def small_constants(txt):
    """local initialisers that are one number each: name -> blocks"""
    out = {}
    for m in re.finditer(r'^(@__const\.[-\w.$]+) = private unnamed_addr constant %class\.Aeu \{[^\[]*\[(\d+) x i32\] \[([^\]]*)\] \} \}', txt, re.M):
        vals = [int(x.split()[1]) for x in m.group(3).split(",")]
        if len(vals) == int(m.group(2)): out[m.group(1)] = vals
    return out


def compile_one(src, workdir, macros, keep, repo, extra=(), lib_extern=None):
    """returns (ir text, demangle map); keep(demangled)->bool: function stays a unit"""
    tag = hashlib.sha1(repr((src, macros, extra)).encode()).hexdigest()[:12]
    raw = os.path.join(workdir, tag + ".ll")
    mk = os.path.join(workdir, tag + ".m.ll")
    fin = os.path.join(workdir, tag + ".o.ll")
    cmd = [CLANG, "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions",
           "-fno-strict-aliasing", "-fno-discard-value-names", "-w", "-I", os.path.join(repo, "include"),
           "-emit-llvm", "-S", "-o", raw, src] + ["-D%s=%s" % kv for kv in macros.items()] + list(extra)
    run(cmd)
    txt = open(raw).read()
    names = re.findall(r'^define [^@]*@("[^"]*"|[\w.$]+)\(', txt, re.M)
    dm = demangle([n.strip('"') for n in names])
    out = []
    attrs = {}
    smallc = small_constants(txt)
    for line in txt.split("\n"):
        if line.startswith("define "):
            name = re.search(r'@("[^"]*"|[\w.$]+)\(', line).group(1).strip('"')
            d = dm.get(name, name)
            line = re.sub(r" (noinline|alwaysinline|optnone)\b", "", line)
            if keep(d, name):
                line = line.replace("linkonce_odr ", "weak_odr ").replace("internal ", "")
                at = "noinline"
            elif lib_extern and lib_extern(d, name):
                at = "noinline"
            else:
                at = "alwaysinline"
            if re.search(r" #\d+", line):
                i = list(re.finditer(r" #\d+", line))[-1].start()
            else:
                i = line.rindex(")") + 1
            line = line[:i] + " " + at + line[i:]
        elif line.startswith("attributes #"):
            line = re.sub(r" (noinline|optnone|mustprogress)\b", "", line)
        m = MEMCPY_CONST.match(line)
        if m and m.group(3) in smallc and int(m.group(4)) == 4 * len(smallc[m.group(3)]):
            # clang initialises small numbers from a constant and larger ones by memset and stores: use the second form throughout
            x = m.group(1)
            out.append("  call void @llvm.memset.p0.i64(ptr align 4 %s, i8 0, i64 %s, i1 false)" % (x, m.group(4)))
            for j, v in enumerate(smallc[m.group(3)]):
                if not v: continue
                out.append("  %%vtc%d = getelementptr inbounds i8, ptr %s, i64 %d" % (len(out), x, 4 * j))
                out.append("  store i32 %d, ptr %%vtc%d, align 4" % (v, len(out) - 1))
            continue
        out.append(line)
        # keep the numbers whole: scalar replacement would split them at arbitrary block boundaries
        m = re.match(r'\s+(%[-\w.$]+|%"[^"]*") = alloca (%class\.Aeu|%class\.Aesi)\b', line)
        if m: out.append("  call void @vt_pin(ptr %s)" % m.group(1))
    if "@llvm.memset.p0.i64(" not in txt: out.append("declare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg)")
    out.append("declare void @vt_pin(ptr) nounwind willreturn memory(inaccessiblemem: readwrite)")
    open(mk, "w").write("\n".join(out))
    run([OPT, "-S", "-passes=" + PASSES, mk, "-o", fin])
    res = open(fin).read()
    for f in (raw, mk, fin):
        os.unlink(f)
    return res, dm


TOK = re.compile(r'''"(?:[^"\\]|\\.)*"|[%@][-\w.$]+|[%@]"[^"]*"|-?\d+(?:\.\d+e[+-]\d+)?(?![\w.])|c"[^"]*"|[-\w.$]+|\.\.\.|[(){}\[\]<>,=:*#!|]|\S''')


def strip_line(l):
    # metadata and comments
    q = False
    for i, ch in enumerate(l):
        if ch == '"':
            q = not q
        elif ch == ';' and not q:
            l = l[:i]
            break
    l = re.sub(r',? ![\w.]+ ![0-9]+', '', l)
    l = re.sub(r',? !\w+ !\{[^}]*\}', '', l)
    return l.rstrip()


def tokenize(l):
    return TOK.findall(l)


INT = re.compile(r'-?\d+$')


def merge(samples):
    """samples: list of ((N, M), ir_text).  Returns list of merged token lines."""
    pts = [p for p, _ in samples]
    streams = []
    for _, t in samples:
        ls = []
        for l in t.split("\n"):
            if l.startswith(("!", "source_filename", "; ModuleID", "target ", "attributes", "$")) or not l.strip():
                continue
            l = strip_line(l)
            if not l.strip():
                continue
            tk = tokenize(l)
            if l.startswith("declare") or l.startswith("define"):
                pass
            ls.append(tk)
        streams.append(ls)
    n0 = len(streams[0])
    for p, s in zip(pts, streams):
        if len(s) != n0:
            raise ExtractError("IR shape differs between precisions %r and %r (%d vs %d lines)" % (pts[0], p, n0, len(s)))
    ren = [dict() for _ in samples]   # per sample: name -> canonical (first sample's) name
    inv = [dict() for _ in samples]
    out = []
    local = None
    for li in range(n0):
        lines = [s[li] for s in streams]
        L = len(lines[0])
        if any(len(x) != L for x in lines):
            raise ExtractError("IR shape differs at line %r / %r" % (lines[0], [x for x in lines if len(x) != L][0]))
        if lines[0][0] == "define":
            lren = [dict() for _ in samples]
            linv = [dict() for _ in samples]
        res = []
        for ti in range(L):
            toks = [x[ti] for x in lines]
            if all(t == toks[0] for t in toks[1:]):
                t = toks[0]
                if INT.match(t):
                    res.append(Aff(int(t)))
                else:
                    res.append(t)
                    continue
                continue
            if all(INT.match(t) for t in toks):
                res.append(fit(pts, [int(t) for t in toks]))
                continue
            # names
            k0 = toks[0]
            if k0.startswith('c"') or k0.startswith('"'):
                res.append(k0)
                continue
            if not (k0[0] in '%@"' or re.match(r'[\w.$]+$', k0)):
                raise ExtractError("IR tokens differ: %r" % toks)
            isloc = k0[0] == '%' and not (k0.startswith('%"') or k0.startswith("%class") or k0.startswith("%struct"))
            for si, t in enumerate(toks):
                if t[0] != k0[0] or re.sub(r'\d+', '', t) != re.sub(r'\d+', '', k0):
                    raise ExtractError("IR tokens differ: %r" % toks)
                r, v = (lren[si], linv[si]) if isloc else (ren[si], inv[si])
                if r.setdefault(t, k0) != k0 or v.setdefault(k0, t) != t:
                    raise ExtractError("IR name mapping is not one-to-one: %r" % toks)
            res.append(k0)
        out.append(res)
    return out


def fit(pts, vals):
    """affine fit over the sample points, checked on all of them"""
    twoD = any(p[1] for p in pts)
    if not twoD:
        (n0, _), (n1, _) = pts[0], pts[1]
        if (vals[1] - vals[0]) % (n1 - n0) == 0:
            a = (vals[1] - vals[0]) // (n1 - n0)
            c = vals[0] - a * n0
            if all(c + a * p[0] == v for p, v in zip(pts, vals)):
                return Aff(c, a)
    else:
        # solve c + a n + b m
        import itertools
        for i, j, k in itertools.combinations(range(len(pts)), 3):
            (x1, y1), (x2, y2), (x3, y3) = pts[i], pts[j], pts[k]
            det = (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)
            if det == 0:
                continue
            v1, v2, v3 = vals[i], vals[j], vals[k]
            a = Fraction((v2 - v1) * (y3 - y1) - (v3 - v1) * (y2 - y1), det)
            b = Fraction((x2 - x1) * (v3 - v1) - (x3 - x1) * (v2 - v1), det)
            if a.denominator == 1 and b.denominator == 1:
                a, b = int(a), int(b)
                c = v1 - a * x1 - b * y1
                if all(c + a * p[0] + b * p[1] == v for p, v in zip(pts, vals)):
                    return Aff(c, a, b)
            break
    return NonAff(dict(zip(pts, vals)))


# ------------------------------------------------------------------ parsing
class Ins:
    __slots__ = ("op", "res", "ty", "args", "x", "text")

    def __init__(self, op, res, ty, args, x=None, text=""):
        self.op, self.res, self.ty, self.args, self.x, self.text = op, res, ty, args, x, text

    def __repr__(self):
        return "%s=%s %s %r %r" % (self.res, self.op, self.ty, self.args, self.x)


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}   # label -> [Ins]
        self.order = []
        self.entry = None
        self.demangled = name
        self.sret = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}


def tokstr(toks):
    return " ".join(str(t) for t in toks)


class P:
    """token cursor"""

    def __init__(self, toks, types):
        self.t, self.i, self.types = toks, 0, types

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x:
            raise ExtractError("expected %r got %r in %s" % (x, y, tokstr(self.t)))

    def type(self):
        t = self.next()
        if t == "[":
            n = self.next()
            self.exp("x")
            e = self.type()
            self.exp("]")
            r = ("arr", n, e)
        elif t == "{":
            fs = []
            while not self.acc("}"):
                fs.append(self.type())
                self.acc(",")
            r = ("struct", tuple(fs))
        elif t == "<":
            if self.peek() == "{":
                self.next()
                fs = []
                while not self.acc("}"):
                    fs.append(self.type())
                    self.acc(",")
                self.exp(">")
                r = ("struct", tuple(fs))
            else:
                n = self.next(); self.exp("x"); e = self.type(); self.exp(">")
                r = ("vec", n, e)
        elif t in ("void", "ptr", "label", "metadata", "opaque", "double", "float", "x86_fp80"):
            r = (t,)
        elif isinstance(t, str) and re.match(r"i\d+$", t):
            r = ("int", int(t[1:]))
        elif isinstance(t, str) and t.startswith("%"):
            r = ("named", t)
        else:
            raise ExtractError("type? %r in %s" % (t, tokstr(self.t)))
        if self.peek() == "(":   # function type
            d = 0
            while True:
                x = self.next()
                if x == "(": d += 1
                elif x == ")":
                    d -= 1
                    if d == 0: break
            r = ("fn", r)
        return r

    ATTR1 = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "zeroext", "signext",
             "writable", "dead_on_unwind", "returned", "inreg", "immarg", "noreturn", "nounwind", "tail", "musttail",
             "notail", "dso_local", "local_unnamed_addr", "unnamed_addr", "internal", "linkonce_odr", "weak_odr",
             "available_externally", "hidden", "private", "constant", "global", "external", "linkonce", "weak", "swiftself", "allocptr"}
    ATTRP = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "elementtype", "memory", "captures", "initializes", "nofpclass", "preallocated", "inalloca", "byref", "allocsize"}

    def attrs(self):
        a = {}
        while True:
            t = self.peek()
            if not isinstance(t, str):
                break
            if t in self.ATTR1:
                a[t] = True
                self.next()
            elif t in self.ATTRP:
                self.next()
                if self.peek() == "(":
                    self.next()
                    s = self.i
                    d = 1
                    while d:
                        x = self.next()
                        if x == "(": d += 1
                        elif x == ")": d -= 1
                    inner = self.t[s:self.i - 1]
                    a[t] = inner
                else:
                    a[t] = self.next()
            elif t == "#":
                self.next(); self.next()
            elif t.startswith('"'):
                self.next()
                if self.acc("="): self.next()
            else:
                break
        return a

    def value(self, ty):
        t = self.next()
        if isinstance(t, (Aff, NonAff)):
            return ("int", t)
        if t[0] == "%":
            return ("loc", t)
        if t[0] == "@":
            return ("glob", t[1:].strip('"'))
        if t == "true": return ("int", Aff(1))
        if t == "false": return ("int", Aff(0))
        if t == "null": return ("null",)
        if t in ("undef", "poison"): return ("undef",)
        if t == "zeroinitializer": return ("zero",)
        if t in ("getelementptr", "inttoptr", "ptrtoint", "bitcast", "sub", "add", "icmp", "select", "trunc"):
            # constant expression
            if t == "getelementptr":
                while self.peek() in ("inbounds", "nuw", "nusw"): self.next()
                if self.peek() == "inrange":
                    self.next(); self._skip_paren()
                self.exp("(")
                sty = self.type(); self.exp(",")
                self.type(); base = self.value(("ptr",))
                idx = []
                while self.acc(","):
                    if self.peek() == "inrange": self.next()
                    it = self.type(); idx.append((it, self.value(it)))
                self.exp(")")
                return ("cgep", sty, base, idx)
            if t in ("ptrtoint", "inttoptr", "bitcast"):
                self.exp("("); a = self.type(); v = self.value(a); self.exp("to"); b = self.type(); self.exp(")")
                return ("ccast", t, v)
            self._skip_paren()
            return ("unknown", t)
        if t in ("{", "["):
            close = "}" if t == "{" else "]"
            vs = []
            while not self.acc(close):
                ty2 = self.type(); vs.append(self.value(ty2)); self.acc(",")
            return ("agg", vs)
        if t == "c" or t.startswith('c"') or t.startswith('"'):
            return ("str", t)
        return ("unknown", t)

    def _skip_paren(self):
        self.exp("(")
        d = 1
        while d:
            x = self.next()
            if x == "(": d += 1
            elif x == ")": d -= 1


CASTS = ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "uitofp", "sitofp", "fptoui", "fptosi", "addrspacecast", "fptrunc", "fpext")
BIN = ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv")


def parse_module(lines):
    m = Module()
    cur = None
    blk = None
    joined = []
    i = 0
    # join multi-line switch
    while i < len(lines):
        l = lines[i]
        if cur is None and False:
            pass
        if "switch" in l[:3] and l[-1] == "[":
            j = i + 1
            acc = list(l)
            while lines[j][0] != "]":
                acc += lines[j]
                j += 1
            acc += lines[j]
            joined.append(acc)
            i = j + 1
            continue
        joined.append(l)
        i += 1
    for l in joined:
        t0 = l[0]
        if cur is None:
            if isinstance(t0, str) and t0.startswith("%") and len(l) > 2 and l[2] == "type":
                if l[3] == "opaque":
                    m.types[t0] = ("struct", ())
                else:
                    m.types[t0] = P(l[3:], m.types).type()
            elif isinstance(t0, str) and t0.startswith("@"):
                m.globals[t0[1:].strip('"')] = l
            elif t0 == "define":
                p = P(l[1:], m.types)
                p.attrs()
                rt = p.type_with_attrs() if False else None
                p.attrs()
                rt = p.type()
                name = p.next()[1:].strip('"')
                p.exp("(")
                params = []
                k = 0
                while not p.acc(")"):
                    if p.peek() == "...":
                        p.next(); continue
                    ty = p.type(); a = p.attrs()
                    pn = p.next()
                    params.append((pn, ty, a))
                    p.acc(",")
                cur = Func(name, rt, params)
                blk = None
                first = True
            elif t0 == "declare":
                p = P(l[1:], m.types)
                p.attrs()
                rt = p.type()
                name = p.next()[1:].strip('"')
                m.decls[name] = rt
            continue
        if t0 == "}":
            m.funcs[cur.name] = cur
            cur = None
            continue
        # label?
        if len(l) >= 2 and l[1] == ":":
            lab = str(t0.c) if isinstance(t0, Aff) else t0.strip('"')
            blk = "%" + lab
            cur.blocks[blk] = []
            cur.order.append(blk)
            if cur.entry is None: cur.entry = blk
            continue
        if blk is None:
            # implicit entry label: number = number of params (unnamed) or "entry"
            nm = sum(1 for pn, _, _ in cur.params if re.match(r"%\d+$", pn))
            blk = "%" + str(nm)
            cur.blocks[blk] = []
            cur.order.append(blk)
            cur.entry = blk
        ins = parse_ins(l, m.types)
        if ins is not None:
            cur.blocks[blk].append(ins)
    return m


def normlab(t):
    # labels appear as %name or %"name"
    return "%" + t[1:].strip('"')


def parse_ins(l, types):
    text = tokstr(l)
    res = None
    if len(l) > 1 and l[1] == "=":
        res = l[0]
        l = l[2:]
    p = P(l, types)
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            fl.add(p.next())
        ty = p.type()
        a = p.value(ty); p.exp(","); b = p.value(ty)
        return Ins(op, res, ty, [a, b], fl, text)
    if op == "icmp":
        while p.peek() == "samesign": p.next()
        pred = p.next(); ty = p.type(); a = p.value(ty); p.exp(","); b = p.value(ty)
        return Ins(op, res, ty, [a, b], pred, text)
    if op in CASTS:
        while p.peek() in ("nneg", "nuw", "nsw"): p.next()
        ty = p.type(); a = p.value(ty)
        if op == "freeze":
            return Ins(op, res, ty, [a], None, text)
        p.exp("to"); ty2 = p.type()
        return Ins(op, res, ty2, [a], ty, text)
    if op == "load":
        while p.peek() in ("volatile", "atomic"): p.next()
        ty = p.type(); p.exp(","); p.type(); a = p.value(("ptr",))
        return Ins(op, res, ty, [a], None, text)
    if op == "store":
        while p.peek() in ("volatile", "atomic"): p.next()
        ty = p.type(); v = p.value(ty); p.exp(","); p.type(); a = p.value(("ptr",))
        return Ins(op, None, ty, [v, a], None, text)
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        sty = p.type(); p.exp(","); p.type(); base = p.value(("ptr",))
        idx = []
        while p.acc(","):
            it = p.type(); idx.append((it, p.value(it)))
        return Ins(op, res, sty, [base], idx, text)
    if op == "br":
        if p.peek() == "label":
            p.next()
            return Ins("br", None, None, [], [normlab(p.next())], text)
        ty = p.type(); c = p.value(ty); p.exp(","); p.exp("label"); a = normlab(p.next()); p.exp(","); p.exp("label"); b = normlab(p.next())
        return Ins("br", None, None, [c], [a, b], text)
    if op == "switch":
        ty = p.type(); v = p.value(ty); p.exp(","); p.exp("label"); d = normlab(p.next()); p.exp("[")
        cs = []
        while not p.acc("]"):
            cty = p.type(); cv = p.next(); p.exp(","); p.exp("label"); cs.append((cv, normlab(p.next())))
        return Ins("switch", None, ty, [v], (d, cs), text)
    if op == "ret":
        ty = p.type()
        if ty == ("void",):
            return Ins("ret", None, ty, [], None, text)
        return Ins("ret", None, ty, [p.value(ty)], None, text)
    if op == "unreachable":
        return Ins("unreachable", None, None, [], None, text)
    if op == "phi":
        ty = p.type()
        inc = []
        while True:
            p.exp("[")
            v = p.value(ty); p.exp(","); lab = normlab(p.next()); p.exp("]")
            inc.append((v, lab))
            if not p.acc(","): break
        return Ins("phi", res, ty, [], inc, text)
    if op == "select":
        ty = p.type(); c = p.value(ty); p.exp(","); t1 = p.type(); a = p.value(t1); p.exp(","); t2 = p.type(); b = p.value(t2)
        return Ins("select", res, t1, [c, a, b], None, text)
    if op == "alloca":
        ty = p.type()
        return Ins("alloca", res, ty, [], None, text)
    if op == "extractvalue":
        ty = p.type(); a = p.value(ty)
        idx = []
        while p.acc(","): idx.append(p.next().c)
        return Ins(op, res, ty, [a], idx, text)
    if op == "insertvalue":
        ty = p.type(); a = p.value(ty); p.exp(","); t2 = p.type(); b = p.value(t2)
        idx = []
        while p.acc(","): idx.append(p.next().c)
        return Ins(op, res, ty, [a, b], (idx, t2), text)
    if op == "call":
        p.attrs()
        while p.peek() in ("fastcc", "ccc"): p.next()
        p.attrs()
        rt = p.type(); 
        callee = p.value(("ptr",))
        p.exp("(")
        args = []
        while not p.acc(")"):
            ty = p.type()
            if ty == ("metadata",):
                # skip metadata operand
                while p.peek() not in (",", ")"): p.next()
                args.append((ty, ("meta",), {}))
                p.acc(","); continue
            a = p.attrs(); v = p.value(ty)
            args.append((ty, v, a)); p.acc(",")
        return Ins("call", res, rt, args, callee, text)
    if op == "fcmp":
        return Ins("unsupported", res, None, [], op, text)
    return Ins("unsupported", res, None, [], op, text)


def resolve(ty, types):
    while ty[0] == "named":
        ty = types[ty[1]]
    return ty


def extract(src, workdir, points, keep, repo, macrofn, extra=(), lib_extern=None):
    """compile at every point, merge and parse.  macrofn(N, M) -> macro dict"""
    os.makedirs(workdir, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda pt: compile_one(src, workdir, macrofn(*pt), keep, repo, extra, lib_extern), points))
    dm = res[0][1]
    lines = merge([(pt, r[0]) for pt, r in zip(points, res)])
    mod = parse_module(lines)
    alln = set(mod.funcs) | set(mod.decls)
    d2 = demangle(alln)
    for f in mod.funcs.values():
        f.demangled = d2.get(f.name, f.name)
    mod.demangled = d2
    return mod, [r[0] for r in res]
