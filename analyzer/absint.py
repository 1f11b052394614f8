"""Path-sensitive abstract interpretation of C functions over the clang AST.

Values are constants, strings or symbolic terms (uninterpreted access paths); facts about a
term are an interval, an excluded set, and remembered truth values of predicates.  There is
no solver: a branch is pruned only when constant propagation or a remembered fact decides it.
Calls are either inlined (helper functions are transparent) or recorded as effect events.
The result for a function is its set of abstract paths: events, return value, facts.
"""
import functools
import re
from front import N, AnalysisError, callee_name, locs


class Tail(str):
    """the end of a string literal, reached by pointer arithmetic: it remembers what precedes it"""
    @staticmethod
    def of(base, off):
        t = Tail(base[off:])
        t.base, t.off = base, off
        return t


class Limit(AnalysisError):
    pass


INT = {
    "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False),
    "int": (32, True), "unsigned int": (32, False), "unsigned": (32, False),
    "long": (64, True), "unsigned long": (64, False),
    "long long": (64, True), "unsigned long long": (64, False), "_Bool": (8, False),
}
FLT = {"float": 32, "double": 64, "long double": 80}


@functools.lru_cache(maxsize=None)
def strip(t):
    t = re.sub(r"\b(const|volatile|restrict)\b", "", t)
    return re.sub(r"\s+", " ", t).strip()


_it_cache = {}


def inttype(t):
    """(bits, signed) of an integer/enum type string, else None"""
    r = _it_cache.get(t, 0)
    if r != 0:
        return r
    s = strip(t)
    if s in INT:
        r = INT[s]
    elif s.startswith("enum ") and "*" not in s and "[" not in s:
        r = (32, False)
    else:
        r = {"uint8_t": (8, False), "uint16_t": (16, False), "uint32_t": (32, False), "uint64_t": (64, False),
             "size_t": (64, False), "int8_t": (8, True), "int16_t": (16, True), "int32_t": (32, True),
             "int64_t": (64, True), "intmax_t": (64, True), "uintmax_t": (64, False), "label_id": (32, True),
             "ttype": (8, False), "ptrdiff_t": (64, True)}.get(s)
    _it_cache[t] = r
    return r


def wrap(v, ty):
    if ty is None:
        return v
    b, s = ty
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


class Ev:
    __slots__ = ("k", "name", "args", "loc", "fn", "ret", "x")

    def __init__(self, k, name, args, loc, fn, ret=None, x=None):
        self.k, self.name, self.args, self.loc, self.fn, self.ret, self.x = k, name, args, loc, fn, ret, x

    def __repr__(self):
        return "%s:%s(%s)" % (self.k, self.name, ", ".join(show(a) for a in self.args))


KIDS = {}        # location -> {key: sub-location} of every sub-location ever written (in any state)
_seen = set()


def _register(k):
    _seen.add(k)
    while k[0] in ("f", "i"):
        d = KIDS.setdefault(k[1], {})
        if k[2] in d:
            return
        d[k[2]] = k
        k = k[1]


class Mem(dict):
    """memory: location -> value; the registry of sub-locations makes overlay reads and kills proportional to the object"""
    __slots__ = ()

    def __init__(self, d=()):
        dict.__init__(self, d)
        for k in self:
            if k not in _seen and k[0] in ("f", "i"):
                _register(k)

    def __setitem__(self, k, v):
        if k[0] in ("f", "i") and k not in _seen:
            _register(k)
        dict.__setitem__(self, k, v)

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def update(self, d):
        for k, v in dict(d).items():
            self[k] = v

    def fork(self):
        m = Mem.__new__(Mem)
        dict.update(m, self)
        return m

    def below(self, loc, out):
        """stored keys strictly inside loc"""
        d = KIDS.get(loc)
        if d:
            for k in d.values():
                if k in self:
                    out.append(k)
                self.below(k, out)
        return out

    def has_below(self, loc):
        d = KIDS.get(loc)
        if d:
            for k in d.values():
                if k in self or self.has_below(k):
                    return True
        return False


class St:
    __slots__ = ("mem", "facts", "ev", "cnt", "loops", "dead", "conds", "ver")

    def __init__(self):
        self.mem, self.facts, self.ev, self.cnt = Mem(), {}, (), [0]
        self.loops = ()
        self.conds = ()
        self.dead = False
        self.ver = 0

    def fork(self):
        s = St.__new__(St)
        s.mem, s.facts, s.ev, s.cnt = self.mem.fork(), dict(self.facts), self.ev, self.cnt
        s.loops, s.conds = self.loops, self.conds
        s.dead = False
        s.ver = self.ver
        return s

    def events(self):
        out = []
        e = self.ev
        while e:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


class Path:
    def __init__(self, st, sig, ret):
        self.st, self.sig, self.ret = st, sig, ret
        self.events = st.events()
        self.facts = st.facts
        self.mem = st.mem
        self.conds = st.conds

    def calls(self, *names):
        return [e for e in self.events if e.k == "call" and (not names or e.name in names)]


def schar(c):
    c = ord(c)
    return c - 256 if 127 < c < 256 else c


def show(v):
    if isinstance(v, int):
        return str(v)
    if not isinstance(v, tuple):
        return repr(v)
    k = v[0]
    if k == "str":
        return '"%s"' % v[1]
    if k == "v":
        return "%s" % v[2]
    if k == "g":
        return v[1]
    if k == "p":
        return v[1]
    if k == "f":
        return "%s.%s" % (show(v[1]), v[2])
    if k == "d":
        return "(*%s)" % show(v[1])
    if k == "i":
        return "%s[%s]" % (show(v[1]), show(v[2]))
    if k == "addr":
        return "&%s" % show(v[1])
    if k == "call":
        return "%s#%s" % (v[1], v[2])
    if k == "fn":
        return "%s(%s)" % (v[1], ", ".join(show(a) for a in v[2]))
    if k == "b":
        return "(%s %s %s)" % (show(v[2]), v[1], show(v[3]))
    if k == "u":
        return "%s%s" % (v[1], show(v[2]))
    if k == "fb":
        return "(%s %s %s)" % (show(v[3]), v[1] + "f", show(v[4]))
    if k == "struct":
        return "{%s}" % ", ".join("%s=%s" % (a, show(b)) for a, b in v[2])
    if k == "arr":
        return "[%s]" % ", ".join("%s:%s" % (a, show(b)) for a, b in v[1])
    if k == "cast":
        return "(%s%d)%s" % ("s" if v[2] else "u", v[1], show(v[3]))
    if k == "cvt":
        return "(%s)%s" % (v[1], show(v[2]))
    if k == "flt":
        return str(v[1])
    if k == "lv":
        return "~%s" % v[1]
    if k == "ob":
        return "%s" % (v[1],)
    if k == "ty":
        return tyshow(v)
    return "%s" % (v,)


CK = ("ty", "ob")       # abstract heap objects: non-null, pairwise distinct
def tyshow(t):
    c = "const " if t[-1] else ""
    if t[1] == "simple":
        return "%sST#%s" % (c, t[2])
    if t[1] == "ptr":
        return "%sptr(%s)" % (c, show(t[2]))
    return "%s%s(%s)" % (c, t[1], ",".join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in t[2:-1]))


LOCK = ("v", "g", "f", "d", "i", "cl")
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def mk_loc_base(loc):
    while loc[0] in ("f", "i"):
        loc = loc[1]
    return loc


class Interp:
    def __init__(self, prog, inline=None, pure=(), models=None, noreturn=(), unroll=1, max_paths=6000,
                 max_depth=25, record_writes=True, globals_const=None, havoc_args=True, opaque=(),
                 loops="unroll", load_hook=None, merge_exits=False):
        self.merge_exits = merge_exits
        self.mirror = {}        # members of one anonymous union sharing storage: name -> (bits, signed) or kind
        self.typed = False      # keep sign-changing casts and log integer divisions
        self.max_rec = 2
        self.loops_mode = loops
        self.load_hook = load_hook
        self.backs = []
        self._lv = 0
        self.P = prog
        self.inline_pred = inline or (lambda f: False)
        self.pure = set(pure)
        self.models = dict(models or {})
        self.noreturn = {"impl_error_ice", "impl_error", "impl_error_no_pos", "impl_error_notimp", "exit",
                         "abort", "__assert_fail"} | set(noreturn)
        self.unroll = unroll
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.record_writes = record_writes
        self.genv = dict(globals_const or {})
        self.havoc_args = havoc_args
        self.opaque = set(opaque)
        self.tt = {}           # term -> (bits, signed)
        self.frame = 0
        self.stack = []
        self.sites = []           # call nodes that led here
        self.npaths = 0
        self.steps = 0
        self.max_steps = 3000000
        self.truncated = 0
        self.analysed = set()

    # ------------------------------------------------------------ entry
    def run(self, fname, args=None, mem=None, facts=None, tu=None):
        f = fname if not isinstance(fname, str) else self.P.func(fname, tu)
        if f is None or f.body is None:
            raise AnalysisError("anchor function %s not found" % fname)
        st = St()
        for k, v in (mem or {}).items():
            st.mem[k] = v
        for k, v in (facts or {}).items():
            st.facts[k] = v
        argv = []
        args = args or {}
        for i, p in enumerate(f.params):
            if p.v in args:
                argv.append(args[p.v])
            elif i in args:
                argv.append(args[i])
            else:
                t = ("p", p.v)
                self.tt[t] = inttype(p.t[1])
                argv.append(t)
        self.npaths = 0
        self.steps = 0
        res = []
        for s, sig, rv in self.call_body(st, f, argv):
            res.append(Path(s, sig, rv))
        return res

    def call_body(self, st, f, argv):
        """-> list of (st, sig, retval); sig in None,'noreturn','goto'"""
        if len(self.stack) > self.max_depth:
            raise Limit("inline depth exceeded in %s" % f.name)
        self.analysed.add(f.name)
        self.frame += 1
        fr = self.frame
        self.stack.append((f, fr))
        for p, a in zip(f.params, argv):
            self.write(st, ("v", p.x["id"], p.v, fr), a, p.t[1])
        out = []
        labels = {}
        pend = [(st, None)]
        outs = self.ex(f.body, st, fr, f)
        # gotos: re-run from label, bounded
        seen = 0
        while outs:
            nxt = []
            for s, sig in outs:
                if isinstance(sig, tuple) and sig[0] == "goto":
                    seen += 1
                    lab = sig[1]
                    cnt = sum(1 for e in s.conds if e == ("goto", lab))
                    if cnt >= self.unroll:
                        out.append((s, "goto", lab))
                        continue
                    s.conds = s.conds + (("goto", lab),)
                    r = self.exec_from_label(f.body, lab, s, fr, f)
                    nxt.extend(r)
                elif isinstance(sig, tuple) and sig[0] == "return":
                    out.append((s, None, sig[1]))
                elif sig is None:
                    out.append((s, None, None))
                else:
                    out.append((s, sig, None))
            outs = nxt
        self.stack.pop()
        return out

    def exec_from_label(self, body, lab, st, fr, f):
        stmts = body.ch
        for i, s in enumerate(stmts):
            if any(n.k == "LabelStmt" and n.v == lab for n in s.walk()):
                # only labels that are direct children are supported precisely
                outs = []
                if s.k == "LabelStmt":
                    cur = self.ex(s.ch[0], st, fr, f)
                else:
                    raise AnalysisError("goto into nested statement in %s" % f.name)
                for r in self.seq(stmts[i + 1:], cur, fr, f):
                    outs.append(r)
                return outs
        raise AnalysisError("label not found in %s" % f.name)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Limit("step limit exceeded (%s)" % ", ".join(x[0].name for x in self.stack))

    # ------------------------------------------------------------ memory
    def rd(self, st, loc):
        m = st.mem
        if loc[0] == "wide":
            _, (_, base, at), w = loc
            bs = [self.rd(st, ("i", base, at + k)) for k in range(w)]
            if all(isinstance(b, int) for b in bs):
                return sum((b & 255) << 8 * k for k, b in enumerate(bs))
            if all(isinstance(b, tuple) and b[:2] == ("fn", "byte") and b[2] == (bs[0][2][0], k) for k, b in enumerate(bs)):
                return bs[0][2][0]
            return ("fn", "le", tuple(bs))
        if loc in m:
            base = m[loc]
        elif loc[0] in ("f", "i"):
            pv = self.rd_base(st, loc[1])
            if pv is not None:
                base = self.project(pv, loc)
            else:
                base = None
        else:
            base = None
        if base is None:
            base = self.initial(st, loc)
        # overlay of sub-writes
        subs = None
        kids = KIDS.get(loc)
        if kids:
            for kk, k in kids.items():
                if k in m or m.has_below(k):
                    subs = subs or {}
                    subs[kk] = k
        if subs:
            d = {}
            for kk, k in subs.items():
                d[kk] = self.rd(st, k)
            base = self.update(base, d, loc)
        return base

    def rd_base(self, st, loc):
        """value stored at loc or an enclosing location (no initial symbols)"""
        if loc in st.mem:
            return st.mem[loc]
        if loc[0] in ("f", "i"):
            pv = self.rd_base(st, loc[1])
            if pv is None:
                return None
            return self.project(pv, loc)
        if loc[0] == "g":
            iv = self.global_init(loc)
            if iv is not None:
                return iv
        return None

    def project(self, v, loc):
        key = loc[2]
        if isinstance(v, tuple) and v[0] == "struct":
            for a, b in v[2]:
                if a == key:
                    return b
            if self.mirror and key in self.mirror:
                for a, b in v[2]:
                    if a in self.mirror:
                        return self.repun(b, a, key)
            return 0
        if isinstance(v, tuple) and v[0] == "arr":
            if isinstance(key, int):
                for a, b in v[1]:
                    if a == key:
                        return b
                return 0
            return ("sel", v, key)
        if v == 0:
            return 0
        if isinstance(v, tuple) and v[0] == "str" and isinstance(key, int):
            return schar(v[1][key]) if key < len(v[1]) else 0
        if isinstance(v, tuple) and v[0] == "upd":
            for a, b in v[2]:
                if a == key:
                    return b
            return self.project(v[1], loc)
        if isinstance(v, tuple) and v[0] == "lv":
            return ("lv", (loc[0], v[1], key)) if False else (loc[0], v[1], key)
        if isinstance(v, tuple):
            return (loc[0], v, key)
        return ("proj", v, key)

    def repun(self, v, frm, to):
        """value of union member TO after member FRM was written"""
        a, b = self.mirror[frm], self.mirror[to]
        if isinstance(a, tuple) and isinstance(b, tuple):
            if isinstance(v, int):
                return wrap(v, b)
            if isinstance(v, tuple) and v[0] == "sc" and self.tt.get(v[2]) == b:
                return v[2]
            if not isinstance(v, tuple):
                return v
            iv = self.interval(None, v) if False else None
            t = ("sc", b, v)
            self.tt[t] = b
            return t
        if isinstance(v, int) and v == 0:
            return 0
        return ("pun", frm, to, v)

    def update(self, base, d, loc):
        if isinstance(base, tuple) and base[0] == "struct":
            cur = dict(base[2])
            cur.update(d)
            return ("struct", base[1], tuple(sorted(cur.items(), key=lambda z: str(z[0]))))
        if isinstance(base, tuple) and base[0] == "arr":
            cur = dict(base[1])
            cur.update(d)
            return ("arr", tuple(sorted(cur.items(), key=lambda z: str(z[0]))))
        if base == 0:
            if all(isinstance(k, int) for k in d):
                return ("arr", tuple(sorted(d.items())))
            return ("struct", "zero", tuple(sorted(d.items(), key=lambda z: str(z[0]))))
        return ("upd", base, tuple(sorted(d.items(), key=lambda z: str(z[0]))))

    def global_init(self, loc):
        name = loc[1]
        if name in self.genv:
            return self.genv[name]
        if name in self.P.__dict__.get("_litv", ()):
            return self.P._litv[name]
        key = ("#ginit", name, loc[2] if len(loc) > 2 else None)
        n = self.global_decl(loc)
        if n is None:
            return None
        if not self.is_const_global(n):
            return None
        if not hasattr(self, "_gi"):        # constant initialisers do not depend on the run
            self._gi = self.P.__dict__.setdefault("_ginit", {}).setdefault(tuple(sorted(self.union_alias.items())), {})
        if key in self._gi:
            return self._gi[key]
        if not n.ch:
            v = 0
        else:
            v = self.const_init(n.ch[-1])
        self._gi[key] = v
        return v

    def global_decl(self, loc):
        tu = loc[2] if len(loc) > 2 else None
        if tu and (tu, loc[1]) in self.P.sglobals:
            return self.P.sglobals[(tu, loc[1])]
        return self.P.globals.get(loc[1])

    def is_const_global(self, n):
        """const-qualified, or never assigned anywhere in the program"""
        if n.t[0].startswith("const ") or " const " in " " + n.t[0].split("[")[0] and "*" not in n.t[0]:
            return True
        w = getattr(self.P, "_written", None)
        if w is None:
            w = self.P._written = written_globals(self.P)
        return n.v not in w and len(n.ch) > 0

    def const_init(self, node):
        st = St()
        self.stack.append((_FakeFunc(), 0))
        r = self.evx(node, st, 0, None)
        self.stack.pop()
        if len(r) != 1:
            raise AnalysisError("non-constant initialiser")
        return r[0][1]

    def initial(self, st, loc):
        k = loc[0]
        if self.load_hook is not None:
            h = self.load_hook(self, st, loc)
            if h is not None:
                return h
            if k in ("f", "i") and loc[1][0] in ("f", "i"):
                pv = self.initial(st, loc[1])
                if pv != loc[1] and isinstance(pv, tuple) and pv[0] in ("struct", "arr"):
                    return self.project(pv, loc)
        if k == "g":
            iv = self.global_init(loc)
            if iv is not None:
                return iv
            return ("g", loc[1])
        if k == "v":
            return ("undef", loc[2])
        if k in ("f", "i"):
            return loc
        return loc

    def write(self, st, loc, v, ty=None):
        m = st.mem
        if loc[0] == "wide":
            _, (_, base, at), w = loc
            for k in range(w):
                self.write(st, ("i", base, at + k), (v >> 8 * k) & 255 if isinstance(v, int) else ("fn", "byte", (v, k)))
            return
        # drop sub-entries
        for k in m.below(loc, []):
            del m[k]
        # symbolic index write kills constant-index siblings and vice versa
        if loc[0] == "i" and not isinstance(loc[2], int):
            for k in [k for k in m if k[0] == "i" and k[1] == loc[1] and k[2] != loc[2]]:
                del m[k]
                m[k] = ("havoc", k, st.ver)
        m[loc] = v
        if self.mirror and loc[0] == "f" and loc[2] in self.mirror:
            for other in self.mirror:
                if other != loc[2]:
                    m[("f", loc[1], other)] = self.repun(v, loc[2], other)
        st.ver += 1

    # ------------------------------------------------------------ conditions
    def interval(self, st, t):
        f = st.facts.get(t)
        if f and f[0] == "iv":
            return f
        ty = self.tt.get(t)
        if isinstance(t, tuple) and t and t[0] == "!":
            return ("iv", 0, 1, frozenset())
        if isinstance(t, tuple) and t and t[0] == "sc":
            a = self.interval(st, t[2])
            if a[1] is not None and a[2] is not None:
                w, lo = 1 << t[1][0], -(1 << t[1][0] - 1) if t[1][1] else 0
                k = (a[1] - lo) // w
                if k == (a[2] - lo) // w:
                    return ("iv", a[1] - k * w, a[2] - k * w, frozenset())
        if isinstance(t, tuple) and t and t[0] == "b":
            if t[1] == "&" and isinstance(t[3], int) and t[3] >= 0:
                a = self.interval(st, t[2]) if isinstance(t[2], tuple) else None
                if a and a[1] is not None and a[1] >= 0 and a[2] is not None and a[2] < t[3]:
                    return ("iv", 0, a[2], frozenset())
                return ("iv", 0, t[3], frozenset())
            if t[1] in ("==", "<", "<="):
                return ("iv", 0, 1, frozenset())
            if t[1] == "%" and isinstance(t[3], int) and t[3] > 0:
                a = self.interval(st, t[2])
                if a[1] is not None and a[1] >= 0:
                    return ("iv", 0, t[3] - 1, frozenset())
            if t[1] == "+" and isinstance(t[3], int):
                a = self.interval(st, t[2])
                return ("iv", None if a[1] is None else a[1] + t[3], None if a[2] is None else a[2] + t[3],
                        frozenset(e + t[3] for e in a[3]))
            if t[1] in ("+", "*", "-"):
                a = self.interval(st, t[2]) if not isinstance(t[2], int) else ("iv", t[2], t[2])
                b = self.interval(st, t[3]) if not isinstance(t[3], int) else ("iv", t[3], t[3])
                if None not in (a[1], a[2], b[1], b[2]):
                    c = [x + y if t[1] == "+" else x * y if t[1] == "*" else x - y for x in a[1:3] for y in b[1:3]]
                    lo, hi = min(c), max(c)
                    if ty is None or ((0 if not ty[1] else -(1 << (ty[0] - 1))) <= lo and
                                      hi <= ((1 << ty[0]) - 1 if not ty[1] else (1 << (ty[0] - 1)) - 1)):
                        return ("iv", lo, hi, frozenset())
        if ty and not ty[1]:
            return ("iv", 0, (1 << ty[0]) - 1, frozenset())
        if ty:
            return ("iv", -(1 << (ty[0] - 1)), (1 << (ty[0] - 1)) - 1, frozenset())
        return ("iv", None, None, frozenset())

    def known(self, st, t):
        """normalise: constant if the facts fix the term"""
        if isinstance(t, int) or not isinstance(t, tuple):
            return t
        f = st.facts.get(t)
        if f and f[0] == "iv" and f[1] is not None and f[1] == f[2]:
            return f[1]
        return t

    def decide(self, st, t):
        """True/False/None"""
        if isinstance(t, int):
            return t != 0
        if not isinstance(t, tuple):
            return None
        k = t[0]
        if k in ("str", "addr", "func") or k in CK:
            return True
        if k == "flt":
            return t[1] != 0
        if k == "!":
            r = self.decide(st, t[1])
            return None if r is None else (not r)
        if k == "b" and t[1] in ("==", "<", "<="):
            a, b = t[2], t[3]
            a, b = self.known(st, a), self.known(st, b)
            if isinstance(a, int) and isinstance(b, int):
                return {"==": a == b, "<": a < b, "<=": a <= b}[t[1]]
            if a == b:
                return t[1] != "<"
            f = st.facts.get(("b", t[1], a, b))
            if f and f[0] == "tv":
                return f[1]
            if t[1] == "==":
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    iv = self.interval(st, a)
                    if b in iv[3]:
                        return False
                    if iv[1] is not None and b < iv[1]:
                        return False
                    if iv[2] is not None and b > iv[2]:
                        return False
                    if isinstance(a, tuple) and (a[0] in ("str", "addr", "func") or a[0] in CK) and b == 0:
                        return False
                    return None
                if is_distinct(a, b):
                    return False
                return None
            ia = ("iv", a, a, ()) if isinstance(a, int) else self.interval(st, a)
            ib = ("iv", b, b, ()) if isinstance(b, int) else self.interval(st, b)
            if t[1] == "<":
                if ia[2] is not None and ib[1] is not None and ia[2] < ib[1]:
                    return True
                if ia[1] is not None and ib[2] is not None and ia[1] >= ib[2]:
                    return False
            else:
                if ia[2] is not None and ib[1] is not None and ia[2] <= ib[1]:
                    return True
                if ia[1] is not None and ib[2] is not None and ia[1] > ib[2]:
                    return False
            return None
        # truthiness
        kf = self.known(st, t)
        if isinstance(kf, int):
            return kf != 0
        iv = self.interval(st, t)
        if 0 in iv[3] or (iv[1] is not None and iv[1] > 0) or (iv[2] is not None and iv[2] < 0):
            return True
        return None

    def assume(self, st, t, tv):
        """record; returns False if infeasible"""
        d = self.decide(st, t)
        if d is not None:
            return d == tv
        if t[0] == "!":
            return self.assume(st, t[1], not tv)
        st.conds = st.conds + ((t, tv),)
        if t[0] == "b" and t[1] in ("==", "<", "<="):
            op, a, b = t[1], self.known(st, t[2]), self.known(st, t[3])
            st.facts[("b", op, a, b)] = ("tv", tv)
            if isinstance(a, int) and op == "==":
                a, b = b, a
            if isinstance(b, int):
                iv = self.interval(st, a)
                lo, hi, ex = iv[1], iv[2], iv[3]
                if op == "==":
                    if tv:
                        lo = hi = b
                    else:
                        ex = ex | {b}
                elif op == "<":
                    if tv:
                        hi = b - 1 if hi is None else min(hi, b - 1)
                    else:
                        lo = b if lo is None else max(lo, b)
                else:
                    if tv:
                        hi = b if hi is None else min(hi, b)
                    else:
                        lo = b + 1 if lo is None else max(lo, b + 1)
            elif isinstance(a, int):
                iv = self.interval(st, b)
                lo, hi, ex = iv[1], iv[2], iv[3]
                if op == "<":       # a < b
                    if tv:
                        lo = a + 1 if lo is None else max(lo, a + 1)
                    else:
                        hi = a if hi is None else min(hi, a)
                elif op == "<=":
                    if tv:
                        lo = a if lo is None else max(lo, a)
                    else:
                        hi = a - 1 if hi is None else min(hi, a - 1)
                a = b
            else:
                return True
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
            st.facts[a] = ("iv", lo, hi, ex)
            return True
        iv = self.interval(st, t)
        if tv:
            st.facts[t] = ("iv", iv[1], iv[2], iv[3] | {0})
        else:
            st.facts[t] = ("iv", 0, 0, frozenset())
        return True

    def branch(self, st, v):
        """-> [(st, bool)]"""
        d = self.decide(st, v)
        if d is not None:
            return [(st, d)]
        self.npaths += 1
        if self.npaths > self.max_paths:
            raise Limit("path limit exceeded (%s)" % ", ".join(x[0].name for x in self.stack))
        a, b = st, st.fork()
        out = []
        if self.assume(a, v, True):
            out.append((a, True))
        if self.assume(b, v, False):
            out.append((b, False))
        return out

    # ------------------------------------------------------------ expressions
    def lval(self, n, st, fr, f):
        """-> [(st, loc)]"""
        k = n.k
        if k == "ParenExpr":
            return self.lval(n.ch[0], st, fr, f)
        if k == "DeclRefExpr":
            return [(st, self.declloc(n, fr, f))]
        if k == "MemberExpr":
            out = []
            fld = self.member_name(n)
            if n.x["arrow"]:
                for s, v in self.evx(n.ch[0], st, fr, f):
                    b = self.deref(s, v)
                    out.append((s, ("f", b, fld) if fld else b))
            else:
                b0 = n.ch[0]
                if is_lvalue_node(b0):
                    for s, l in self.lval(b0, st, fr, f):
                        out.append((s, ("f", l, fld) if fld else l))
                else:
                    for s, v in self.evx(b0, st, fr, f):
                        s.cnt[0] += 1
                        tmp = ("v", "tmp", "tmp%d" % s.cnt[0], fr)
                        s.mem[tmp] = v
                        out.append((s, ("f", tmp, fld) if fld else tmp))
            return out
        if k == "UnaryOperator" and n.v == "__extension__":
            return self.lval(n.ch[0], st, fr, f)
        if k == "UnaryOperator" and n.v == "*":
            w = wide_access(n)
            return [(s, self.wide(self.deref(s, v), w)) for s, v in self.evx(n.ch[0], st, fr, f)]
        if k == "ArraySubscriptExpr":
            out = []
            for s, a in self.evx(n.ch[0], st, fr, f):
                for s2, i in self.evx(n.ch[1], s, fr, f):
                    out.append((s2, self.deref(s2, self.ptradd(s2, a, self.known(s2, i)))))
            return out
        if k == "CompoundLiteralExpr":
            out = []
            for s, v in self.evx(n.ch[0], st, fr, f):
                if f is None:
                    # literal in a file-scope initialiser: static storage
                    lits = self.P.__dict__.setdefault("_lits", {})
                    loc = ("g", "#lit%d" % lits.setdefault(id(n), len(lits)))
                    self.P.__dict__.setdefault("_litv", {})[loc[1]] = v
                    out.append((s, loc))
                    continue
                s.cnt[0] += 1
                loc = ("v", "cl", "lit%d" % s.cnt[0], fr)
                s.mem[loc] = v
                out.append((s, loc))
            return out
        if k == "StringLiteral":
            return [(st, ("strloc", n.v))]
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.lval(n.ch[0], st, fr, f)
        if k == "BinaryOperator" and n.v == ",":
            out = []
            for s, _ in self.evx(n.ch[0], st, fr, f):
                out.extend(self.lval(n.ch[1], s, fr, f))
            return out
        if k == "PredefinedExpr":
            return [(st, ("strloc", f.name if f else "?"))]
        if k in ("CallExpr", "ConditionalOperator"):
            out = []
            for s, v in self.evx(n, st, fr, f):
                s.cnt[0] += 1
                tmp = ("v", "tmp", "tmp%d" % s.cnt[0], fr)
                s.mem[tmp] = v
                out.append((s, tmp))
            return out
        raise AnalysisError("lval of %s at %s" % (k, locs(n)))

    union_alias = {}

    def member_name(self, n):
        """field name, with members of one union that overlay each other given one name"""
        a = self.union_alias.get(n.v)
        if a:
            rec = self.P.record(strip(n.ch[0].t[1]))
            if rec and any(x[0] == a for x in rec[1]):
                return a
        return n.v

    def declloc(self, n, fr, f):
        rk = n.x["rk"]
        if rk in ("ParmVarDecl",):
            return ("v", n.x["id"], n.v, fr)
        if rk == "VarDecl":
            ids = self.local_ids(f) if f is not None and getattr(f, "node", None) is not None else {}
            if n.x["id"] in ids:
                if ids[n.x["id"]]:
                    return ("g", f.name + "." + n.v)
                return ("v", n.x["id"], n.v, fr)
            tu = f.tu if f is not None and getattr(f, "tu", None) else None
            if tu and (tu, n.v) in self.P.sglobals and \
                    (self.P.sglobals[(tu, n.v)].x or {}).get("storageClass") == "static":
                return ("g", n.v, tu)
            return ("g", n.v)
        if rk == "FunctionDecl":
            return ("func", n.v)
        raise AnalysisError("decl kind " + rk)

    def local_ids(self, f):
        r = getattr(f, "_ids", None)
        if r is None:
            r = {}
            for q in f.node.walk():
                if q.k == "VarDecl":
                    st = q.x.get("storageClass")
                    r[q.x["id"]] = st == "static"
                    if st == "static":
                        # static local: a global with initialiser
                        self.P.globals.setdefault(f.name + "." + q.v, q)
                    elif st == "extern":
                        del r[q.x["id"]]
            f._ids = r
        return r

    def deref(self, st, v):
        v = self.known(st, v)
        if isinstance(v, tuple) and v[0] == "addr":
            return v[1]
        if isinstance(v, tuple) and v[0] == "str":
            return ("strloc", v[1])
        return ("d", v)

    @staticmethod
    def wide(loc, w):
        if w and loc[0] == "i" and isinstance(loc[2], int):
            return ("wide", loc, w)
        return loc

    def ptradd(self, st, p, i):
        if i == 0:
            return p
        if isinstance(p, tuple) and p[0] == "addr":
            l = p[1]
            if l[0] == "i":
                return ("addr", ("i", l[1], self.binop("+", l[2], i, None)))
            return ("addr", ("i", l, i)) if False else ("addr", ("i", l, i))
        if isinstance(p, tuple) and p[0] == "str" and isinstance(i, int):
            base, off = (p[1].base, p[1].off) if isinstance(p[1], Tail) else (p[1], 0)
            if 0 <= off + i <= len(base):
                return ("str", Tail.of(base, off + i) if off + i else base)
        if isinstance(p, tuple) and p[0] == "b" and p[1] == "+":
            return ("b", "+", p[2], self.binop("+", p[3], i, None))
        return ("b", "+", p, i)

    def load(self, st, loc, ty):
        if loc[0] == "strloc" or loc[0] == "i" and loc[1][0] == "strloc" and isinstance(loc[2], int):
            s, i = (loc[1], 0) if loc[0] == "strloc" else (loc[1][1], loc[2])
            v = schar(s[i]) if i < len(s) else 0
            return v & 255 if ty and "unsigned" in ty else v
        if loc[0] == "d" and isinstance(loc[1], tuple) and loc[1][0] == "b" and loc[1][1] == "+" and False:
            pass
        v = self.rd(st, loc)
        it = inttype(ty) if ty else None
        if it and it[0] == 8 and isinstance(v, int) and not isinstance(v, bool) and -128 <= v < 256 and "har" in ty:
            # a character seen through a pointer of the other signedness
            v &= 255
            return v - 256 if it[1] and v > 127 else v
        if it and isinstance(v, tuple) and v not in self.tt and v[0] not in ("b",):
            self.tt[v] = it
        if isinstance(v, tuple):
            v = self.known(st, v)
        return v

    def evx(self, n, st, fr, f):
        """-> [(st, value)]"""
        self.tick()
        k = n.k
        if k == "IntegerLiteral" or k == "CharacterLiteral":
            return [(st, n.v)]
        if k == "FloatingLiteral":
            return [(st, ("flt", n.v))]
        if k == "StringLiteral":
            return [(st, ("str", n.v))]
        if k == "PredefinedExpr":
            return [(st, ("str", f.name if f else "?"))]
        if k == "ParenExpr":
            return self.evx(n.ch[0], st, fr, f)
        if k == "ConstantExpr":
            if n.v is not None:
                try:
                    return [(st, int(n.v))]
                except ValueError:
                    pass
            return self.evx(n.ch[0], st, fr, f)
        if k == "DeclRefExpr":
            if n.x["rk"] == "EnumConstantDecl":
                return [(st, self.P.enums[n.v])]
            if n.x["rk"] == "FunctionDecl":
                return [(st, ("func", n.v))]
            return [(st, self.load(st, self.declloc(n, fr, f), n.t[1]))]
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.cast(n, st, fr, f)
        if k == "MemberExpr" or k == "ArraySubscriptExpr":
            return [(s, self.load(s, l, n.t[1])) for s, l in self.lval(n, st, fr, f)]
        if k == "UnaryOperator":
            return self.unary(n, st, fr, f)
        if k == "BinaryOperator":
            return self.binary(n, st, fr, f)
        if k == "CompoundAssignOperator":
            return self.compound(n, st, fr, f)
        if k == "ConditionalOperator":
            out = []
            for s, c in self.evx(n.ch[0], st, fr, f):
                for s2, tv in self.branch(s, c):
                    out.extend(self.evx(n.ch[1] if tv else n.ch[2], s2, fr, f))
            return self.join_caps(out)
        if k == "CallExpr":
            return self.call(n, st, fr, f)
        if k == "CompoundLiteralExpr":
            return self.evx(n.ch[0], st, fr, f)
        if k == "InitListExpr":
            return self.initlist(n, st, fr, f)
        if k == "ImplicitValueInitExpr":
            return [(st, 0)]
        if k == "UnaryExprOrTypeTraitExpr":
            t = n.x.get("arg") if n.x else None
            if t is None and n.ch:
                t = n.ch[0].t[1]
            sz = self.sizeof(t) if n.v == "sizeof" else None
            return [(st, sz if sz is not None else ("sizeof", t))]
        if k == "StmtExpr":
            out = []
            for s2, sig in self.ex(n.ch[0], st, fr, f):
                if sig is not None:
                    raise AnalysisError("jump out of statement expression at %s" % locs(n))
                out.append((s2, 0))
            return out
        if k == "VAArgExpr":
            st.cnt[0] += 1
            return [(st, ("call", "va_arg", st.cnt[0]))]
        if k == "OffsetOfExpr":
            return [(st, ("offsetof", locs(n)))]
        if k == "GenericSelectionExpr":
            raise AnalysisError("generic selection at %s" % locs(n))
        raise AnalysisError("expression %s at %s" % (k, locs(n)))

    def sizeof(self, t):
        if t is None:
            return None
        s = strip(t)
        it = inttype(s)
        if it:
            return it[0] // 8
        if s in FLT:
            return {32: 4, 64: 8, 80: 16}[FLT[s]]
        if s.endswith("*"):
            return 8
        m = re.match(r"^(.*?)((\[\d*\])+)$", s)
        if m:
            e = self.sizeof(m.group(1).strip())
            if e is None:
                return ("sizeof", s) if False else None
            for d in re.findall(r"\[(\d*)\]", m.group(2)):
                if not d:
                    return None
                e *= int(d)
            return e
        return None

    def initlist(self, n, st, fr, f):
        t = n.t[1]
        s0 = strip(t)
        acc = [(st, [])]
        is_arr = "[" in s0 and s0.endswith("]")
        if not is_arr and self.P.record(s0) is None and len(n.ch) == 1:
            return self.evx(n.ch[0], st, fr, f)
        for c in n.ch:
            nxt = []
            for s, vals in acc:
                for s2, v in self.evx(c, s, fr, f):
                    nxt.append((s2, vals + [v]))
            acc = nxt
        out = []
        for s, vals in acc:
            if is_arr:
                out.append((s, ("arr", tuple((i, v) for i, v in enumerate(vals)))))
            else:
                rec = self.P.record(s0)
                if rec is None:
                    raise AnalysisError("unknown record %s at %s" % (s0, locs(n)))
                tag, fields = rec
                d = []
                if tag == "union":
                    fld = (n.x or {}).get("field")
                    if vals:
                        nm = fld if fld is not None else fields[0][0]
                        al = self.union_alias.get(nm)
                        if al and any(x[0] == al for x in fields):
                            nm = al
                        v = vals[0]
                        if nm == "" and isinstance(v, tuple) and v[0] == "struct":
                            d.extend(v[2])
                        elif nm != "":
                            d.append((nm, v))
                else:
                    for (nm, ty, bf), v in zip(fields, vals):
                        if nm == "":
                            if isinstance(v, tuple) and v[0] == "struct":
                                d.extend(v[2])
                        else:
                            d.append((nm, v))
                out.append((s, ("struct", s0, tuple(d))))
        return out

    def cast(self, n, st, fr, f):
        ck = n.v
        c = n.ch[0]
        if ck == "LValueToRValue":
            if c.k == "CompoundLiteralExpr":
                return self.evx(c, st, fr, f)
            return [(s, self.load(s, l, n.t[1])) for s, l in self.lval(c, st, fr, f)]
        if ck == "ArrayToPointerDecay":
            if c.k == "StringLiteral":
                return [(st, ("str", c.v))]
            if c.k == "PredefinedExpr":
                return [(st, ("str", f.name if f else "?"))]
            return [(s, ("str", l[1]) if l[0] == "strloc" else ("addr", ("i", l, 0))) for s, l in self.lval(c, st, fr, f)]
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.evx(c, st, fr, f)
        out = []
        src = c.t[1] if c.t else None
        dst = n.t[1]
        for s, v in self.evx(c, st, fr, f):
            out.append((s, self.convert(s, ck, v, src, dst)))
        return out

    def convert(self, st, ck, v, src, dst):
        if ck in ("NoOp", "BitCast", "NullToPointer", "PointerToIntegral", "IntegralToPointer"):
            return v
        if ck == "ToVoid":
            return 0
        if ck == "IntegralCast":
            si, di = inttype(src), inttype(dst)
            if isinstance(v, int):
                return wrap(v, di)
            if si and di and di[0] < si[0] and isinstance(v, tuple):
                iv = self.interval(st, v)
                lo, hi = (-(1 << (di[0] - 1)), (1 << (di[0] - 1)) - 1) if di[1] else (0, (1 << di[0]) - 1)
                if iv[1] is not None and iv[2] is not None and iv[1] >= lo and iv[2] <= hi:
                    return v
                t = ("cast", di[0], di[1], v)
                self.tt[t] = di
                return t
            if si and isinstance(v, tuple) and v not in self.tt:
                self.tt[v] = si
            if self.typed and si and di and isinstance(v, tuple) and si[1] != di[1] and \
                    (di[0] == si[0] or si[1]) and not (v[0] == "b" and v[1] in ("==", "<", "<=")) and v[0] != "!":
                iv = self.interval(st, v)
                if iv[1] is None or iv[1] < 0 or iv[2] is None or iv[2] > (1 << (di[0] - di[1])) - 1:
                    if v[0] == "sc" and di[0] == si[0] and self.tt.get(v[2]) == di:
                        return v[2]
                    t = ("sc", di, v)
                    self.tt[t] = di
                    return t
            return v
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            d = self.decide(st, v)
            if d is not None:
                return int(d)
            return ("!", ("!", v))
        if ck == "IntegralToFloating":
            if isinstance(v, int):
                return ("flt", float(v))
            return ("cvt", strip(dst), v)
        if ck == "FloatingToIntegral":
            if isinstance(v, tuple) and v[0] == "flt":
                return wrap(int(v[1]), inttype(dst))
            return ("cvt", strip(dst), v)
        if ck == "FloatingCast":
            if isinstance(v, tuple) and v[0] == "flt":
                return v
            return ("cvt", strip(dst), v)
        if ck in ("FunctionToPointerDecay", "ArrayToPointerDecay", "LValueToRValue"):
            return v
        if ck == "ToUnion":
            return v
        raise AnalysisError("cast %s" % ck)

    def unary(self, n, st, fr, f):
        op = n.v
        c = n.ch[0]
        if op == "&":
            return [(s, l if l[0] == "func" else ("addr", l)) for s, l in self.lval(c, st, fr, f)]
        if op == "*":
            if "(" in (n.t[1] or "") and not n.t[1].endswith("*"):
                return self.evx(c, st, fr, f)
            return [(s, self.load(s, l, n.t[1])) for s, l in self.lval(n, st, fr, f)]
        if op in ("++", "--"):
            out = []
            isptr = n.t[1].strip().endswith("*")
            for s, l in self.lval(c, st, fr, f):
                old = self.load(s, l, c.t[1])
                d = 1 if op == "++" else -1
                new = self.ptradd(s, old, d) if isptr else self.binop("+", old, d, inttype(n.t[1]))
                self.store(s, l, new, n, c.t[1], f)
                out.append((s, old if (n.x or {}).get("post") else new))
            return out
        out = []
        for s, v in self.evx(c, st, fr, f):
            if op == "!":
                d = self.decide(s, v)
                out.append((s, int(not d) if d is not None else ("!", v)))
            elif op == "-":
                if isinstance(v, int):
                    out.append((s, wrap(-v, inttype(n.t[1]))))
                elif isinstance(v, tuple) and v[0] == "flt":
                    out.append((s, ("flt", -v[1])))
                else:
                    out.append((s, ("u", "-", v)))
            elif op == "~":
                if isinstance(v, int):
                    out.append((s, wrap(~v, inttype(n.t[1]))))
                else:
                    out.append((s, ("u", "~", v)))
            elif op == "+":
                out.append((s, v))
            elif op == "__extension__":
                out.append((s, v))
            else:
                raise AnalysisError("unary " + op)
        return out

    def store(self, st, loc, v, node, ty, f):
        it = inttype(ty) if ty else None
        self.write(st, loc, v)
        if self.record_writes and mk_loc_base(loc)[0] != "v":
            st.ev = (st.ev, Ev("write", "", (loc, v), locs(node), f.name if f else "?"))

    def binary(self, n, st, fr, f):
        op = n.v
        if op == "=":
            out = []
            for s, l in self.lval(n.ch[0], st, fr, f):
                for s2, v in self.evx(n.ch[1], s, fr, f):
                    self.store(s2, l, v, n, n.t[1], f)
                    out.append((s2, v))
            return out
        if op == ",":
            out = []
            for s, _ in self.evx(n.ch[0], st, fr, f):
                out.extend(self.evx(n.ch[1], s, fr, f))
            return out
        if op in ("&&", "||"):
            out = []
            for s, a in self.evx(n.ch[0], st, fr, f):
                for s2, tv in self.branch(s, a):
                    if (op == "&&") != tv:
                        out.append((s2, int(tv)))
                    else:
                        for s3, b in self.evx(n.ch[1], s2, fr, f):
                            for s4, tv2 in self.branch(s3, b):
                                out.append((s4, int(tv2)))
            return out
        out = []
        lt, rt = n.ch[0].t[1], n.ch[1].t[1]
        lp, rp = is_ptr(lt), is_ptr(rt)
        for s, a in self.evx(n.ch[0], st, fr, f):
            for s2, b in self.evx(n.ch[1], s, fr, f):
                a2, b2 = self.known(s2, a), self.known(s2, b)
                if op == "+" and lp:
                    out.append((s2, self.ptradd(s2, a2, b2)))
                elif op == "+" and rp:
                    out.append((s2, self.ptradd(s2, b2, a2)))
                elif op == "-" and lp and not rp:
                    out.append((s2, self.ptradd(s2, a2, self.neg(b2))))
                elif op == "-" and lp and rp:
                    out.append((s2, self.ptrdiff(a2, b2)))
                elif strip(lt) in FLT or strip(rt) in FLT:
                    out.append((s2, self.fbin(op, strip(lt), a2, b2)))
                else:
                    if self.typed and op in ("/", "%"):
                        s2.ev = (s2.ev, Ev("div", op, (a2, b2), locs(n), f.name if f else "?", None,
                                           {"ty": inttype(n.t[1]), "b": self.interval(s2, b2) if not isinstance(b2, int) else
                                            ("iv", b2, b2, frozenset()),
                                            "a": self.interval(s2, a2) if not isinstance(a2, int) else ("iv", a2, a2, frozenset())}))
                    out.append((s2, self.binop(op, a2, b2, inttype(n.t[1]), inttype(lt))))
        return out

    def neg(self, v):
        return -v if isinstance(v, int) else ("u", "-", v)

    def ptrdiff(self, a, b):
        if a == b:
            return 0
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "addr" and b[0] == "addr":
            la, lb = a[1], b[1]
            if la[0] == "i" and lb[0] == "i" and la[1] == lb[1]:
                return self.binop("-", la[2], lb[2], None)
            if la[0] == "i" and la[1] == lb:
                return la[2]
        if isinstance(a, tuple) and a[0] == "b" and a[1] == "+" and a[2] == b:
            return a[3]
        return ("b", "-", a, b)

    def fbin(self, op, ty, a, b):
        if op in ("!=", ">", ">=",):
            if op == "!=":
                return ("!", ("fb", "==", ty, a, b))
            return ("fb", {">": "<", ">=": "<="}[op], ty, b, a)
        return ("fb", op, ty, a, b)

    def binop(self, op, a, b, ty, opty=None):
        if isinstance(a, int) and isinstance(b, int):
            if op == "+":
                return wrap(a + b, ty)
            if op == "-":
                return wrap(a - b, ty)
            if op == "*":
                return wrap(a * b, ty)
            if op == "/":
                if b == 0:
                    return ("b", "/", a, b)
                q = abs(a) // abs(b)
                return wrap(q if (a < 0) == (b < 0) else -q, ty)
            if op == "%":
                if b == 0:
                    return ("b", "%", a, b)
                q = abs(a) % abs(b)
                return wrap(-q if a < 0 else q, ty)
            if op == "<<":
                return wrap(a << b, ty) if 0 <= b < 64 else ("b", op, a, b)
            if op == ">>":
                return wrap(a >> b, ty) if 0 <= b < 64 else ("b", op, a, b)
            if op == "&":
                return wrap(a & b, ty)
            if op == "|":
                return wrap(a | b, ty)
            if op == "^":
                return wrap(a ^ b, ty)
            return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if op == "!=":
                return neg_(self.cmp("==", a, b))
            if op == ">":
                return self.cmp("<", b, a)
            if op == ">=":
                return self.cmp("<=", b, a)
            return self.cmp(op, a, b)
        if op == "-" and isinstance(b, int):
            op, b = "+", -b
        if op in ("+", "*", "&", "|", "^") and isinstance(a, int):
            a, b = b, a
        if op == "+":
            if b == 0:
                return a
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == "b" and a[1] == "+" and isinstance(a[3], int):
                s = a[3] + b
                return a[2] if s == 0 else ("b", "+", a[2], s)
        if op == "-":
            if b == 0:
                return a
            if a == b:
                return 0
            if isinstance(a, tuple) and a[0] == "b" and a[1] == "+" and a[2] == b:
                return a[3]
            if isinstance(b, tuple) and b[0] == "b" and b[1] == "+" and b[2] == a:
                return self.neg(b[3])
        if op == "*" and b == 1:
            return a
        if op == "*" and b == 0:
            return 0
        if op in ("<<", ">>", "|", "^") and b == 0:
            return a
        if op == "&" and b == 0:
            return 0
        if op == "%" and b in (1, -1):
            return 0
        if op == "/" and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "sizeof":
            m = re.match(r"(.*?)\s*\[(\d+)\]$", a[1])
            if m and m.group(1) == b[1]:
                return int(m.group(2))
        if op == "/" and b == 1:
            return a
        r = ("b", op, a, b)
        if ty and r not in self.tt:
            self.tt[r] = ty
        return r

    def cmp(self, op, a, b):
        if a == b:
            return int(op != "<")
        if op == "==" and (b == 0 and isinstance(b, int) and isinstance(a, tuple) and a[0] in ("str", "addr", "func") or
                           a == 0 and isinstance(a, int) and isinstance(b, tuple) and b[0] in ("str", "addr", "func")):
            return 0
        if op == "==":
            if isinstance(a, int) or (isinstance(b, tuple) and isinstance(a, tuple) and repr(b) < repr(a)):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == "b" and a[1] == "+" and isinstance(a[3], int):
                return self.cmp("==", a[2], b - a[3])
            if b == 0 and isinstance(a, tuple) and a[0] == "b" and a[1] in ("==", "<", "<="):
                return ("!", a)
            if b == 0 and isinstance(a, tuple) and a[0] == "!":
                return a[1] if is_bool(a[1]) else ("!", a)
        return ("b", op, a, b)

    def compound(self, n, st, fr, f):
        op = n.v[:-1]
        out = []
        lt = n.ch[0].t[1]
        crt = (n.x or {}).get("crt", n.t[1])
        for s, l in self.lval(n.ch[0], st, fr, f):
            for s2, b in self.evx(n.ch[1], s, fr, f):
                a = self.load(s2, l, lt)
                b = self.known(s2, b)
                if is_ptr(lt):
                    v = self.ptradd(s2, a, b if op == "+" else self.neg(b))
                elif strip(crt) in FLT:
                    v = self.fbin(op, strip(crt), a, b)
                else:
                    v = self.binop(op, a, b, inttype(crt))
                    if inttype(lt) and inttype(lt) != inttype(crt):
                        if isinstance(v, int):
                            v = wrap(v, inttype(lt))
                        elif inttype(crt) and inttype(lt)[0] < inttype(crt)[0]:
                            # value-preserving for the analysis of bit layout: remember the width
                            self.tt.setdefault(v, inttype(lt))
                self.store(s2, l, v, n, lt, f)
                out.append((s2, v))
        return out

    # ------------------------------------------------------------ calls
    def call(self, n, st, fr, f):
        name = callee_name(n)
        acc = [(st, [])]
        if name is None:
            nxt = []
            for s, v in self.evx(n.ch[0], st, fr, f):
                nxt.append((s, [v]))
            acc = nxt
        else:
            acc = [(st, [("func", name)])]
        for c in n.ch[1:]:
            nxt = []
            for s, vals in acc:
                for s2, v in self.evx(c, s, fr, f):
                    nxt.append((s2, vals + [v]))
            acc = nxt
        out = []
        for s, vals in acc:
            cal = vals[0]
            nm = cal[1] if isinstance(cal, tuple) and cal[0] == "func" else None
            args = tuple(self.known(s, a) for a in vals[1:])
            out.extend(self.do_call(n, s, nm, cal, args, f))
        return out

    def do_call(self, n, s, nm, cal, args, f):
        tu = f.tu if f is not None and hasattr(f, "tu") else None
        loc = locs(n)
        if nm in self.models:
            r = self.models[nm](self, s, args, n, f)
            if r is not None:
                return r
        if nm in self.noreturn:
            s.ev = (s.ev, Ev("noreturn", nm, args, loc, f.name if f else "?"))
            s.dead = True
            self.dead_states().append(s)
            return []
        fn = self.P.func(nm, tu) if nm else None
        if fn is not None and fn.body is not None and nm not in self.opaque and self.inline_pred(fn):
            if sum(1 for g, _ in self.stack if g is fn) < self.max_rec:
                outs = []
                self.sites.append(n)
                rs = self.call_body(s, fn, args)
                self.sites.pop()
                for s2, sig, rv in rs:
                    if sig is None:
                        outs.append((s2, rv if rv is not None else 0))
                    else:
                        outs.append((s2, ("undef", "goto")))
                return self.join_caps(outs)
        if nm in self.pure:
            t = ("fn", nm, args)
            it = inttype(n.t[1]) if n.t else None
            if it:
                self.tt.setdefault(t, it)
            return [(s, self.known(s, t))]
        s.cnt[0] += 1
        label = nm if nm else show(cal)
        ret = ("call", label, s.cnt[0])
        it = inttype(n.t[1]) if n.t else None
        if it:
            self.tt[ret] = it
        s.ev = (s.ev, Ev("call", label, args, loc, f.name if f else "?", ret, {"stack": tuple(g.name for g, _ in self.stack), "conds": len(s.conds)}))
        if self.havoc_args:
            for a in args:
                if isinstance(a, tuple) and a[0] == "addr":
                    l = a[1]
                    if mk_loc_base(l)[0] == "v":
                        if l[0] == "i":
                            l = l[1]
                        if nm not in READONLY:
                            self.write(s, l, ("out", label, s.cnt[0], l[2] if l[0] != "v" else l[2]))
        return [(s, ret)]

    def dead_states(self):
        if not hasattr(self, "_dead"):
            self._dead = []
        return self._dead

    def take_dead(self):
        d = self.dead_states()
        self._dead = []
        return [Path(s, "noreturn", None) for s in d]

    def join_caps(self, outs):
        """merge states that differ only in capacity bookkeeping (growth of dynamic arrays)"""
        if len(outs) < 2:
            return outs
        res = []
        seen = {}
        for s, v in outs:
            key = (id(s.ev), v if isinstance(v, (int, tuple)) else repr(v))
            try:
                hit = seen.get(key)
            except TypeError:
                res.append((s, v))
                continue
            if hit is None:
                seen[key] = s
                res.append((s, v))
                continue
            if self.mergeable(hit, s):
                for kk in set(hit.mem) | set(s.mem):
                    if hit.mem.get(kk) != s.mem.get(kk):
                        hit.mem[kk] = ("havoc", kk, hit.ver)
                hit.facts = {k: x for k, x in hit.facts.items() if s.facts.get(k) == x}
            else:
                res.append((s, v))
        return res

    def mergeable(self, a, b):
        for kk in set(a.mem) | set(b.mem):
            if a.mem.get(kk) != b.mem.get(kk):
                nm = kk[2] if kk[0] in ("f", "v") else kk[1]
                if not (isinstance(nm, str) and nm.endswith("cap")):
                    return False
        return True

    # ------------------------------------------------------------ statements
    def seq(self, stmts, states, fr, f):
        cur = list(states)
        done = []
        for st in stmts:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    done.append((s, sig))
                else:
                    nxt.extend(self.ex(st, s, fr, f))
            cur = nxt
            if not cur:
                break
        return done + cur

    def ex(self, n, st, fr, f):
        """-> [(st, sig)]"""
        self.tick()
        k = n.k
        if k == "CompoundStmt":
            return self.seq(n.ch, [(st, None)], fr, f)
        if k == "DeclStmt":
            cur = [st]
            for d in n.ch:
                if d.k != "VarDecl":
                    continue
                if (d.x or {}).get("storageClass") in ("static", "extern"):
                    continue
                nxt = []
                for s in cur:
                    loc = ("v", d.x["id"], d.v, fr)
                    if d.ch and d.x.get("init"):
                        init = d.ch[-1]
                        for s2, v in self.evx(init, s, fr, f):
                            self.write(s2, loc, v)
                            nxt.append(s2)
                    else:
                        for kk in s.mem.below(loc, [loc] if loc in s.mem else []):
                            del s.mem[kk]
                        nxt.append(s)
                cur = nxt
            return [(s, None) for s in cur]
        if k == "IfStmt":
            out = []
            for s, c in self.evx(n.ch[0], st, fr, f):
                for s2, tv in self.branch(s, c):
                    if tv:
                        out.extend(self.ex(n.ch[1], s2, fr, f))
                    elif len(n.ch) > 2:
                        out.extend(self.ex(n.ch[2], s2, fr, f))
                    else:
                        out.append((s2, None))
            return out
        if k == "ReturnStmt":
            if n.ch:
                return [(s, ("return", v)) for s, v in self.evx(n.ch[0], st, fr, f)]
            return [(st, ("return", None))]
        if k == "BreakStmt":
            return [(st, "break")]
        if k == "ContinueStmt":
            return [(st, "continue")]
        if k == "NullStmt":
            return [(st, None)]
        if k == "GotoStmt":
            return [(st, ("goto", n.v))]
        if k == "LabelStmt":
            return self.ex(n.ch[0], st, fr, f)
        if k in ("CaseStmt", "DefaultStmt"):
            return self.ex(n.ch[-1], st, fr, f)
        if k == "WhileStmt":
            return self.loop(n, None, n.ch[0], None, n.ch[1], st, fr, f)
        if k == "DoStmt":
            return self.loop(n, None, n.ch[1], None, n.ch[0], st, fr, f, do=True)
        if k == "ForStmt":
            ch = n.ch
            # inner: init, condvar, cond, inc, body
            init, cond, inc, body = ch[0], ch[2], ch[3], ch[4]
            states = [(st, None)]
            if init is not None:
                states = self.ex(init, st, fr, f)
            out = []
            for s, sig in states:
                out.extend(self.loop(n, None, cond, inc, body, s, fr, f))
            return out
        if k == "SwitchStmt":
            return self.switch(n, st, fr, f)
        if k in ("StaticAssertDecl",):
            return [(st, None)]
        # expression statement
        r = [(s, None) for s, _ in self.evx(n, st, fr, f)]
        if len(r) > 1:
            r = [(s, None) for s, _ in self.join_caps([(s, 0) for s, _ in r])]
        return r

    def take_backs(self):
        r, self.backs = self.backs, []
        return r

    # ---- classic loop abstraction: forget what the loop assigns, run the body once
    def assigned(self, nodes, f, seen=None):
        """(local decl refs, field names, deref'd?) assigned in NODES, through inlined callees"""
        if seen is None:
            seen = set()
        loc_, fld, derefs = {}, set(), False
        for root in nodes:
            if root is None:
                continue
            for q in root.walk():
                tgt = None
                if q.k == "BinaryOperator" and q.v == "=" or q.k == "CompoundAssignOperator":
                    tgt = q.ch[0]
                elif q.k == "UnaryOperator" and q.v in ("++", "--", "&"):
                    tgt = q.ch[0]
                elif q.k == "CallExpr":
                    nm = callee_name(q)
                    g = self.P.func(nm, f.tu if f else None) if nm else None
                    if g is not None and g.body is not None and nm not in self.opaque and nm not in self.models \
                            and self.inline_pred(g) and nm not in seen:
                        seen.add(nm)
                        l2, f2, d2 = self.assigned([g.body], g, seen)
                        fld |= f2
                        derefs |= d2
                        for k2, v2 in l2.items():
                            if v2[0] == "glob":
                                loc_[k2] = v2
                if tgt is None:
                    continue
                while tgt.k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
                    tgt = tgt.ch[0]
                b, path = tgt, []
                while True:
                    if b.k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
                        b = b.ch[0]
                    elif b.k == "MemberExpr" and not b.x["arrow"]:
                        path.append(b.v)
                        b = b.ch[0]
                    elif b.k == "ArraySubscriptExpr" and "[" in (strip(_under(b.ch[0]).t[1]) if _under(b.ch[0]).t else ""):
                        path.append(None)
                        b = _under(b.ch[0])
                    else:
                        break
                if b.k == "DeclRefExpr" and b.x["rk"] in ("VarDecl", "ParmVarDecl"):
                    ids = self.local_ids(f)
                    islocal = b.x["rk"] == "ParmVarDecl" or (b.x["id"] in ids and not ids[b.x["id"]])
                    loc_[(b.x["id"], tuple(path))] = ("loc" if islocal else "glob", b, tuple(path))
                elif b.k == "MemberExpr":
                    fld.add(path[-1] if path and path[-1] else b.v)
                    if b.v:
                        fld.add(b.v)
                    for pp in path:
                        if pp:
                            fld.add(pp)
                elif b.k in ("UnaryOperator", "ArraySubscriptExpr"):
                    derefs = True
                    for pp in path:
                        if pp:
                            fld.add(pp)
        return loc_, fld, derefs

    def havoc_loop(self, n, nodes, st, fr, f):
        loc_, fld, derefs = self.assigned(nodes, f)
        self._lv += 1
        tag = self._lv
        carried = []
        for (id_, path), (kind, b, pth) in sorted(loc_.items(), key=lambda z: str(z[0])):
            loc = self.declloc(b, fr, f)
            if loc[0] == "v" and loc not in st.mem and not st.mem.has_below(loc):
                continue        # declared inside the loop
            ty = b.t[1]
            for pp in reversed(pth):
                if pp is None:
                    break
                loc = ("f", loc, pp)
                ty = None
            old = self.rd(st, loc)
            nm = show(loc)
            sym = ("lv", nm, tag)
            it = inttype(ty) if ty else None
            if it:
                self.tt[sym] = it
            elif ty is None and isinstance(old, tuple) and old in self.tt:
                self.tt[sym] = self.tt[old]
            self.write(st, loc, sym)
            carried.append((nm, loc, old, sym))
        for k in list(st.mem):
            if k[0] == "f" and k[2] in fld and mk_loc_base(k)[0] != "v":
                st.mem[k] = ("lv", show(k), tag)
            elif derefs and k[0] in ("d", "i") and mk_loc_base(k)[0] != "v":
                st.mem[k] = ("lv", show(k), tag)
        st.ev = (st.ev, Ev("loop", "loop", (tag,), locs(n), f.name if f else "?", None,
                           {"entry": {c[0]: c[2] for c in carried}, "sym": {c[0]: c[3] for c in carried},
                            "loc": {c[0]: c[1] for c in carried}}))
        return tag, carried

    def loop_havoc(self, n, cond, inc, body, st, fr, f, do):
        out = self.loop_havoc_(n, cond, inc, body, st, fr, f, do)
        if self.merge_exits and len(out) > 1:
            out = self.merge_states(out, n, fr)
        return out

    def merge_states(self, outs, n, fr):
        """join exit states that agree on everything still live: loop-local variables and facts about
        the abandoned iteration are dropped"""
        inner = {q.x["id"] for q in n.walk() if q.k == "VarDecl"}
        tag = self._lv
        groups = {}
        res = []
        for s, sig in outs:
            if sig is not None:
                res.append((s, sig))
                continue
            for k in list(s.mem):
                b = mk_loc_base(k)
                if b[0] == "v" and b[1] in inner:
                    del s.mem[k]
            for k in list(s.facts):
                if mentions(k, "lv") and not (isinstance(k, tuple) and k[0] == "lv"):
                    del s.facts[k]
            evs = tuple((id(e)) for e in s.events() if e.k not in ("iter",))
            key = (evs, tuple(sorted(((repr(k), repr(v)) for k, v in s.mem.items()))))
            g = groups.get(key)
            if g is None:
                groups[key] = s
                res.append((s, None))
            else:
                g.facts = {k: x for k, x in g.facts.items() if s.facts.get(k) == x}
                g.conds = tuple(c for c in g.conds if c in s.conds)
        return res

    def loop_havoc_(self, n, cond, inc, body, st, fr, f, do):
        out = []
        tag, carried = self.havoc_loop(n, [cond, inc, body], st, fr, f)
        if do or cond is None:
            starts = [(st, True)]
        else:
            starts = []
            for s1, c in self.evx(cond, st, fr, f):
                starts.extend(self.branch(s1, c))

        def back(s):
            s.ev = (s.ev, Ev("back", "loop", (tag,), locs(n), f.name if f else "?", None,
                             {"exit": {c[0]: self.rd(s, c[1]) for c in carried}}))
            self.backs.append(Path(s, "back", None))

        for s1, tv in starts:
            if not tv:
                out.append((s1, None))
                continue
            s1.ev = (s1.ev, Ev("iter", "loop", (tag,), locs(n), f.name if f else "?"))
            for s2, sig in self.ex(body, s1, fr, f):
                if sig == "break":
                    out.append((s2, None))
                elif sig is None or sig == "continue":
                    nxt = [s2]
                    if inc is not None:
                        nxt = [s3 for s3, _ in self.evx(inc, s2, fr, f)]
                    for s3 in nxt:
                        if do and cond is not None:
                            for s4, c in self.evx(cond, s3, fr, f):
                                for s5, tv2 in self.branch(s4, c):
                                    if tv2:
                                        back(s5)
                                    else:
                                        out.append((s5, None))
                        else:
                            back(s3)
                else:
                    out.append((s2, sig))
        return out

    def loop(self, n, init, cond, inc, body, st, fr, f, do=False):
        out = []
        if self.loops_mode == "havoc":
            lit = cond is None or _under(cond).k == "IntegerLiteral"
            if lit or do:
                if not (do and lit and _under(cond).v == 0):
                    return self.loop_havoc(n, cond, inc, body, st, fr, f, do)
            work = [st]
            tot = 0
            while work:
                s = work.pop()
                tot += 1
                if tot > 5000:
                    raise Limit("concrete loop limit at %s" % locs(n))
                probe = s.fork()
                r = self.evx(cond, probe, fr, f) if not do else [(probe, 1)]
                if len(r) != 1 or not isinstance(r[0][1], (int, str)) and r[0][1][0] not in ("addr", "str"):
                    out.extend(self.loop_havoc(n, cond, inc, body, s, fr, f, do))
                    continue
                s, c = r[0]
                if not do and not self.decide(s, c):
                    out.append((s, None))
                    continue
                for s2, sig in self.ex(body, s, fr, f):
                    if sig == "break":
                        out.append((s2, None))
                    elif sig is None or sig == "continue":
                        if inc is not None:
                            work.extend(s3 for s3, _ in self.evx(inc, s2, fr, f))
                        elif do:
                            out.append((s2, None))
                        else:
                            work.append(s2)
                    else:
                        out.append((s2, sig))
            return out
        work = [(st, 0, 0, do)]
        while work:
            s, sym, tot, skipcond = work.pop()
            if tot > 5000:
                raise Limit("concrete loop limit at %s" % locs(n))
            if skipcond or cond is None:
                starts = [(s, True, cond is None)]
            else:
                starts = []
                for s1, c in self.evx(cond, s, fr, f):
                    d = self.decide(s1, c)
                    if d is not None:
                        starts.append((s1, d, False))
                    else:
                        for s2, tv in self.branch(s1, c):
                            starts.append((s2, tv, True))
            for s1, tv, symbolic in starts:
                if not tv:
                    out.append((s1, None))
                    continue
                nsym = sym + (1 if symbolic else 0)
                if nsym > self.unroll:
                    self.truncated += 1
                    s1.ev = (s1.ev, Ev("trunc", "loop", (), locs(n), f.name if f else "?"))
                    out.append((s1, "trunc"))
                    continue
                s1.ev = (s1.ev, Ev("iter", "loop", (tot,), locs(n), f.name if f else "?")) if symbolic else s1.ev
                for s2, sig in self.ex(body, s1, fr, f):
                    if sig == "break":
                        out.append((s2, None))
                    elif sig is None or sig == "continue":
                        if inc is not None:
                            for s3, _ in self.evx(inc, s2, fr, f):
                                work.append((s3, nsym, tot + 1, False))
                        else:
                            work.append((s2, nsym, tot + 1, False))
                    else:
                        out.append((s2, sig))
        return out

    def switch(self, n, st, fr, f):
        body = n.ch[-1]
        items = []          # (labels, stmt)
        flat = []

        def flatten(s):
            labs = []
            while s.k in ("CaseStmt", "DefaultStmt"):
                if s.k == "CaseStmt":
                    labs.append(("case", s.ch[0]))
                else:
                    labs.append(("default", None))
                s = s.ch[-1]
            flat.append((labs, s))

        if body.k == "CompoundStmt":
            for s in body.ch:
                flatten(s)
        else:
            flatten(body)
        out = []
        for s, c in self.evx(n.ch[0], st, fr, f):
            c = self.known(s, c)
            cases = []
            default = None
            for i, (labs, stm) in enumerate(flat):
                for kind, e in labs:
                    if kind == "default":
                        default = i
                    else:
                        v = int(e.v) if e.k == "ConstantExpr" and e.v is not None else self.evx(e, s, fr, f)[0][1]
                        cases.append((v, i))
            targets = []
            if isinstance(c, int):
                hit = next((i for v, i in cases if wrap(v, (64, False)) == wrap(c, (64, False)) or v == c), None)
                targets.append((s, hit if hit is not None else default))
            else:
                rest = s
                for v, i in cases:
                    t = self.cmp("==", c, v)
                    d = self.decide(rest, t)
                    if d is False:
                        continue
                    s2 = rest.fork()
                    self.npaths += 1
                    if self.npaths > self.max_paths:
                        raise Limit("path limit (switch at %s)" % locs(n))
                    if self.assume(s2, t, True):
                        targets.append((s2, i))
                    if not self.assume(rest, t, False):
                        rest = None
                        break
                if rest is not None:
                    targets.append((rest, default))
            for s2, i in targets:
                if i is None:
                    out.append((s2, None))
                    continue
                for s3, sig in self.seq([x[1] for x in flat[i:]], [(s2, None)], fr, f):
                    out.append((s3, None if sig == "break" else sig))
        return out


def _under(n):
    while n.k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
        n = n.ch[0]
    return n


def mentions(t, kind):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == kind:
        return True
    return any(mentions(c, kind) for c in t)


class _FakeFunc:
    name = "<init>"
    tu = None
    node = None
    body = None


READONLY = {"strcmp", "strlen", "strncmp", "memcmp", "fwrite", "file_write", "fopen", "sv_string_cmp", "sv_cmp"}


def has_prefix(k, loc):
    while True:
        if k == loc:
            return True
        if k[0] in ("f", "i"):
            k = k[1]
        else:
            return False


def neg_(t):
    if isinstance(t, int):
        return int(not t)
    if t[0] == "!" and is_bool(t[1]):
        return t[1]
    return ("!", t)


def is_bool(t):
    return isinstance(t, tuple) and (t[0] == "!" or (t[0] in ("b", "fb") and t[1] in ("==", "<", "<=")))


def is_ptr(t):
    s = strip(t or "")
    return s.endswith("*") or (s.endswith("]") and "[" in s) or (s.endswith(")") and "(*" in s)


def is_distinct(a, b):
    ka = a[0] if isinstance(a, tuple) else None
    kb = b[0] if isinstance(b, tuple) else None
    if ka == "str" and kb == "str":
        return a != b
    if ka in CK and kb in CK:
        return a != b
    if ka in ("str", "func", "addr") and b == 0 and isinstance(b, int) or kb in ("str", "func", "addr") and a == 0 and isinstance(a, int):
        return True
    if ka in CK and kb in ("str", "func", "addr") or kb in CK and ka in ("str", "func", "addr"):
        return True
    if ka == "func" and kb == "func":
        return a != b
    if ka == "addr" and kb == "addr":
        ba, bb = mk_loc_base(a[1]), mk_loc_base(b[1])
        return ba[0] in ("v", "g") and bb[0] in ("v", "g") and a != b and ba != bb
    return False


def wide_access(n):
    """*(T *)p with p a pointer to bytes and T wider: the number of bytes accessed"""
    t = inttype(n.t[1]) if n.t else None
    if not t or t[0] <= 8:
        return 0
    c = n.ch[0]
    while c.k == "ParenExpr":
        c = c.ch[0]
    if c.k != "CStyleCastExpr":
        return 0
    c = c.ch[0]
    while c.k == "ParenExpr" or c.k == "ImplicitCastExpr" and c.x and c.x.get("ck") in ("LValueToRValue", "NoOp"):
        if c.k == "ImplicitCastExpr" and c.x.get("ck") == "LValueToRValue":
            break
        c = c.ch[0]
    p = (c.t or ("", ""))[1].replace("const ", "").strip()
    return t[0] // 8 if p.endswith("*") and (inttype(p[:-1].strip()) or (0,))[0] == 8 else 0


def is_lvalue_node(n):
    while n.k == "ParenExpr":
        n = n.ch[0]
    return n.k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CompoundLiteralExpr") or \
        (n.k == "UnaryOperator" and n.v == "*")


def written_globals(P):
    """names of globals that are assigned or whose address is taken mutably anywhere"""
    w = set()

    def base(n):
        while True:
            if n.k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
                n = n.ch[0]
            elif n.k == "MemberExpr" and not n.x["arrow"]:
                n = n.ch[0]
            elif n.k == "ArraySubscriptExpr":
                n = n.ch[0]
            elif n.k == "MemberExpr":
                return None
            else:
                break
        return n.v if n.k == "DeclRefExpr" and n.x["rk"] == "VarDecl" else None

    for f in P.all_funcs:
        for n in f.node.walk():
            if n.k == "BinaryOperator" and n.v == "=" or n.k == "CompoundAssignOperator":
                b = base(n.ch[0])
                if b:
                    w.add(b)
            elif n.k == "UnaryOperator" and n.v in ("++", "--"):
                b = base(n.ch[0])
                if b:
                    w.add(b)
            elif n.k == "CallExpr":
                for c in n.ch[1:]:
                    for q in c.walk():
                        if q.k == "UnaryOperator" and q.v == "&":
                            b = base(q.ch[0])
                            if b and "const" not in (c.t[0] or ""):
                                w.add(b)
    return w
