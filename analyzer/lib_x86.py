"""Symbolic x86-64 machine over emitted instructions, and bit-vector normal forms for its values.

Values are integers or tuples denoting 64-bit words:
  ("v", name, w)         unsigned w-bit unknown
  ("zx", w, t) ("sx", w, t)   low w bits of t, zero / sign extended
  ("+",a,b) ("*",a,b) ("&",a,b) ("|",a,b) ("^",a,b)   modulo 2^64
  ("shl"|"shr"|"sar", w, a, c)   shift of the low w bits of a by the low 5/6 bits of c
  ("udiv"|"sdiv"|"umod"|"smod", w, a, b)
  ("rel", op, w, a, b)   0/1: op in eq ult slt (others are normalised to these with swap / not)
  ("not", t)             1 - t for 0/1 t
  ("f+", w, a, b) ...    floating operation on w-byte operands, bits of the result
  ("fcmp", op, w, a, b)  0/1: op in oeq olt ole uno
  ("cvt", kind, t)
  ("ins", w, old, new)   old with its low w bits replaced by new's
  ("cat", (byte, ...))   bytes (i, t): byte i of t"""
from front import AnalysisError

M64 = (1 << 64) - 1
_memo = {}


def mask(w):
    return (1 << w) - 1


def bounded(t, w):
    """value (as an unsigned number) known to be < 2^w"""
    if isinstance(t, int):
        return 0 <= t < (1 << w)
    k = t[0]
    if k == "v":
        return t[2] <= w
    if k == "zx":
        return t[1] <= w
    if k in ("rel", "fcmp", "fset", "not", "and1", "or1", "bool"):
        return w >= 1
    if k in ("shr", "udiv", "umod"):
        return t[1] <= w or (k == "shr" and isinstance(t[3], int) and t[1] - t[3] <= w)
    if k == "lo":
        return t[1] <= w
    if k == "cat":
        return 8 * len(t[1]) <= w
    if k in ("f+", "f-", "f*", "f/", "fneg"):
        return t[1] * 8 <= w
    if k == "cvt":
        return t[1][1] * 8 <= w if isinstance(t[1], tuple) else False
    if k == "&":
        return any(bounded(x, w) for x in t[1:])
    if k in ("|", "^"):
        return all(bounded(x, w) for x in t[1:])
    return False


def canon(t, w=64):
    """canonical form of t modulo 2^w"""
    if isinstance(t, int):
        return t & mask(w)
    key = (t, w)
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = canon_(t, w)
    return r


def lindict(t, w):
    """linear form mod 2^w: {canonical monomial tuple: coef}"""
    if isinstance(t, int):
        return {(): t & mask(w)}
    k = t[0]
    if k in ("zx", "sx") and t[1] >= w:
        return lindict(t[2], w)
    if k == "zx" and bounded(t[2], t[1]):
        return lindict(t[2], w)
    if k == "ins":
        if t[1] >= w:
            return lindict(t[3], w)
    if k == "+":
        a, b = lindict(t[1], w), lindict(t[2], w)
        r = dict(a)
        for m, c in b.items():
            r[m] = (r.get(m, 0) + c) & mask(w)
        return {m: c for m, c in r.items() if c}
    if k == "*":
        a, b = lindict(t[1], w), lindict(t[2], w)
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2, key=repr))
                r[m] = (r.get(m, 0) + c1 * c2) & mask(w)
        return {m: c for m, c in r.items() if c}
    if k == "shl" and isinstance(t[3], int):
        c = t[3] & (63 if t[1] == 64 else 31)
        if t[1] >= w:
            return {m: (x << c) & mask(w) for m, x in lindict(t[2], w).items() if (x << c) & mask(w)}
    if k == "lin":
        r = {}
        for m, c in t[1]:
            p = {(): c & mask(w)}
            for x in m:
                q = {}
                for m1, c1 in p.items():
                    for m2, c2 in lindict(x, w).items():
                        mm = tuple(sorted(m1 + m2, key=repr))
                        q[mm] = (q.get(mm, 0) + c1 * c2) & mask(w)
                p = q
            for mm, cc in p.items():
                r[mm] = (r.get(mm, 0) + cc) & mask(w)
        return {m: c for m, c in r.items() if c}
    if k == "lo" and t[1] >= w and t[2] != t:
        return lindict(t[2], w) if w < t[1] else {(t,): 1}
    if k == "not":
        u = canon(t[1], w)
        if isinstance(u, tuple) and u[0] == "fset":
            u = mkfset(u[1], u[2], u[3], FULL - set(u[4]))
            return {(): u} if isinstance(u, int) and u else {} if isinstance(u, int) else {(u,): 1}
        r = {m: -c & mask(w) for m, c in lindict(t[1], w).items()}
        r[()] = (r.get((), 0) + 1) & mask(w)
        return {m: c for m, c in r.items() if c}
    c = atom(t, w)
    if isinstance(c, int):
        return {(): c} if c else {}
    if c[0] == "lin":
        return dict(c[1])
    return {(c,): 1}


def mklin(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if set(d) == {()}:
        return d[()]
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return ("lin", tuple(sorted(d.items(), key=repr)))


def canon_(t, w):
    return mklin(lindict(t, w))


def rel(op, w, a, b):
    """canonical comparison term"""
    neg = {"ne": "eq", "uge": "ult", "sge": "slt"}
    if op in ("ugt", "sgt"):
        return rel({"ugt": "ult", "sgt": "slt"}[op], w, b, a)
    if op in ("ule", "sle"):
        return ("not", rel({"ule": "ult", "sle": "slt"}[op], w, b, a))
    if op in neg:
        return ("not", rel(neg[op], w, a, b))
    return ("rel", op, w, a, b)


def fcmp(op, w, a, b):
    """canonical floating comparison; o.. false on NaN, u.. true on NaN"""
    inv = {"une": "oeq", "uge": "olt", "ugt": "ole", "ord": "uno"}
    if op in ("ogt", "oge", "ult", "ule"):
        sw = {"ogt": "olt", "oge": "ole", "ult": "ugt", "ule": "uge"}[op]
        return fcmp(sw, w, b, a)
    if op in inv:
        return ("not", fcmp(inv[op], w, a, b))
    return ("fcmp", op, w, a, b)


FULL = set("<=>u")


def mkfset(w, a, b, S):
    """0/1: the relation of floats a and b (w bytes) is in S"""
    S = set(S)
    if not S:
        return 0
    if S == FULL:
        return 1
    if repr(b) < repr(a):
        a, b = b, a
        S = {{"<": ">", ">": "<"}.get(c, c) for c in S}
    return ("fset", w, a, b, "".join(sorted(S)))


def is_bool(t):
    return isinstance(t, tuple) and (t[0] in ("rel", "fcmp", "fset", "bool", "and1", "or1") or (t[0] == "not" and is_bool(t[1])))


def isnot(t):
    """t == 1 - u  -> u"""
    if isinstance(t, tuple) and t[0] == "lin":
        d = dict(t[1])
        if len(d) == 2 and d.get(()) == 1:
            (m, c), = [(m, c) for m, c in d.items() if m]
            if len(m) == 1 and c in (M64, mask(32), mask(16), mask(8)) and is_bool(m[0]):
                return m[0]
    return None


def atom(t, w):
    """canonical form of a non-linear term modulo 2^w"""
    k = t[0]
    if k == "lin":
        return t if w == 64 else ("lo", w, t)
    if k == "v":
        return t if t[2] <= w else ("lo", w, t)
    if k in ("zx", "sx"):
        n = t[1]
        c = canon(t[2], n)
        if n >= w:
            return canon(t[2], w)
        if isinstance(c, int):
            return c if k == "zx" or not c >> (n - 1) else (c | (mask(w) & ~mask(n)))
        if bounded(c, n if k == "zx" else n - 1):
            return c
        if isnot(c) is not None:        # 1 - b
            return canon(("not", isnot(c)), w)
        if k == "zx" and c[0] == "shr" and isinstance(c[3], int):
            return c
        if k == "sx" and c[0] == "sx" and c[1] <= n:
            return c
        if k == "sx" and c[0] == "zx" and c[1] < n:
            return c
        return (k, n, c)
    if k in ("&", "|", "^"):
        a, b = canon(t[1], w), canon(t[2], w)
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        if isinstance(a, int):
            return {"&": a & b, "|": a | b, "^": a ^ b}[k]
        if isinstance(b, int):
            if k == "&":
                if b == 0:
                    return 0
                if b == mask(w):
                    return a
                if b & (b + 1) == 0:
                    return canon(("zx", b.bit_length(), a), w)
            if b == 0:
                return a
            if k == "^" and b == mask(w):
                return canon(("+", ("*", a, -1), -1), w)
            if k == "^" and b == 1 and is_bool(a):
                return canon(("not", a), w)
            if k == "^" and b == 1 << (w - 1):
                return canon(("+", a, b), w)
        if a == b:
            return 0 if k == "^" else a
        if is_boolx(a) and is_boolx(b) and k in ("&", "|"):
            return bool2(k, a, b)
        if repr(b) < repr(a):
            a, b = b, a
        return (k, a, b) if w == 64 else (k, a, b, w)
    if k in ("shl", "shr", "sar"):
        n = t[1]
        c = canon(t[3], 6 if n > 32 else 5)
        if k == "shl" and isinstance(c, int) and n < w:
            return canon(("zx", n, ("*", t[2], 1 << c)), w)
        a = canon(t[2], n)
        if isinstance(c, int) and isinstance(a, int):
            if k == "shr":
                r = a >> c
            elif k == "shl":
                r = (a << c) & mask(n)
            else:
                r = ((a - (1 << n) if a >> (n - 1) else a) >> c) & mask(n)
            return r & mask(w)
        if c == 0:
            return canon(("zx", n, a), w)
        if isinstance(c, int) and k != "shl":
            if c >= n:
                return 0 if k == "shr" else atom((k, n, a, n - 1), w)
            d = lindict(a, n)
            j = min((x & -x).bit_length() - 1 for x in d.values()) if d else 0
            if j and d:        # a = 2^j * b modulo 2^n
                b = mklin({m: x >> j for m, x in d.items()})
                e = min(j, c)
                if e == c:
                    b = b if j == e else ("*", b, 1 << (j - e))
                    r = ("zx" if k == "shr" else "sx", n - c, b)
                else:
                    r = (k, n - e, b, c - e)
                    if k == "sar":
                        r = ("sx", n - c, ("shr", n - e, b, c - e))
                if k == "sar" and w > n:
                    r = ("zx", n, r)
                return canon(r, w)
            if k == "sar":
                r = ("sx", n - c, ("shr", n, a, c))
                return canon(r if w <= n else ("zx", n, r), w)
            # unsigned extract: bits c .. n-1 of a
            while isinstance(a, tuple) and a[0] in ("zx", "lo", "v") and (a[0] == "zx" or a[0] == "lo") and a[1] >= n:
                a = a[2]
            n = min(n, w + c)
            if isinstance(a, tuple) and a[0] in ("v", "zx", "lo"):
                m = a[2] if a[0] == "v" else a[1]
                n = min(n, m)
            if isinstance(a, tuple) and a[0] == "shr" and isinstance(a[3], int) and a[1] <= n:
                return canon(("shr", a[1], a[2], a[3] + c), w) if a[3] + c < a[1] else 0
            if n <= c:
                return 0
            return ("shr", n, canon(a, n), c)
        r = (k, n, a, c)
        return r if n <= w else ("lo", w, r)
    if k in ("udiv", "sdiv", "umod", "smod"):
        r = (k, t[1], canon(t[2], t[1]), canon(t[3], t[1]))
        return r if t[1] <= w else ("lo", w, r)
    if k == "rel":
        a, b = canon(t[3], t[2]), canon(t[4], t[2])
        if t[1] == "eq":
            if a == 0:
                a, b = b, a
            if b == 0 and isinstance(a, tuple):
                if is_boolx(a):
                    return canon(("not", a), w)
                if a[0] in ("zx", "sx") and a[1] < t[2]:
                    return canon(("rel", "eq", a[1], a[2], 0), w)
                if a[0] == "v" and a[2] < t[2]:
                    return ("rel", "eq", a[2], *((0, a) if repr(0) < repr(a) else (a, 0)))
                if a[0] == "shr" and isinstance(a[3], int) and a[1] - a[3] == 1:
                    return canon(("not", ("rel", "slt", a[1], a[2], 0)), w)
            if repr(b) < repr(a):
                a, b = b, a
            if isinstance(a, int) and isinstance(b, int):
                return int(a == b)
        return ("rel", t[1], t[2], a, b)
    if k == "fcmp":
        a, b = canon(t[3], 8 * t[2]), canon(t[4], 8 * t[2])
        return mkfset(t[2], a, b, {"oeq": "=", "olt": "<", "ole": "<=", "uno": "u"}[t[1]])
    if k == "fset":
        return t
    if k in ("and1", "or1"):
        return bool2("&" if k == "and1" else "|", canon(t[1], w), canon(t[2], w))
    if k in ("f+", "f-", "f*", "f/"):
        a, b = canon(t[2], 8 * t[1]), canon(t[3], 8 * t[1])
        if k in ("f+", "f*") and repr(b) < repr(a):
            a, b = b, a
        r = (k, t[1], a, b)
        return r if 8 * t[1] <= w else ("lo", w, r)
    if k == "fneg":
        return canon(("+", t[2], 1 << (8 * t[1] - 1)), min(w, 8 * t[1])) if w <= 8 * t[1] else \
            canon(("zx", 8 * t[1], ("+", t[2], 1 << (8 * t[1] - 1))), w)
    if k == "cvt":
        kind = t[1]
        if kind[0] == "sf" and kind[2] == 4:        # one source width: the value, not its representation, is converted
            return canon(("cvt", ("sf", kind[1], 8), ("sx", 32, t[2])), w)
        r = ("cvt", kind, canon(t[2], 8 * kind[2]))
        return r if 8 * kind[1] <= w else ("lo", w, r)
    if k == "ins":
        n, old, new = t[1], t[2], t[3]
        if n >= w:
            return canon(new, w)
        co = canon(old, w)
        if bounded(co, n):
            return canon(("zx", n, new), w)
        return ("ins", n, co, canon(new, n), w)
    if k == "lo":
        return t if t[1] <= w else canon(t[2], w)
    if k == "cat":
        bs = t[1]
        i0, b0 = bs[0]
        if all(b == b0 and i == i0 + j for j, (i, b) in enumerate(bs)):
            n = 8 * len(bs)
            return canon(("zx", n, b0 if i0 == 0 else ("shr", 64, b0, 8 * i0)), w)
        if all(isinstance(b, int) for _, b in bs):
            v = 0
            for j, (i, b) in enumerate(bs):
                v |= ((b >> (8 * i)) & 255) << (8 * j)
            return v & mask(w)
        # trailing zero bytes
        n = len(bs)
        while n > 1 and bs[n - 1][1] == 0:
            n -= 1
        if n < len(bs):
            return canon(("zx", 8 * n, ("cat", bs[:n])), w)
        return t if 8 * len(bs) <= w else ("lo", w, t)
    if k == "p":
        return t
    return t


def is_boolx(t):
    return is_bool(t) or isnot(t) is not None


def bool2(k, a, b):
    """and / or of two canonical 0/1 terms"""
    def lit(x):
        n = isnot(x)
        return (False, n) if n is not None else (True, x)
    sa, xa = lit(a)
    sb, xb = lit(b)
    if xa == xb:
        if sa == sb:
            return a
        return 0 if k == "&" else 1
    if isinstance(xa, tuple) and isinstance(xb, tuple) and xa[0] == xb[0] == "fset" and xa[1:4] == xb[1:4]:
        A = set(xa[4]) if sa else FULL - set(xa[4])
        B = set(xb[4]) if sb else FULL - set(xb[4])
        return mkfset(xa[1], xa[2], xa[3], A & B if k == "&" else A | B)
    l = sorted([(sa, xa), (sb, xb)], key=repr)
    return ("bool", k, tuple(l))


# ---------------------------------------------------------------- bit level
def bits(t, w):
    """list of w bits: 0, 1, (term, i) or ('!', bit)"""
    if isinstance(t, int):
        return [(t >> i) & 1 for i in range(w)]
    k = t[0]
    if k == "v":
        return [(t, i) if i < t[2] else 0 for i in range(w)]
    if k == "zx":
        return bits(t[2], min(t[1], w)) + [0] * max(0, w - t[1])
    if k == "sx":
        b = bits(t[2], min(t[1], w))
        return b + [b[-1]] * max(0, w - t[1])
    if k == "ins":
        return (bits(t[3], min(t[1], w)) + bits(t[2], w)[t[1]:])[:w]
    if k == "cat":
        out = []
        for i, x in t[1]:
            out += bits(x, 8 * i + 8)[8 * i:]
        return (out + [0] * w)[:w]
    if k in ("shl", "shr", "sar"):
        c = canon(t[3], 6 if t[1] == 64 else 5)
        if isinstance(c, int):
            n = t[1]
            b = bits(t[2], n)
            if k == "shl":
                r = ([0] * c + b)[:n]
            else:
                r = b[c:] + [(b[-1] if k == "sar" else 0)] * c
            return (r + [0] * w)[:w]
    if k in ("&", "|", "^"):
        a, b = bits(t[1], w), bits(t[2], w)
        out = []
        for x, y in zip(a, b):
            if isinstance(x, int):
                x, y = y, x
            if k == "&":
                r = 0 if y == 0 or x == 0 else x if y == 1 else y if x == 1 else x if x == y else ("&", x, y)
            elif k == "|":
                r = 1 if 1 in (x, y) else x if y == 0 else y if x == 0 else x if x == y else ("|", x, y)
            else:
                r = x if y == 0 else y if x == 0 else 0 if x == y else nbit(x) if y == 1 else ("^", x, y)
            out.append(r)
        return out
    if k == "+" and t[2] == -1 and isinstance(t[1], tuple) and t[1][0] == "*" and t[1][2] == -1:
        return [nbit(x) for x in bits(t[1][1], w)]
    if k == "lin" or k == "+" or k == "*":
        d = lindict(t, 64)
        # a common power of two: a shift
        s = min((c & -c).bit_length() - 1 for c in d.values()) if d else 0
        u = mklin({m: c >> s for m, c in d.items()})
        if s:
            return ([0] * s + bits(u, w))[:w]
        if isinstance(u, tuple) and u[0] != "lin":
            return bits(u, w)
    c = canon(t, 64)
    if c != t and not isinstance(c, int) and c[0] in ("v", "zx", "sx", "shl", "shr", "sar", "&", "|", "^", "cat"):
        return bits(c, w)
    if isinstance(c, int):
        return bits(c, w)
    if c[0] == "lin":        # bit i depends on the value modulo 2^(i+1) only
        return [(canon(c, i + 1), i) for i in range(w)]
    return [(c, i) for i in range(w)]


def nbit(x):
    if isinstance(x, int):
        return 1 - x
    if x[0] == "!":
        return x[1]
    return ("!", x)


def same(a, b, w):
    """equal modulo 2^w"""
    if canon(a, w) == canon(b, w):
        return True
    return bits(a, w) == bits(b, w)


def sub(a, b):
    return ("+", a, ("*", b, -1))


# ---------------------------------------------------------------- machine
SZ = {"b": 1, "w": 2, "l": 4, "q": 8}
CC = {"e": "eq", "z": "eq", "ne": "ne", "nz": "ne", "l": "slt", "nge": "slt", "le": "sle", "ng": "sle", "g": "sgt", "nle": "sgt",
      "ge": "sge", "nl": "sge", "b": "ult", "c": "ult", "nae": "ult", "be": "ule", "na": "ule", "a": "ugt", "nbe": "ugt",
      "ae": "uge", "nb": "uge", "nc": "uge"}
# after ucomis dst,src: relation dst ? src
FCC = {"eq": ("=", "u"), "ne": ("<", ">"), "ult": ("<", "u"), "ule": ("<", "=", "u"), "ugt": (">",), "uge": (">", "="),
       "p": ("u",), "np": ("<", "=", ">")}
RAX, RBX, RCX, RDX, RSI, RDI, RBP, RSP = range(8)
NAMES = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp"] + ["r%d" % i for i in range(8, 16)]


class Bad(Exception):
    pass


class Machine:
    """one path of straight-line code with forward branches"""
    def __init__(self, regs=None):
        self.r = {i: ("v", "in." + NAMES[i], 64) for i in range(16)}
        self.r.update(regs or {})
        self.x = {i: ("v", "in.xmm%d" % i, 64) for i in range(16)}
        self.xh = {}
        self.flags = None
        self.mem = {}
        self.undef = {}
        self.wlog = []
        self.rlog = []
        self.conds = []
        self.calls = []
        self.done = None
        self.clobbered = set()

    def fork(self):
        m = Machine.__new__(Machine)
        m.r, m.x, m.xh, m.flags, m.mem = dict(self.r), dict(self.x), dict(self.xh), self.flags, dict(self.mem)
        m.undef = self.undef
        m.wlog, m.rlog, m.conds, m.calls = list(self.wlog), list(self.rlog), list(self.conds), list(self.calls)
        m.done = self.done
        m.clobbered = set(self.clobbered)
        return m

    # ---- memory
    def addr(self, op):
        _, base, index, scale, off = op
        if isinstance(off, tuple):
            off = fromterm(off)
        t = ("+", self.r[base], off)
        if index not in (-1, 0xffffffff):
            t = ("+", t, ("*", self.r[index], scale))
        return self.key(t)

    def key(self, t):
        d = lindict(t, 64)
        off = d.pop((), 0)
        if off >> 63:
            off -= 1 << 64
        return tuple(sorted(d.items(), key=repr)), off

    def read(self, key, n):
        b, o = key
        bs = []
        for i in range(n):
            v = self.mem.get((b, o + i))
            if v is None:
                nm = self.undef.get((b, o + i))
                v = nm if nm is not None else (0, ("v", "m[%s%+d]" % (basename(b), o + i), 8))
            bs.append(v)
        self.rlog.append((b, o, n))
        i0, b0 = bs[0]
        if i0 == 0 and all(x == b0 and i == j for j, (i, x) in enumerate(bs)):
            return ("zx", 8 * n, b0)
        return ("cat", tuple(bs))

    def write(self, key, n, t):
        b, o = key
        for i in range(n):
            self.mem[(b, o + i)] = (i, t)
        self.wlog.append((b, o, n))

    def preset(self, key, n, t):
        """initial memory contents"""
        b, o = key
        self.undef = dict(self.undef)
        for i in range(n):
            self.undef[(b, o + i)] = (i, t)

    # ---- operands
    def get(self, op, n=None):
        k = op[0]
        if k == "reg":
            if op[3]:
                raise Bad("upper byte register")
            s = op[2]
            if n is not None and s != n:
                raise Bad("register of %d bytes where %d are operated on" % (s, n))
            t = self.r[op[1]]
            return t if s == 8 else ("zx", 8 * s, t)
        if k == "imm":
            if op[1] not in (-1, M64, 0xffffffff):
                return ("+", ("v", "L%s" % lname(op[1]), 64), imm(op[2]))
            return imm(op[2])
        if k == "mem":
            return self.read(self.addr(op), n)
        if k == "xmm":
            return self.x[op[1]]
        raise Bad("operand %s" % (op,))

    def put(self, op, n, t):
        if op[0] == "reg":
            s = op[2]
            if s != n:
                raise Bad("register of %d bytes where %d are written" % (s, n))
            self.setreg(op[1], n, t)
        elif op[0] == "mem":
            self.write(self.addr(op), n, t)
        else:
            raise Bad("destination %s" % (op,))

    def setreg(self, r, n, t):
        self.clobbered.add(r)
        if n == 8:
            self.r[r] = t
        elif n == 4:
            self.r[r] = ("zx", 32, t)
        else:
            self.r[r] = ("ins", 8 * n, self.r[r], t)

    def cond(self, cc):
        f = self.flags
        if f is None:
            raise Bad("condition %s read before any comparison" % cc)
        if f[0] == "ucomi":
            op = CC.get(cc, cc)
            if op not in FCC:
                raise Bad("condition %s after a floating comparison" % cc)
            _, w, d, s = f
            return mkfset(w, canon(d, 8 * w), canon(s, 8 * w), FCC[op])
        if cc not in CC:
            raise Bad("condition %s" % cc)
        if f[0] == "cmp":
            return rel(CC[cc], f[1], f[2], f[3])
        if f[0] == "test":
            c = CC[cc]
            if c in ("eq", "ne"):
                return rel(c, f[1], f[2], 0)
            if c in ("slt", "sge", "sle", "sgt"):
                return rel(c, f[1], f[2], 0)
            raise Bad("condition %s after test" % cc)
        raise Bad("condition %s after %s" % (cc, f[0]))

    # ---- instructions
    def step(self, mn, ops):
        n2 = len(ops)
        # moves
        if mn == "movq" and any(o[0] == "xmm" for o in ops):
            s, d = ops
            v = self.x[s[1]] if s[0] == "xmm" else self.get(s, 8)
            if d[0] == "xmm":
                self.x[d[1]] = v
            else:
                self.put(d, 8, v)
            return
        if mn == "movd":
            s, d = ops
            if s[0] == "xmm" and d[0] == "reg":
                self.put(d, d[2], self.x[s[1]])
            elif d[0] == "xmm" and s[0] == "reg":
                self.x[d[1]] = self.get(s)
            elif d[0] == "xmm":
                self.x[d[1]] = self.get(s, 4)
            else:
                self.put(d, 4, self.x[s[1]])
            return
        if mn in ("movss", "movsd"):
            w = 4 if mn == "movss" else 8
            s, d = ops
            if s[0] == "mem" and d[0] == "xmm":
                self.x[d[1]] = self.get(s, w)
            elif s[0] == "xmm" and d[0] == "mem":
                self.put(d, w, self.x[s[1]])
            elif s[0] == d[0] == "xmm":
                self.x[d[1]] = self.x[s[1]] if w == 8 else ("ins", 32, self.x[d[1]], self.x[s[1]])
            else:
                raise Bad("%s operands" % mn)
            return
        if mn in ("mov", "movb", "movw", "movl", "movq", "movabsq"):
            w = 8 if mn == "movabsq" else SZ[mn[3]]
            s, d = ops
            v = self.get(s, w)
            if mn == "movq" and s[0] == "imm":
                # the address of a label fits (small code model)
                v = ("sx", 32, v) if not isinstance(v, int) and s[1] in (-1, M64, 0xffffffff) else v
            self.put(d, w, v)
            return
        if mn[:4] in ("movz", "movs") and len(mn) == 6 and mn[4] in SZ and mn[5] in SZ:
            a, b = SZ[mn[4]], SZ[mn[5]]
            s, d = ops
            v = self.get(s, a)
            self.put(d, b, ("zx" if mn[3] == "z" else "sx", 8 * a, v))
            return
        if mn in ("lea", "leal", "leaq"):
            s, d = ops
            _, base, index, scale, off = s
            t = ("+", self.r[base], fromterm(off) if isinstance(off, tuple) else off)
            self.put(d, 4 if mn == "leal" else 8, t)
            return
        base = mn[:-1]
        sz = SZ.get(mn[-1]) if mn else None
        if base in ("add", "sub", "and", "or", "xor", "imul") and sz and n2 == 2:
            s, d = ops
            a, b = self.get(d, sz), self.get(s, sz)
            if s[0] == "imm" and sz == 8 and isinstance(b, int) and not -(1 << 31) <= sgn(b) < 1 << 31:
                raise Bad("%s immediate %d does not fit 32 bits" % (mn, b))
            if base == "xor" and s == d:
                v = 0
            else:
                v = {"add": lambda: ("+", a, b), "sub": lambda: sub(a, b), "and": lambda: ("&", a, b), "or": lambda: ("|", a, b),
                     "xor": lambda: ("^", a, b), "imul": lambda: ("*", a, b)}[base]()
            self.put(d, sz, v)
            self.flags = ("cmp", 8 * sz, a, b) if base == "sub" else ("test", 8 * sz, v) if base in ("and", "or", "xor") else ("?",)
            return
        if base in ("neg", "not", "inc", "dec") and sz and n2 == 1:
            a = self.get(ops[0], sz)
            v = {"neg": ("*", a, -1), "not": ("+", ("*", a, -1), -1), "inc": ("+", a, 1), "dec": ("+", a, -1)}[base]
            self.put(ops[0], sz, v)
            self.flags = ("?",)
            return
        if base in ("sal", "shl", "shr", "sar") and sz:
            if n2 == 1:
                c, d = 1, ops[0]
            else:
                d = ops[1]
                s = ops[0]
                if s[0] == "imm":
                    c = imm(s[2])
                else:
                    if s[:2] != ("reg", RCX) or s[2] != 1:
                        raise Bad("shift count not in %cl")
                    c = self.r[RCX]
            k = "shl" if base in ("sal", "shl") else base
            a = self.get(d, sz)
            if sz < 4:
                raise Bad("shift of %d bytes" % sz)
            self.put(d, sz, (k, 8 * sz, a, c))
            self.flags = ("?",)
            return
        if base == "cmp" and sz:
            s, d = ops
            self.flags = ("cmp", 8 * sz, self.get(d, sz), self.get(s, sz))
            return
        if base == "test" and sz:
            s, d = ops
            a, b = self.get(s, sz), self.get(d, sz)
            self.flags = ("test", 8 * sz, a if a == b else ("&", a, b))
            return
        if mn == "btcq":
            s, d = ops
            self.put(d, 8, ("^", self.get(d, 8), 1 << (imm(s[2]) & 63)))
            self.flags = ("?",)
            return
        if mn[:3] == "set":
            self.put(ops[0], 1, self.cond(mn[3:]))
            return
        if mn in ("cltd", "cdq"):
            self.r[RDX] = ("zx", 32, ("sar", 32, ("zx", 32, self.r[RAX]), 31))
            self.signext = 32
            self.clobbered.add(RDX)
            return
        if mn in ("cqto", "cqo"):
            self.r[RDX] = ("sar", 64, self.r[RAX], 63)
            self.clobbered.add(RDX)
            return
        if base in ("div", "idiv") and sz in (4, 8) and n2 == 1:
            w = 8 * sz
            d = self.get(ops[0], sz)
            a, hi = self.r[RAX], canon(self.r[RDX], w)
            if base == "div":
                if hi != 0:
                    raise Bad("unsigned division with %edx not zero")
                q, m = ("udiv", w, a, d), ("umod", w, a, d)
            else:
                if hi != canon(("sar", w, a, w - 1), w):
                    raise Bad("signed division with %edx not the sign of %eax")
                q, m = ("sdiv", w, a, d), ("smod", w, a, d)
            if ops[0][0] == "reg" and ops[0][1] in (RAX, RDX):
                raise Bad("divisor in %s" % NAMES[ops[0][1]])
            self.setreg(RAX, sz, q)
            self.setreg(RDX, sz, m)
            self.flags = ("?",)
            return
        # floating
        if mn[:-2] in ("add", "sub", "mul", "div") and mn[-2:] in ("ss", "sd"):
            w = 4 if mn[-1] == "s" else 8
            s, d = ops
            b = self.x[s[1]] if s[0] == "xmm" else self.get(s, w)
            v = ("f" + {"add": "+", "sub": "-", "mul": "*", "div": "/"}[mn[:-2]], w, self.x[d[1]], b)
            self.x[d[1]] = v if w == 8 else ("ins", 32, self.x[d[1]], v)
            return
        if mn in ("ucomiss", "ucomisd", "comiss", "comisd"):
            w = 4 if mn[-1] == "s" else 8
            s, d = ops
            b = self.x[s[1]] if s[0] == "xmm" else self.get(s, w)
            self.flags = ("ucomi", w, self.x[d[1]], b)
            return
        if mn in ("cvtss2sd", "cvtsd2ss"):
            s, d = ops
            a, b = (4, 8) if mn == "cvtss2sd" else (8, 4)
            v = ("cvt", ("ff", b, a), self.x[s[1]] if s[0] == "xmm" else self.get(s, a))
            self.x[d[1]] = v if b == 8 else ("ins", 32, self.x[d[1]], v)
            return
        if mn[:7] in ("cvtsi2s",):
            s, d = ops
            t = mn[7]
            b = 4 if t == "s" else 8
            a = SZ[mn[8]] if len(mn) > 8 else (s[2] if s[0] == "reg" else 4)
            v = ("cvt", ("sf", b, a), self.get(s, a))
            self.x[d[1]] = v if b == 8 else ("ins", 32, self.x[d[1]], v)
            return
        if mn in ("cvttss2si", "cvttsd2si"):
            s, d = ops
            a = 4 if mn[4:6] == "ss" else 8
            self.put(d, d[2], ("cvt", ("fs", d[2], a), self.x[s[1]] if s[0] == "xmm" else self.get(s, a)))
            return
        # stack / control
        if mn in ("push", "pushq"):
            v = self.get(ops[0], 8)
            self.r[RSP] = ("+", self.r[RSP], -8)
            self.write(self.key(self.r[RSP]), 8, v)
            return
        if mn in ("pop", "popq"):
            v = self.read(self.key(self.r[RSP]), 8)
            self.r[RSP] = ("+", self.r[RSP], 8)
            self.put(ops[0], 8, v)
            return
        if mn == "leave":
            self.r[RSP] = self.r[RBP]
            self.step("popq", [("reg", RBP, 8, 0)])
            return
        if mn in ("ret", "retq"):
            self.done = "ret"
            return
        if mn == "ud2":
            self.done = "trap"
            return
        if mn in ("call", "callq"):
            o = ops[0]
            tgt = self.r[o[1]] if o[0] == "star" else o
            self.calls.append((tgt, self.fork()))
            for r in (RAX, RCX, RDX, RSI, RDI, 8, 9, 10, 11):
                self.r[r] = ("v", "ret%d.%s" % (len(self.calls), NAMES[r]), 64)
            for i in range(16):
                self.x[i] = ("v", "ret%d.xmm%d" % (len(self.calls), i), 64)
            self.flags = None
            return
        raise Bad("instruction %s not modelled" % mn)


def sgn(v):
    return v - (1 << 64) if v >> 63 else v


def imm(v):
    if isinstance(v, tuple):
        return fromterm(v)
    return v & M64


def fromterm(v):
    """analyser term -> machine term"""
    if isinstance(v, int):
        return v & M64
    if v[0] == "b" and v[1] in ("+", "*"):
        return (v[1], fromterm(v[2]), fromterm(v[3]))
    if v[0] == "b" and v[1] == "-":
        return sub(fromterm(v[2]), fromterm(v[3]))
    if v[0] == "u" and v[1] == "-":
        return ("*", fromterm(v[2]), -1)
    if v[0] in ("sc", "cast") and v[0] == "sc":
        return fromterm(v[2])
    if v[0] == "cast" and isinstance(v[1], int):
        return ("sx" if v[2] else "zx", v[1], fromterm(v[3]))
    return ("v", "t:" + repr(v), 64)


def lname(v):
    return repr(v)


def basename(b):
    return "+".join("%s%s" % ("" if c == 1 else "%d*" % c, "*".join(str(x[1]) if isinstance(x, tuple) and len(x) > 1 else str(x) for x in m)) for m, c in b)


def execute(events, m, labels=True, limit=400):
    """run asm/label events; returns finished machines (forward and backward branches are followed, each label at most twice)"""
    code = [e for e in events if e.k in ("asm", "label")]
    at = {}
    for i, e in enumerate(code):
        if e.k == "label":
            at.setdefault(e.args[-1], i)
    work, out, steps = [(m, 0)], [], 0
    while work:
        m, i = work.pop()
        while i < len(code) and not m.done:
            steps += 1
            if steps > 20000:
                raise AnalysisError("emitted code does not end")
            e = code[i]
            i += 1
            if e.k == "label":
                continue
            try:
                if e.name == "jmp":
                    t = e.args[0]
                    if t[0] != "abs" or t[1] not in at:
                        m.done = ("jmp", t)
                        break
                    i = at[t[1]]
                    continue
                if e.name[0] == "j":
                    c = canon(m.cond(e.name[1:]), 64)
                    t = e.args[0]
                    if t[0] != "abs":
                        raise Bad("jump operand")
                    known = None
                    if isinstance(c, int):
                        known = bool(c)
                    for x, tv in m.conds:
                        if x == c:
                            known = tv
                    if known is not False:
                        m2 = m.fork() if known is None else m
                        m2.conds.append((c, True))
                        if t[1] not in at:
                            m2.done = ("jmp", t)
                            out.append(m2)
                            if known:
                                m = None
                                break
                        elif known:
                            i = at[t[1]]
                            continue
                        else:
                            work.append((m2, at[t[1]]))
                    m.conds.append((c, False))
                    continue
                m.step(e.name, list(e.args))
            except Bad as x:
                m.done = ("bad", "%s: %s" % (e.loc, x))
                break
        if m is not None:
            out.append(m)
    return out
