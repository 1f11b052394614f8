"""Concrete token streams for the parser: t_peek/t_next over abstract token objects."""
from absint import show, Ev
from front import AnalysisError, locs
from lib import *

PSEUDO = {"E": 240, "D": 241}          # an opaque expression / an opaque declaration


class Tokens:
    """TOKS: list of (T_xxx or pseudo kind, text)"""
    def __init__(self, P, toks):
        self.P, self.toks = P, list(toks)
        self.tab = {}
        toks = self.toks + [("T_EOI", "")] * 4
        for i, (k, s) in enumerate(toks):
            o = "tk#%d" % i
            self.tab[(o, "type")] = PSEUDO[k] if k in PSEUDO else P.enum(k)
            self.tab[(o, "str")] = ("struct", "string_view", (("len", len(s)), ("str", ("str", s))))
            self.tab[(o, "pos")] = ("struct", "position", (("path", ("str", "f.c")), ("line", i), ("column", 0)))
            self.tab[(o, "first_of_line")] = 0
            self.tab[(o, "whitespace")] = 1
        self.n = len(toks)

    POS = ("g", "#pos")

    def pos(self, st):
        return st.mem.get(self.POS, 0)

    def cur(self, st):
        p = min(self.pos(st), self.n - 1)
        return (self.toks + [("T_EOI", "")] * 4)[p]

    def m_peek(self, I, st, a, n, f):
        if not isinstance(a[0], int):
            raise AnalysisError("t_peek with a non-constant argument at %s" % locs(n))
        return [(st, ("ob", "tk#%d" % min(self.pos(st) + a[0], self.n - 1)))]

    def m_next(self, I, st, a, n, f):
        st.mem[self.POS] = self.pos(st) + 1
        return [(st, 0)]

    def models(self):
        return {"t_peek": self.m_peek, "t_next": self.m_next, "sv_cmp": m_sv_cmp, "sv_string_cmp": m_sv_cmp,
                "cc_realloc": m_realloc, "dbg_token": lambda I, st, a, n, f: [(st, ("str", "?"))],
                "dbg_token_type": lambda I, st, a, n, f: [(st, ("str", "?"))],
                "strdup": lambda I, st, a, n, f: [(st, a[0])]}


def text(v):
    if isinstance(v, tuple) and v[0] == "str":
        return v[1]
    if isinstance(v, tuple) and v[0] == "struct":
        d = dict(v[2])
        s = d.get("str")
        if d.get("len") == 0:
            return ""
        if isinstance(s, tuple) and s[0] == "str":
            return s[1][:d["len"]] if isinstance(d.get("len"), int) else s[1]
    return None


def m_sv_cmp(I, st, a, n, f):
    x, y = text(a[0]), text(a[1])
    if x is None or y is None:
        return None
    return [(st, int(x == y))]


def m_realloc(I, st, a, n, f):
    if a[0] == 0:
        k = st.mem.get(("g", "#reallocs"), 0) + 1
        st.mem[("g", "#reallocs")] = k
        return [(st, ("ob", "heap#%d" % k))]
    return [(st, a[0])]


def init_globals(I, st, loc):
    """file-scope objects start with their initialisers (zero when there is none)"""
    r = loc
    while r[0] in ("f", "i"):
        r = r[1]
    if r[0] != "g" or r[1].startswith("#") or r[1] in I.genv:
        return None
    d = I.global_decl(r)
    if d is None:
        return None
    if not d.ch:
        return 0
    c = I.P.__dict__.setdefault("_ginit0", {})
    k = (r[1], r[2] if len(r) > 2 else None)
    if k not in c:
        c[k] = I.const_init(d.ch[-1])
    if r is loc or r == loc:
        return c[k]
    if r not in st.mem and c[k] == 0:
        return 0
    if r not in st.mem and isinstance(c[k], tuple) and c[k][0] in ("struct", "arr") and not any(v != 0 for _, v in c[k][-1]):
        return 0
    return None
