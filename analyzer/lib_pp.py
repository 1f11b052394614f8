"""The preprocessor evaluated on token streams: directives, conditional groups and macro expansion with the file system and the
tokenizer replaced by token lists, so that every rule speaks about token sequences and not about spelling of the source."""
import os, re
from absint import show, Ev, St
from front import AnalysisError, locs
from lib import *
from lib_tok import init_globals

PUNCT = {"(": "T_LPAR", ")": "T_RPAR", "[": "T_LBRACK", "]": "T_RBRACK", "{": "T_LBRACE", "}": "T_RBRACE", ";": "T_SEMI_COLON",
         ",": "T_COMMA", ":": "T_COLON", "*": "T_STAR", "=": "T_A", "...": "T_ELLIPSIS", ".": "T_DOT", "?": "T_QUEST",
         "~": "T_BNOT", "!": "T_NOT", "+": "T_ADD", "-": "T_SUB", "/": "T_DIV", "%": "T_MOD", "&": "T_AMP", "|": "T_BOR",
         "^": "T_XOR", "<": "T_L", ">": "T_G", "<<": "T_LSHIFT", ">>": "T_RSHIFT", "<=": "T_LEQ", ">=": "T_GEQ", "==": "T_EQ",
         "!=": "T_NEQ", "&&": "T_AND", "||": "T_OR", "++": "T_INC", "--": "T_DEC", "->": "T_ARROW", "+=": "T_ADDA",
         "-=": "T_SUBA", "*=": "T_MULA", "/=": "T_DIVA", "%=": "T_MODA", "<<=": "T_LSHIFTA", ">>=": "T_RSHIFTA",
         "&=": "T_BANDA", "|=": "T_BORA", "^=": "T_XORA", "#": "PP_HASH", "##": "PP_HHASH"}
_RE = re.compile(r'(?P<ws>[ \t]+)|(?P<nl>\n)|(?P<id>[A-Za-z_]\w*)|(?P<num>\.?[0-9](?:[eEpP][+-]|[\w.])*)|'
                 r'(?P<str>(?:u8|[uUL])?"(?:\\.|[^"\\\n])*")|(?P<chr>[uUL]?\'(?:\\.|[^\'\\\n])*\')|'
                 r'(?P<p>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||##|[-+*/%&|^]=|[][(){};,:*=.?~!+\-/%&|^<>#])')


def pplex(s):
    """reference tokenization (translation phase 3) of plain text -> list of dicts"""
    out, i, line, ws, fl, hdr, dirv = [], 0, 1, 1, 1, False, False
    while i < len(s):
        if hdr and s[i] in "<" and not fl:
            j = s.index(">", i) + 1
            out.append(dict(k="PP_HEADER_NAME_H", s=s[i:j], ws=ws, fl=fl, line=line))
            i, ws, fl, hdr = j, 0, 0, False
            continue
        m = _RE.match(s, i)
        if not m:
            raise AnalysisError("pplex: %r" % s[i:i + 10])
        k, t = m.lastgroup, m.group()
        i = m.end()
        if k == "ws":
            ws = 1
            continue
        if k == "nl":
            ws = fl = 1
            line += 1
            hdr = dirv = False
            continue
        # u8"..." and friends lex as identifiers first with this expression order: glue them
        if k == "id" and t in ("u8", "u", "U", "L") and i < len(s) and s[i] in "\"'":
            m2 = _RE.match(s, i)
            t += m2.group()
            k = m2.lastgroup
            i = m2.end()
        kind = {"id": "T_IDENT", "num": "T_NUM", "str": "T_STRING", "chr": "T_CHARACTER_CONSTANT"}.get(k) or PUNCT[t]
        if kind == "PP_HASH" and fl:
            kind, dirv = "PP_DIRECTIVE", True
        elif dirv and kind == "T_IDENT":
            hdr, dirv = t == "include", False
        if kind == "T_STRING" and hdr:
            pass
        out.append(dict(k=kind, s=t, ws=ws, fl=fl, line=line))
        ws = fl = 0
    for a, b in zip(out, out[1:] + [dict(ws=ws, fl=1)]):
        a["wsa"], a["fla"] = b["ws"], b["fl"]
    return out


def union_mirror(P, files):
    """members of the integer unions declared in FILES, for reading one member after another was written"""
    from absint import inttype
    m = {}
    for k, (tag, fields) in P.records.items():
        if tag == "union" and k.startswith("@") and any(k.startswith("@" + os.path.normpath(f)) for f in files):
            if fields and all(inttype(t) for _, t, _ in fields):
                m.update({n: inttype(t) for n, t, _ in fields})
    return m


class PP:
    TUS = ["src/preprocessor/directives.c", "src/preprocessor/macro_expander.c", "src/preprocessor/string_set.c",
           "src/preprocessor/token_list.c"]

    def __init__(self, ctx, files=None, extra=None, tus=(), hash_zero=False):
        self.ctx, self.P = ctx, ctx.P
        self.files = dict(files or {})
        self.extra = extra or {}
        self.tus = self.TUS + list(tus)
        self.hz = hash_zero
        self.builtin = "f.c"

    # ---------------------------------------------------------------- values
    def chars(self, I, st, p, n=None):
        """the characters a char pointer designates (N of them, or up to NUL)"""
        if p == 0:
            return ""
        if isinstance(p, tuple) and p[0] == "str":
            s = p[1]
            return s[:n] if n is not None else s.split("\0")[0]
        if isinstance(p, tuple) and p[0] == "addr":
            l, r, k = p[1], "", 0
            while n is None or k < n:
                c = I.rd(st, ("i", l[1], l[2] + k) if l[0] == "i" else ("i", l, k))
                if isinstance(c, tuple) and c[0] == "str" and k == 0:
                    return c[1][:n]
                if not isinstance(c, int):
                    raise AnalysisError("character %s" % show(c))
                if n is None and c & 255 == 0:
                    break
                r += chr(c & 255)
                k += 1
            return r
        raise AnalysisError("string %s" % show(p))

    def sv(self, I, st, v):
        if isinstance(v, tuple) and v[0] == "struct":
            d = dict(v[2])
            n = d.get("len", 0)
            return "" if n == 0 else self.chars(I, st, d.get("str", 0), n)
        if isinstance(v, tuple) and v[0] == "upd":
            raise AnalysisError("string view %s" % show(v))
        if isinstance(v, tuple):
            n = I.project(v, ("f", v, "len"))
            return self.chars(I, st, I.project(v, ("f", v, "str")), n)
        if v == 0:
            return ""
        raise AnalysisError("string view %s" % show(v))

    @staticmethod
    def mksv(s):
        return ("struct", "string_view", (("len", len(s)), ("str", ("str", s))))

    def token(self, d, path="f.c"):
        return ("struct", "token", (("type", self.P.enum(d["k"])), ("str", self.mksv(d["s"])),
                ("first_of_line", d.get("fl", 0)), ("first_of_line_after", d.get("fla", 0)), ("whitespace", d.get("ws", 0)),
                ("whitespace_after", d.get("wsa", 0)),
                ("pos", ("struct", "position", (("path", ("str", path)), ("line", d.get("line", 1)), ("column", 1)))),
                ("hs", ("struct", "string_set", (("size", 0), ("cap", 0), ("strings", 0))))))

    # ---------------------------------------------------------------- models
    def new(self, st):
        k = st.mem.get(("g", "#heaps"), 0) + 1
        st.mem[("g", "#heaps")] = k
        return ("g", "#heap%d" % k)

    def put_list(self, st, toks, path):
        b = self.new(st)
        for i, t in enumerate(toks):
            st.mem[("i", b, i)] = self.token(t, path)
        return ("struct", "token_list", (("size", len(toks)), ("cap", len(toks)), ("list", ("addr", ("i", b, 0)))))

    def models(self):
        P = self.P
        ch, sv, mk = self.chars, self.sv, self.mksv
        z = lambda v: (lambda I, st, a, n, f: [(st, v)])

        def m_malloc(I, st, a, n, f):
            return [(st, ("addr", ("i", self.new(st), 0)))]

        def m_realloc(I, st, a, n, f):
            return [(st, a[0])] if a[0] != 0 else m_malloc(I, st, a, n, f)

        def m_copy(I, st, a, n, f):
            d, s = I.deref(st, a[0]), I.deref(st, a[1])
            size = a[2]
            if s[0] == "strloc":
                for k in range(size if isinstance(size, int) else len(s[1])):
                    I.write(st, ("i", d[1], d[2] + k), ord(s[1][k]) if k < len(s[1]) else 0)
                return [(st, a[0])]
            if s[0] != "i":
                I.write(st, d, I.rd(st, s))
                return [(st, a[0])]
            keys = sorted({k[2] for k in self.children(st, s[1])})
            if keys:
                vals = [(k, I.rd(st, ("i", s[1], k))) for k in keys if k >= s[2]]
                esz = self.cell(st, s[1], keys[0])
                lim = size if esz == 1 and isinstance(size, int) else None
                for k, v in vals:
                    if lim is None or k - s[2] < lim:
                        I.write(st, ("i", d[1], d[2] + k - s[2]), v)
            return [(st, a[0])]

        def m_cmp(I, st, a, n, f):
            x, y = (sv(I, st, v) if isinstance(v, tuple) and v[0] not in ("str", "addr") else ch(I, st, v) for v in a)
            return [(st, int(x == y))]

        def m_strcmp(I, st, a, n, f):
            x, y = ch(I, st, a[0]), ch(I, st, a[1])
            return [(st, (x > y) - (x < y))]

        def m_memcmp(I, st, a, n, f):
            x, y = ch(I, st, a[0], a[2]), ch(I, st, a[1], a[2])
            return [(st, (x > y) - (x < y))]

        def m_from(I, st, a, n, f):
            return [(st, mk(ch(I, st, a[0])))]

        def m_to(I, st, a, n, f):
            s = sv(I, st, a[0])
            return [(st, ("str", s) if s else 0)]

        def m_tail(I, st, a, n, f):
            l = I.deref(st, a[0])
            s = sv(I, st, I.rd(st, l))
            if not isinstance(a[1], int):
                raise AnalysisError("sv_tail by %s" % show(a[1]))
            I.write(st, l, mk(s[a[1]:]))
            return [(st, 0)]

        def m_printf(I, st, a, n, f):
            fmt, out, k, i = ch(I, st, a[0]), "", 1, 0
            while i < len(fmt):
                m = re.match(r'%(\.\*)?[0-9.]*[lz]*([sdufcx%])', fmt[i:])
                if not m:
                    out += fmt[i]
                    i += 1
                    continue
                i += m.end()
                if m.group(2) == "%":
                    out += "%"
                    continue
                if m.group(1):
                    k += 1
                v = a[k]
                k += 1
                if m.group(2) == "s":
                    out += ch(I, st, v) if v != 0 else "(null)"
                elif isinstance(v, int):
                    out += chr(v & 255) if m.group(2) == "c" else str(v)
                else:
                    raise AnalysisError("printf of %s at %s" % (show(v), locs(n)))
            return [(st, ("str", out))]

        def m_strlen(I, st, a, n, f):
            return [(st, len(ch(I, st, a[0])))]

        def m_dup(I, st, a, n, f):
            return [(st, ("str", ch(I, st, a[0])) if a[0] != 0 else 0)]

        def m_hash(I, st, a, n, f):
            if self.hz:
                return [(st, 5)]
            h = 5381
            for c in sv(I, st, a[0]):
                h = (h * 33 + ord(c)) & 0xffffffff
            return [(st, h)]

        def m_open(I, st, a, n, f):
            p = ch(I, st, a[1])
            st.ev = (st.ev, Ev("open", p, (a[2], ch(I, st, a[0])), locs(n), f.name if f else "?"))
            if p not in self.files or p in st.mem.get(("g", "#disabled"), ()):
                return [(st, ("struct", "input", (("path", 0), ("contents", 0))))]
            return [(st, ("struct", "input", (("path", ("str", p)), ("contents", ("str", "\1" + p)))))]

        def m_disable(I, st, a, n, f):
            p = ch(I, st, a[0])
            st.mem[("g", "#disabled")] = st.mem.get(("g", "#disabled"), ()) + (p,)
            return [(st, 0)]

        def m_tokenize(I, st, a, n, f):
            s, path = ch(I, st, a[0]), ch(I, st, a[1])
            if s.startswith("\1"):
                s = self.files[s[1:]]
            return [(st, self.put_list(st, pplex(s) if isinstance(s, str) else s, path))]

        def m_memmove(I, st, a, n, f):
            d, s = I.deref(st, a[0]), I.deref(st, a[1])
            if d[0] != "i" or s[0] != "i":
                return None
            keys = sorted({k[2] for k in self.children(st, s[1]) if k[2] >= s[2]})
            vals = [(k, I.rd(st, ("i", s[1], k))) for k in keys]
            for k, v in vals:
                I.write(st, ("i", d[1], d[2] + k - s[2]), v)
            return [(st, a[0])]

        def m_atoi(I, st, a, n, f):
            m = re.match(r"\s*[-+]?\d+", ch(I, st, a[0]))
            return [(st, int(m.group()) if m else 0)]

        m = {"cc_malloc": m_malloc, "malloc": m_malloc, "calloc": m_malloc, "cc_realloc": m_realloc, "memcpy": m_copy,
             "memmove": m_memmove, "sv_cmp": m_cmp, "sv_string_cmp": m_cmp, "strcmp": m_strcmp, "memcmp": m_memcmp,
             "strlen": m_strlen, "sv_from_str": m_from, "sv_to_str": m_to, "sv_tail": m_tail, "allocate_printf": m_printf,
             "strdup": m_dup, "sv_hash": m_hash, "input_open": m_open, "input_disable_path": m_disable,
             "tokenize_input": m_tokenize, "free": z(0), "dbg_token": z(("str", "?")), "dbg_token_type": z(("str", "?")),
             "atoi": m_atoi}
        m.update(self.extra)
        return m

    @staticmethod
    def children(st, base):
        return [k for k in list(st.mem) if k[0] == "i" and k[1] == base and isinstance(k[2], int)] + \
               [r for r in (PP.top(k, base) for k in list(st.mem) if k[0] in ("f", "i")) if r]

    @staticmethod
    def top(k, base):
        while k[0] in ("f", "i"):
            if k[0] == "i" and k[1] == base and isinstance(k[2], int):
                return k
            k = k[1]
        return None

    def cell(self, st, base, k):
        v = st.mem.get(("i", base, k))
        return 1 if isinstance(v, int) else 8

    def interp(self, more=()):
        names = [n for n, f in self.P.funcs.items() if f.file in self.tus]
        self.ctx.require(names, "preprocessor functions not found")
        I = self.ctx.interp(inline=names + ["char_to_int", "precedence_get", "character_to_escape_sequence", "is_signed"] + list(more) + TYPE_PREDS, models=self.models(),
                            load_hook=hooks(type_hook, self.zero, init_globals), globals_const=self.genv())
        I.mirror = union_mirror(self.P, self.tus)
        I.max_rec, I.max_depth, I.unroll = 60, 400, 3000
        I.max_steps = 4000000
        return I

    def genv(self):
        return {}

    def zero(self, I, st, loc):
        return None

    # ---------------------------------------------------------------- driving
    def start(self, I, define=(), push=("f.c",)):
        st = St()
        sts = [st]
        for k, v in define:
            sts = self.call(I, sts, "define_string", [("str", k), ("str", v)])
        for p in push:
            sts = self.call(I, sts, "directiver_push_input", [("str", p), 0])
        return sts

    def call(self, I, sts, fn, args):
        out = []
        for s in sts:
            for t, sig, rv in I.call_body(s, self.P.need(fn), args):
                if sig is None:
                    out.append(t)
        return out

    def drain(self, I, sts, entry="expander_next", limit=400):
        """call ENTRY until it returns the end token -> [(state, [(kind, spelling, token)])]"""
        eoi = self.P.enum("T_EOI")
        f = self.P.need(entry)
        done, cur = [], [(s, []) for s in sts]
        for _ in range(limit):
            nxt = []
            for s, toks in cur:
                for t, sig, rv in I.call_body(s, f, []):
                    if sig is not None:
                        continue
                    g = lambda m: I.project(rv, ("f", rv, m))
                    k = g("type")
                    if k == eoi:
                        done.append((t, toks))
                    elif len(toks) > limit - 2:
                        raise AnalysisError("token stream does not end")
                    else:
                        nxt.append((t, toks + [(k, self.sv(I, t, g("str")), rv)]))
            cur = nxt
            if not cur:
                break
        if cur:
            raise AnalysisError("token stream does not end")
        return done


def events(st):
    r, e = [], st.ev
    while e:
        e, x = e[0], e[1]
        r.append(x)
    return r[::-1]


class Src(PP):
    """the same with the real tokenizer: file contents are bytes, translation phases 1-7 (and 6: literals) are all evaluated"""
    TUS = PP.TUS + ["src/preprocessor/tokenizer.c", "src/preprocessor/string_concat.c", "src/utf8.c", "src/escape_sequence.c",
                    "src/character_types.c"]

    def models(self):
        m = PP.models(self)

        def m_open(I, st, a, n, f):
            p = self.chars(I, st, a[1])
            if p not in self.files:
                return [(st, ("struct", "input", (("path", 0), ("contents", 0))))]
            return [(st, ("struct", "input", (("path", ("str", p)), ("contents", self.buf(st, self.files[p])))))]

        def m_tail(I, st, a, n, f):
            l = I.deref(st, a[0])
            v = I.rd(st, l)
            k = a[1]
            ln, p = I.project(v, ("f", v, "len")), I.project(v, ("f", v, "str"))
            if not isinstance(k, int) or not isinstance(ln, int):
                raise AnalysisError("sv_tail by %s" % show(k))
            if isinstance(p, tuple) and p[0] == "addr" and p[1][0] == "i":
                q = ("addr", ("i", p[1][1], p[1][2] + k))
            elif isinstance(p, tuple) and p[0] == "str":
                q = ("str", p[1][k:])
            else:
                raise AnalysisError("sv_tail of %s" % show(p))
            I.write(st, l, ("struct", "string_view", (("len", ln - k), ("str", q))))
            return [(st, 0)]

        def m_from(I, st, a, n, f):
            s = self.chars(I, st, a[0])
            p = a[0] if isinstance(a[0], tuple) and a[0][0] == "addr" else ("str", s)
            return [(st, ("struct", "string_view", (("len", len(s)), ("str", p))))]

        m.update({"input_open": m_open, "sv_tail": m_tail, "sv_from_str": m_from})
        del m["tokenize_input"]
        m.update(self.extra)
        return m

    def buf(self, st, data):
        b = self.new(st)
        if isinstance(data, str):
            data = data.encode()
        for i, c in enumerate(data + b"\0\0\0\0"):
            st.mem[("i", b, i)] = c - 256 if c > 127 else c
        return ("addr", ("i", b, 0))

    def tokens(self, I, data):
        """tokenize_input(data) -> [(state, [dict])]"""
        st = St()
        p = self.buf(st, data)
        out = []
        for t, sig, rv in I.call_body(st, self.P.need("tokenize_input"), [p, ("str", "f.c")]):
            if sig is not None:
                continue
            n = I.project(rv, ("f", rv, "size"))
            l = I.project(rv, ("f", rv, "list"))
            toks = []
            for k in range(n):
                v = I.rd(t, ("i", l[1][1], l[1][2] + k))
                g = lambda m, v=v: I.project(v, ("f", v, m))
                pos = g("pos")
                toks.append(dict(k=g("type"), s=self.sv(I, t, g("str")), ws=g("whitespace"), fl=g("first_of_line"),
                                 wsa=g("whitespace_after"), fla=g("first_of_line_after"),
                                 line=I.project(pos, ("f", pos, "line")), col=I.project(pos, ("f", pos, "column"))))
            out.append((t, toks))
        return out
