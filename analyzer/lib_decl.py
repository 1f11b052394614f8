"""Declarations: the declaration parser evaluated on token streams, with opaque constant expressions and a symbol table model."""
from absint import show, Ev
from front import AnalysisError, locs
from lib import *
from lib_tok import *

DTOK = {"void": "T_KVOID", "char": "T_KCHAR", "int": "T_KINT", "float": "T_KFLOAT", "double": "T_KDOUBLE",
        "signed": "T_KSIGNED", "unsigned": "T_KUNSIGNED", "_Bool": "T_KBOOL", "short": "T_KSHORT", "long": "T_KLONG",
        "_Complex": "T_KCOMPLEX", "struct": "T_KSTRUCT", "union": "T_KUNION", "enum": "T_KENUM",
        "typedef": "T_KTYPEDEF", "extern": "T_KEXTERN", "static": "T_KSTATIC", "_Thread_local": "T_KTHREAD_LOCAL",
        "auto": "T_KAUTO", "register": "T_KREGISTER", "const": "T_KCONST", "restrict": "T_KRESTRICT",
        "volatile": "T_KVOLATILE", "inline": "T_KINLINE", "_Noreturn": "T_KNORETURN", "_Alignas": "T_KALIGNAS",
        "__attribute__": "T_KATTRIBUTE", "_Static_assert": "T_KSTATIC_ASSERT",
        "(": "T_LPAR", ")": "T_RPAR", "[": "T_LBRACK", "]": "T_RBRACK", "{": "T_LBRACE", "}": "T_RBRACE",
        ";": "T_SEMI_COLON", ",": "T_COMMA", ":": "T_COLON", "*": "T_STAR", "=": "T_A", "...": "T_ELLIPSIS",
        ".": "T_DOT"}


def lex(s):
    """text -> tokens; numbers (and ?names) are opaque expressions, "..." strings are string tokens"""
    r = []
    for w in s.split():
        if w in DTOK:
            r.append((DTOK[w], w))
        elif w[0].isdigit() or w[0] in "?-":
            r.append(("E", w))
        elif w[0] == '"':
            r.append(("T_STRING", w.strip('"')))
        else:
            r.append(("T_IDENT", w))
    return r


class Decl:
    SCOPES = ("g", "#scopes")

    def __init__(self, ctx, abi="sysv"):
        self.ctx, self.P, self.abi = ctx, ctx.P, abi
        self.genv = abi_genv(ctx, abi)
        self.tab = {}
        self.extra = {}
        self.etypes = {}           # type of an opaque expression, by its text (default int)

    # ---- the symbol table: a stack of frames {(kind,name): object}
    def frames(self, st):
        return st.mem.get(self.SCOPES, ((),))

    def add(self, st, kind, name, obj=None):
        fr = self.frames(st)
        k = st.mem.get(("g", "#syms"), 0) + 1
        st.mem[("g", "#syms")] = k
        o = obj or ("ob", "sym%s#%d:%s" % (kind[0], k, name))
        st.mem[self.SCOPES] = fr[:-1] + (fr[-1] + (((kind, name), o),),)
        return o

    def get(self, st, kind, name, cur=False):
        fr = self.frames(st)
        for f in (fr[-1:] if cur else reversed(fr)):
            for k, o in reversed(f):
                if k == (kind, name):
                    return o
        return 0

    def models(self, T):
        P = self.P

        def nm(v, n):
            s = text(v)
            if s is None and isinstance(v, tuple) and v[0] == "struct" and dict(v[2]).get("len") == 0:
                return ""
            if s is None and v == 0:
                return ""
            if s is None:
                raise AnalysisError("name %s at %s" % (show(v), locs(n)))
            return s

        def m_add(kind):
            def m(I, st, a, n, f):
                s = nm(a[0], n)
                if kind == "ident" and s == "":
                    k = st.mem.get(("g", "#syms"), 0) + 1
                    st.mem[("g", "#syms")] = k
                    return [(st, ("ob", "symi#%d:" % k))]
                if kind == "typedef":
                    o = self.get(st, kind, s, True)
                    if o:
                        return [(st, o)]
                o = self.add(st, kind, s)
                st.ev = (st.ev, Ev("symbol", kind, (s, o), locs(n), f.name if f else "?"))
                return [(st, o)]
            return m

        def m_get(kind, cur=False):
            def m(I, st, a, n, f):
                return [(st, self.get(st, kind, nm(a[0], n), cur))]
            return m

        def m_push(I, st, a, n, f):
            st.mem[self.SCOPES] = self.frames(st) + ((),)
            st.ev = (st.ev, Ev("scope", "push", (), locs(n), f.name if f else "?"))
            return [(st, 0)]

        def m_pop(I, st, a, n, f):
            fr = self.frames(st)
            st.mem[self.SCOPES] = fr[:-1]
            st.ev = (st.ev, Ev("scope", "pop", (), locs(n), f.name if f else "?"))
            return [(st, 0)]

        def m_regstruct(I, st, a, n, f):
            k = st.mem.get(("g", "#sds"), 0) + 1
            st.mem[("g", "#sds")] = k
            return [(st, ("ob", "sd:#%d" % k))]

        def m_type_create(I, st, a, n, f):
            pl = I.deref(st, a[0])
            g = lambda *fs: I.rd(st, self.loc(pl, *fs))
            k = g("type")
            c = 0
            try:
                c = g("is_const")
            except Exception:
                pass
            c = c if isinstance(c, int) else 0
            cnt = g("n")
            ch = []
            if cnt not in (0, None) and isinstance(cnt, int):
                for i in range(cnt):
                    ch.append(self.elem(I, st, a[1], i))
            ty = {v: kk for kk, v in ((x, P.enum(TYK[x])) for x in TYK)}.get(k)
            if ty == "simple":
                return [(st, ("ty", "simple", g("simple"), c))]
            if ty == "ptr":
                return [(st, ("ty", "ptr", ch[0], c))]
            if ty == "array":
                return [(st, ("ty", "array", ch[0], g("array", "length"), c))]
            if ty == "incarray":
                return [(st, ("ty", "incarray", ch[0], c))]
            if ty == "vla":
                return [(st, ("ty", "vla", ch[0], g("variable_length_array", "length_expr"), c))]
            if ty == "func":
                return [(st, ("ty", "func", ch[0], tuple(ch[1:]), g("function", "is_variadic"), c))]
            if ty == "struct":
                s = g("struct_data")
                return [(st, ("ty", "struct", s[1][3:] if isinstance(s, tuple) and s[0] == "ob" else show(s), c))]
            raise AnalysisError("type_create of kind %s at %s" % (show(k), locs(n)))

        def m_expr(I, st, a, n, f):
            k, s = T.cur(st)
            if k != "E":
                return [(st, 0)]
            T.m_next(I, st, (), n, f)
            o = ("ob", "ex:" + s)
            st.ev = (st.ev, Ev("expr", s, (), locs(n), f.name if f else "?"))
            return [(st, o)]

        def m_cast(I, st, a, n, f):
            e = a[0]
            if isinstance(e, tuple) and e[0] == "ob" and e[1].startswith("ex:"):
                return [(st, ("ob", "ex:" + e[1][3:].split("|")[0] + "|" + self.tyname(a[1])))]
            return [(st, ("fn", "expression_cast", tuple(a)))]

        def m_const(I, st, a, n, f):
            e = a[0]
            if isinstance(e, tuple) and e[0] == "ob" and e[1].startswith("ex:"):
                if e[1][3:].startswith("?"):
                    return [(st, 0)]
                return [(st, ("ob", "cn:" + e[1][3:]))]
            return None

        def m_malloc(I, st, a, n, f):
            k = st.mem.get(("g", "#reallocs"), 0) + 1
            st.mem[("g", "#reallocs")] = k
            return [(st, ("ob", "heap#%d" % k))]

        def m_memcpy(I, st, a, n, f):
            try:
                src = I.rd(st, I.deref(st, a[1]))
            except Exception:
                return None
            I.write(st, I.deref(st, a[0]), src)
            return [(st, a[0])]

        def m_alignof(I, st, a, n, f):
            al = self.align(a[0])
            return [(st, ("ob", "ex:%d|ST_ULONG" % al))]

        def m_printf(I, st, a, n, f):
            k = st.mem.get(("g", "#anon"), 0) + 1
            st.mem[("g", "#anon")] = k
            return [(st, ("str", "<%d>" % k))]

        def m_svstr(I, st, a, n, f):
            if isinstance(a[0], tuple) and a[0][0] == "str":
                return [(st, ("struct", "string_view", (("len", len(a[0][1])), ("str", a[0]))))]
            return None
        z = lambda v: (lambda I, st, a, n, f: [(st, v)])
        m = T.models()
        m.update(TYPE_MODELS)

        def m_realloc_arr(I, st, a, n, f):
            if a[0] == 0:
                k = st.mem.get(("g", "#reallocs"), 0) + 1
                st.mem[("g", "#reallocs")] = k
                return [(st, ("addr", ("i", ("g", "#heap%d" % k), 0)))]
            return [(st, a[0])]
        m["cc_realloc"] = m_realloc_arr
        m.update({"symbols_push_scope": m_push, "symbols_pop_scope": m_pop, "register_struct": m_regstruct,
                  "register_enum": m_regstruct, "type_create": m_type_create, "parse_expression": m_expr,
                  "parse_assignment_expression": m_expr, "expression_cast": m_cast, "expression_to_constant": m_const,
                  "cc_malloc": m_malloc, "memcpy": m_memcpy, "type_alignof": m_alignof, "type_evaluate_vla": z(0),
                  "allocate_printf": m_printf, "sv_from_str": m_svstr, "dbg_type": z(("str", "?")),
                  "get_current_packing": z(("p", "packing"))})
        for kind in ("ident", "struct", "typedef"):
            fn = {"ident": "identifier"}.get(kind, kind)
            m["symbols_add_" + fn] = m_add(kind)
            m["symbols_get_" + fn] = m_get(kind)
            m["symbols_get_%s_in_current_scope" % fn] = m_get(kind, True)
        m["symbols_get_identifier_global"] = m_get("ident")
        m["symbols_add_identifier_global"] = m_add("ident")
        m.update(self.extra)
        return m

    def tyname(self, t):
        return {self.P.enum(s): s for s in ST_ALL}.get(t[2]) if isty(t, "simple") else show(t)

    def align(self, t):
        P = self.P
        sz = {P.enum(k): v for k, v in sizes(self.abi).items()}
        if t[1] == "simple":
            return sz[t[2]]
        if t[1] == "ptr":
            return 8
        if t[1] in ("array", "incarray", "vla"):
            return self.align(t[2])
        return 1

    def loc(self, l, *f):
        for x in f:
            l = ("i", l, x) if isinstance(x, int) else ("f", l, x)
        return l

    def elem_loc(self, I, st, p, i):
        l = I.deref(st, p)
        return ("i", l[1], l[2] + i) if l[0] == "i" and isinstance(l[2], int) else ("i", l, i)

    def elem(self, I, st, p, i):
        """i-th element of the array P points to"""
        if isinstance(p, tuple) and p[0] == "arr":
            return dict(p[1])[i]
        l = I.deref(st, p)
        if l[0] == "i" and isinstance(l[2], int):
            return I.rd(st, ("i", l[1], l[2] + i))
        if i == 0:
            v = I.rd(st, l)
            if isty(v):
                return v
        return I.rd(st, ("i", l, i))

    def const_hook(self, I, st, loc):
        if loc[0] != "f":
            return None
        b = loc[1]
        if b[0] == "d" and isinstance(b[1], tuple) and b[1][0] == "ob":
            o = b[1][1]
            if o.startswith("cn:"):
                v, _, t = o[3:].partition("|")
                t = t or self.etypes.get(v, "ST_INT")
                if loc[2] == "type":
                    return I.P.enum("CONSTANT_TYPE")
                if loc[2] == "data_type":
                    return simple(I.P, t)
                if loc[2] in ("int_d", "uint_d"):
                    return int(v.rstrip("uUlL"), 0)
            if o.startswith("ex:"):
                v, _, t = o[3:].partition("|")
                t = t or self.etypes.get(v, "ST_INT")
                if loc[2] == "data_type":
                    return simple(I.P, t)
                if loc[2] == "type":
                    return I.P.enum("E_SYMBOL")
        return None

    def interp(self, T, inline=(), extra=None):
        m = self.models(T)
        m.update(extra or {})
        fs = [n for n, f in self.P.funcs.items() if f.file == "src/parser/declaration.c"]
        I = self.ctx.interp(inline=fs + list(inline) + TYPE_PREDS + ["type_adjust_parameter", "type_remove_unnamed"] +
                            abi_inline(self.ctx, self.abi), models=m, globals_const=self.genv,
                            load_hook=hooks(type_hook, self.const_hook, obj_hook(self.tab), obj_hook(T.tab), self.zero_hook, init_globals))
        I.max_rec, I.max_depth, I.unroll = 40, 300, 64
        return I

    def zero_hook(self, I, st, loc):
        """objects made by the symbol-table/registration models start zeroed"""
        r = loc
        while r[0] in ("f", "i"):
            r = r[1]
        if r[0] == "d" and isinstance(r[1], tuple) and r[1][0] == "ob" and \
                (r[1][1].startswith(("syms#", "symi#", "symt#", "sd:#"))) and loc[0] == "f":
            d = I.P
            return 0
        return None

    def run(self, src, entry, args=None, typedefs=None, mem=None, inline=(), extra=None, structs=None):
        T = Tokens(self.P, lex(src) if isinstance(src, str) else src)
        self.T = T
        I = self.interp(T, inline, extra)
        m = dict(mem or {})
        fr = ()
        for k, t in (typedefs or {}).items():
            o = ("ob", "td:" + k)
            self.tab[("td:" + k, "data_type")] = t
            fr += ((("typedef", k), o),)
        m[self.SCOPES] = (fr,)
        ps = self.ctx.run(I, entry, args=args or {}, mem=m)
        bad = I.take_dead()
        self.I = I
        return ps, bad
