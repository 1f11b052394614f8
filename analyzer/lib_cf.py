"""Control-flow graphs of function bodies: parse_function evaluated on statement skeletons, compared with C11 6.8."""
from absint import show, Ev
from front import AnalysisError, locs
from lib import *
from lib_ir import *
from lib_tok import *

# ------------------------------------------------------------------ skeletons -> tokens
KW = {"if": "T_KIF", "else": "T_KELSE", "while": "T_KWHILE", "do": "T_KDO", "for": "T_KFOR", "switch": "T_KSWITCH",
      "case": "T_KCASE", "default": "T_KDEFAULT", "break": "T_KBREAK", "continue": "T_KCONTINUE", "goto": "T_KGOTO",
      "return": "T_KRETURN", "(": "T_LPAR", ")": "T_RPAR", "{": "T_LBRACE", "}": "T_RBRACE", ";": "T_SEMI_COLON",
      ":": "T_COLON"}


def toks(s):
    k = s[0]
    T = lambda *x: [(KW[i], i) for i in x]
    E = lambda n: [("E", n)]
    if k == "expr":
        return E(s[1]) + T(";")
    if k == "empty":
        return T(";")
    if k == "decl":
        return [("D", s[1])]
    if k == "block":
        return T("{") + sum((toks(x) for x in s[1]), []) + T("}")
    if k == "if":
        r = T("if", "(") + E(s[1]) + T(")") + toks(s[2])
        return r + (T("else") + toks(s[3]) if s[3] is not None else [])
    if k == "while":
        return T("while", "(") + E(s[1]) + T(")") + toks(s[2])
    if k == "do":
        return T("do") + toks(s[1]) + T("while", "(") + E(s[2]) + T(")", ";")
    if k == "for":
        i = s[1]
        r = T("for", "(")
        r += T(";") if i is None else ([("D", i[1])] if i[0] == "decl" else E(i[1]) + T(";"))
        r += (E(s[2]) if s[2] else []) + T(";") + (E(s[3]) if s[3] else []) + T(")")
        return r + toks(s[4])
    if k == "switch":
        return T("switch", "(") + E(s[1]) + T(")") + toks(s[2])
    if k == "case":
        return T("case") + E(s[1]) + T(":") + toks(s[2])
    if k == "default":
        return T("default", ":") + toks(s[1])
    if k == "label":
        return [("T_IDENT", s[1])] + T(":") + toks(s[2])
    if k == "goto":
        return T("goto") + [("T_IDENT", s[1])] + T(";")
    if k in ("break", "continue"):
        return T(k, ";")
    if k == "return":
        return T("return") + (E(s[1]) if s[1] else []) + T(";")
    raise AssertionError(k)


def ctext(s):
    return " ".join(t[1] for t in toks(s))


# ------------------------------------------------------------------ specification: C11 6.8
class Spec:
    """CFG nodes: n -> ("mark",name,next) | ("cond",name,t,f) | ("sw",name,{const:n},default) | ("ret",name) | ("skip",next)"""
    def __init__(self, body, main=False):
        self.g = []
        self.labels = {}
        end = self.new(("ret", "#zero" if main else None))
        self.entry = self.stmt(body, end, None, None, None)

    def new(self, v=None):
        self.g.append(v)
        return len(self.g) - 1

    def label(self, l):
        if l not in self.labels:
            self.labels[l] = self.new(None)
        return self.labels[l]

    def mark(self, name, nxt):
        return self.new(("mark", name, nxt))

    def stmt(self, s, nxt, brk, cont, sw):
        k = s[0]
        if k in ("expr", "decl"):
            return self.mark(s[1], nxt)
        if k == "empty":
            return nxt
        if k == "block":
            for x in reversed(s[1]):
                nxt = self.stmt(x, nxt, brk, cont, sw)
            return nxt
        if k == "if":
            a = self.stmt(s[2], nxt, brk, cont, sw)
            b = self.stmt(s[3], nxt, brk, cont, sw) if s[3] is not None else nxt
            return self.mark(s[1], self.new(("cond", s[1], a, b)))
        if k == "while":
            h = self.new()
            b = self.stmt(s[2], h, nxt, h, sw)
            self.g[h] = ("skip", self.mark(s[1], self.new(("cond", s[1], b, nxt))))
            return h
        if k == "do":
            h, c = self.new(), self.new()
            b = self.stmt(s[1], c, nxt, c, sw)
            self.g[h] = ("skip", b)
            self.g[c] = ("skip", self.mark(s[2], self.new(("cond", s[2], h, nxt))))
            return h
        if k == "for":
            h, c = self.new(), self.new()
            b = self.stmt(s[4], c, nxt, c, sw)
            self.g[h] = ("skip", self.mark(s[2], self.new(("cond", s[2], b, nxt))) if s[2] else b)
            self.g[c] = ("skip", self.mark(s[3], h) if s[3] else h)
            return h if s[1] is None else self.mark(s[1][1], h)
        if k == "switch":
            cs = {}
            self.stmt(s[2], nxt, nxt, cont, cs)
            d = cs.pop("default", nxt)
            return self.mark(s[1], self.new(("sw", s[1], cs, d)))
        if k == "case":
            p = self.stmt(s[2], nxt, brk, cont, sw)
            sw[s[1]] = p
            return p
        if k == "default":
            p = self.stmt(s[1], nxt, brk, cont, sw)
            sw["default"] = p
            return p
        if k == "label":
            l = self.label(s[1])
            p = self.stmt(s[2], nxt, brk, cont, sw)
            self.g[l] = ("skip", p)
            return l
        if k == "goto":
            return self.new(("skip", self.label(s[1])))
        if k == "break":
            return self.new(("skip", brk))
        if k == "continue":
            return self.new(("skip", cont))
        if k == "return":
            r = self.new(("ret", s[1]))
            return self.mark(s[1], r) if s[1] else r
        raise AssertionError(k)

    def norm(self, p):
        seen = set()
        while self.g[p][0] == "skip":
            if p in seen:
                return None          # empty infinite loop
            seen.add(p)
            p = self.g[p][1]
        return p


# ------------------------------------------------------------------ the compiler's graph
class CF(Lower):
    def __init__(self, ctx, abi="sysv"):
        super().__init__(ctx, abi)
        self.int_t = simple(self.P, "ST_INT")
        self.real_types = None       # type of every opaque expression (switch-type rule)
        self.case_casts, self.control_types = [], []

    def tname(self, t):
        return {self.P.enum(s): s for s in ST_ALL}.get(t[2]) if isty(t, "simple") else show(t)

    def parse(self, body, fname="f"):
        """-> (list of results Impl, list of (error events)) of parse_function on the skeleton"""
        P = self.P
        T = Tokens(P, body)
        self.vals = {}
        self.consts = {}
        self.tab.update(T.tab)

        def expr(name):
            o = ("ob", "e:" + name)
            self.tab[("e:" + name, "data_type")] = simple(P, self.real_types) if self.real_types and name == "s" else self.int_t
            self.tab[("e:" + name, "type")] = P.enum("E_SYMBOL")
            return o

        def mark(I, st, name, n, f):
            r = I.call_body(st.fork(), P.need("get_current_block"), [])
            if len(r) != 1:
                raise AnalysisError("get_current_block forks")
            st.ev = (st.ev, Ev("mark", name, (r[0][2],), locs(n), f.name if f else "?"))

        def m_expr(I, st, a, n, f):
            k, s = T.cur(st)
            if k != "E":
                return [(st, 0)]
            T.m_next(I, st, (), n, f)
            return [(st, expr(s))]

        def m_decl(I, st, a, n, f):
            k, s = T.cur(st)
            if k != "D":
                return [(st, 0)]
            T.m_next(I, st, (), n, f)
            mark(I, st, s, n, f)
            return [(st, 1)]

        def name_of(v):
            while isinstance(v, tuple) and v[:2] == ("fn", "cast"):
                v = v[2][0]
            if isinstance(v, tuple) and v[0] == "ob" and v[1].startswith("e:"):
                return v[1][2:]
            return None

        def m_eval(I, st, a, n, f):
            nm = name_of(a[0])
            if nm is None:
                raise AnalysisError("expression_evaluate of %s at %s" % (show(a[0]), locs(n)))
            if nm == "s":
                t = a[0][2][1] if a[0][:2] == ("fn", "cast") else I.load(st, ("f", ("d", a[0]), "data_type"), None)
                self.control_types.append(self.tname(t))
            mark(I, st, nm, n, f)
            k = st.mem.get(("g", "#nodes"), 0) + 1
            st.mem[("g", "#nodes")] = k
            o = ("ob", "n#%d" % k)
            st.mem[nf(o, "type")] = P.enum("IR_PHI")
            st.mem[nf(o, "size")] = 4
            st.mem[nf(o, "index")] = k
            self.vals[o] = nm
            return [(st, self.EE("EE_VARIABLE", self.int_t, variable=o))]

        def m_const(I, st, a, n, f):
            nm = name_of(a[0])
            if nm is None:
                return None
            o = ("ob", "const#" + nm)
            t = a[0][2][1] if a[0][:2] == ("fn", "cast") else I.load(st, ("f", ("d", a[0]), "data_type"), None)
            self.case_casts.append(self.tname(t))
            c = ("struct", "constant", (("type", P.enum("CONSTANT_TYPE")), ("data_type", self.int_t), ("uint_d", nm)))
            st.mem[("d", o)] = c
            return [(st, o)]

        def m_expr_new(I, st, a, n, f):
            v = a[0]
            if isinstance(v, tuple) and v[0] == "upd" and v[1][0] == "struct":
                v = I.update(v[1], dict(v[2]), None)
            d = dict(v[2]) if isinstance(v, tuple) and v[0] == "struct" else {}
            args = d.get("args")
            if isinstance(args, tuple) and args[0] == "arr" and d.get("type") in (P.enum("E_UNARY_OP"), P.enum("E_CAST")):
                x = dict(args[1])[0]
                if d.get("type") == P.enum("E_UNARY_OP") and d.get("unary_op") == P.enum("UOP_PLUS"):
                    t = I.load(st, ("f", ("d", x), "data_type"), None)
                    s = self.tname(t)
                    pt = simple(P, promote(s, self.abi)) if s in INTS else t
                    return [(st, x if pt == t else ("fn", "cast", (x, pt)))]
                return [(st, x)]
            raise AnalysisError("expression of kind %s built by a statement at %s" % (d.get("type"), locs(n)))

        def m_ret(I, st, a, n, f):
            l = I.deref(st, a[1])
            t = I.rd(st, ("f", l, "type"))
            nm = None
            if t == P.enum("EE_CONSTANT"):
                c = I.rd(st, ("f", ("f", l, "constant"), "int_d"))
                nm = "#zero" if c == 0 else "#const"
            elif t != P.enum("EE_VOID"):
                nm = self.vals.get(I.rd(st, ("f", l, "pointer")), "?")
            mark(I, st, ("retval", nm), n, f)
            return [(st, 0)]
        def m_func(I, st, a, n, f):
            st.mem[("g", "#nodes")] = st.mem.get(("g", "#nodes"), 0) + 1
            o = ("ob", "n#%d" % st.mem[("g", "#nodes")])
            st.mem[nf(o, "type")] = P.enum("IR_REGION")
            st.mem[nf(o, "size")] = 0
            st.mem[nf(o, "index")] = st.mem[("g", "#nodes")]
            st.mem[nf(o, "block_info", "is_sealed")] = 1
            self.start_block = o
            return [(s, 0) for s, sig, rv in I.call_body(st, P.need("ir_block_start"), [o])]
        z = lambda v: (lambda I, st, a, n, f: [(st, v)])
        m = T.models()
        env, _ = abi_env(self.ctx, self.abi)
        rf = env.get("abi_expr_return")
        ff = env.get("abi_expr_function")
        self.ctx.require(isinstance(rf, tuple) and rf[0] == "func" and isinstance(ff, tuple) and ff[0] == "func",
                         "the ABI selects no return/function lowering")
        m.update({"parse_expression": m_expr, "parse_declaration": m_decl, "expression_cast": self.m_cast,
                  "expression_to_constant": m_const, "expression_evaluate": m_eval, "expr_new": m_expr_new,
                  rf[1]: m_ret, ff[1]: m_func, "type_evaluate_vla": z(0), "symbols_push_scope": z(0),
                  "symbols_pop_scope": z(0), "symbols_get_identifier_global": z(("ob", "sym")),
                  "symbols_add_identifier_global": z(("ob", "sym")), "parse_handle_pragma": z(0),
                  "sv_to_str": lambda I, st, a, n, f: [(st, ("str", text(a[0])))]})
        genv = dict(self.genv)
        genv["abi_expr_return"], genv["abi_expr_function"] = rf, ff
        save = self.genv
        self.genv = genv
        inl = [n for n, f in P.funcs.items() if f.file == "src/parser/function_parser.c"]
        I = self.interp_ir(extra=m, inline=inl + ["expression_to_condition", "constant_simple_signed"])
        I.load_hook = hooks(type_hook, obj_hook(self.tab), self.hook, node_hook, init_globals)
        self.genv = save
        I.max_rec, I.max_depth, I.unroll = 60, 400, 64
        sv = lambda s: ("struct", "string_view", (("len", len(s)), ("str", ("str", s))))
        rett = self.int_t
        ps = self.ctx.run(I, "parse_function", args={0: sv(fname), 1: func(rett, ()), 2: 0, 3: 0, 4: 1})
        bad = I.take_dead()
        return [Impl(self, I, p, T) for p in ps], bad


class Impl:
    def __init__(self, cf, I, p, T):
        self.cf, self.I, self.p = cf, I, p
        self.P = cf.P
        self.G = G = Graph(self.P, I, p)
        self.end = p.mem.get(T.POS, 0)
        self.marks = {}
        for e in p.events:
            if e.k == "mark":
                self.marks.setdefault(e.args[0], []).append((e.name, e.loc))
        self.succ = {}
        self.proj = {}
        for n in G.nodes():
            t = G.type(n)
            if t == "IR_IF":
                self.succ.setdefault(G.g(n, "arguments", 0), []).append(("if", n))
            elif t == "IR_RETURN":
                self.succ.setdefault(G.g(n, "arguments", 0), []).append(("ret", n))
            elif t == "IR_REGION":
                for i in range(4):
                    a = G.g(n, "arguments", i)
                    if isnode(a):
                        self.succ.setdefault(a, []).append(("jmp", n))
                        if G.type(a) == "IR_FUNCTION":
                            raise AnalysisError("region under a function node")
            elif t == "IR_PROJECT" and isnode(G.g(n, "arguments", 0)):
                self.proj[(G.g(n, "arguments", 0), G.g(n, "project", "index"))] = n
        F = [n for n in G.nodes() if G.type(n) == "IR_FUNCTION"]
        self.F = F[0] if len(F) == 1 else None

    def value_of(self, n, depth=0):
        """marker name a value node stands for, through casts only"""
        if n in self.cf.vals:
            return self.cf.vals[n]
        t = self.G.type(n)
        if t in ("IR_BOOL_CAST", "IR_INT_CAST_ZERO", "IR_INT_CAST_SIGN", "IR_FLT_INT_CAST", "IR_INT_FLT_CAST",
                 "IR_FLT_CAST", "IR_UINT_FLT_CAST", "IR_FLT_UINT_CAST") and depth < 4:
            return self.value_of(self.G.g(n, "arguments", 0), depth + 1)
        return None

    def const_of(self, n):
        if self.G.type(n) == "IR_CONSTANT":
            v = self.G.g(n, "constant", "constant", "uint_d")
            return v if isinstance(v, str) else None
        return None

    def norm(self, pt):
        """skip empty jumps -> (block, i) at a mark / ("if", node) / ("ret",) or ("none", why)"""
        seen = set()
        b, i = pt
        while True:
            if i < len(self.marks.get(b, ())):
                return ("mark", b, i)
            s = self.succ.get(b, [])
            if len(s) != 1:
                return ("none", "block of %d control successors" % len(s))
            k, n = s[0]
            if k == "if":
                return ("if", n)
            if k == "ret":
                return ("ret", n)
            if n in seen:
                return ("loop",)
            seen.add(n)
            b, i = n, 0


def compare(spec, im):
    """product exploration -> None or a message"""
    seen = set()
    work = [(spec.entry, (im.cf.start_block, 0), ())]
    while work:
        p, pt, path = work.pop()
        sp = spec.norm(p)
        x = im.norm(pt)
        key = (sp, x)
        if key in seen:
            continue
        seen.add(key)
        via = " after " + " ".join(path[-8:]) if path else ""
        if sp is None:
            if x != ("loop",):
                return "must loop forever%s, the graph goes on to %s" % (via, describe(im, x))
            continue
        s = spec.g[sp]
        if s[0] == "ret":
            # value mark then return
            if x[0] != "mark" or not isinstance(im.marks[x[1]][x[2]][0], tuple):
                return "must return%s, the graph continues with %s" % (via, describe(im, x))
            v = im.marks[x[1]][x[2]][0][1]
            if v != s[1]:
                return "must return %s%s, the graph returns %s" % (s[1], via, v)
            y = im.norm((x[1], x[2] + 1))
            if y[0] != "ret":
                return "must return%s, the graph continues with %s" % (via, describe(im, y))
            continue
        if s[0] == "mark":
            if x[0] != "mark" or im.marks[x[1]][x[2]][0] != s[1]:
                return "%s must be evaluated%s, the graph continues with %s" % (s[1], via, describe(im, x))
            work.append((s[2], (x[1], x[2] + 1), path + (s[1],)))
            continue
        if s[0] == "cond":
            if x[0] != "if":
                return "must branch on %s%s, the graph continues with %s" % (s[1], via, describe(im, x))
            c = im.G.g(x[1], "arguments", 1)
            if im.value_of(c) != s[1]:
                return "must branch on %s%s, the graph branches on another value" % (s[1], via)
            for i, t in ((0, s[2]), (1, s[3])):
                b = im.proj.get((x[1], i))
                if b is None:
                    return "the branch on %s has no %s edge" % (s[1], ("true", "false")[i])
                work.append((t, (b, 0), path + (("%s!=0" if i == 0 else "%s==0") % s[1],)))
            continue
        if s[0] == "sw":
            for v in list(s[2]) + [None]:
                pt2, y = None, x
                n = 0
                while y[0] == "if":
                    c = im.G.g(y[1], "arguments", 1)
                    if im.G.type(c) != "IR_EQUAL":
                        break
                    a, b = im.G.g(c, "arguments", 0), im.G.g(c, "arguments", 1)
                    if im.const_of(a) is not None:
                        a, b = b, a
                    if im.value_of(a) != s[1] or im.const_of(b) is None:
                        break
                    hit = im.const_of(b) == v
                    nb = im.proj.get((y[1], 0 if hit else 1))
                    if nb is None:
                        return "a comparison of switch %s lacks an edge" % s[1]
                    pt2 = (nb, 0)
                    y = im.norm(pt2)
                    n += 1
                    if n > 50:
                        break
                    if hit:
                        break
                tgt = s[2][v] if v is not None else s[3]
                work.append((tgt, pt2 or pt, path + ("%s==%s" % (s[1], v or "other"),)))
            continue
    return None


def describe(im, x):
    if x[0] == "mark":
        m = im.marks[x[1]][x[2]][0]
        return "return of %s" % m[1] if isinstance(m, tuple) else "%s (%s)" % (m, im.marks[x[1]][x[2]][1])
    if x[0] == "if":
        c = im.G.g(x[1], "arguments", 1)
        return "a branch on %s" % (im.value_of(c) or im.G.type(c))
    if x[0] == "ret":
        return "a return without value set-up"
    if x[0] == "loop":
        return "an empty infinite loop"
    return x[1]
