"""C11: evaluation order of operands."""
from lib_ir import *
from lib_e2e import Case
from lib_tok import init_globals, m_realloc
from lib_parse import Parser, Grammar, Invalid, leaves, norm
from rules import c02

EXPLANATION = (
    "expression_evaluate and the functions it calls are evaluated abstractly for every kind of expression with opaque "
    "operands; evaluating an operand leaves one marker effect in the state chain of the block that is open at that moment. "
    "The graph built is then read back: for every path through its branches, the sequence of operand evaluations, loads and "
    "stores of operand objects, calls and copies in the state chain is compared with what C 6.5 requires (each operand exactly "
    "once, unselected arms never, sequence points, one read and one write of an lvalue). The parser's trees are checked to hold "
    "every operand of the source exactly once, none of sizeof. Operands are opaque, so each result holds for all operand expressions.")
ASSUMPTIONS = ["the state chain of a block fixes the order of its effects (C12)"]
FLOORS = {"once": 100, "tree": 600}

short = lambda s: s[3:].lower()
STATEARG = {"IR_CALL": 1, "IR_STORE": 2, "IR_VA_START": 1, "IR_VA_ARG": 2, "IR_LOAD_VOLATILE": 1, "IR_LOAD_BASE_RELATIVE_ADDRESS": 1,
            "IR_SET_ZERO_PTR": 1, "IR_STORE_PART_ADDRESS": 2, "IR_LOAD_PART_ADDRESS": 1, "IR_COPY_MEMORY": 2, "IR_DIV": 2, "IR_IDIV": 2,
            "IR_MOD": 2, "IR_IMOD": 2}


class World11(Case):
    def __init__(self, ctx, abi):
        super().__init__(ctx, abi)
        self.mark = {}
        self.ptrs = {}

    def effect_model(self):
        base = self.low.m_eval
        P = self.P
        store = P.funcs["ir_store"]

        def m(I, st, a, n, f):
            e = a[0]
            if e not in self.low.ee:
                return None
            mk = self.mark.setdefault(e, self.low.node(8, name="mark"))
            st.mem.setdefault(nf(mk, "type"), P.enum("IR_PHI"))
            st.mem.setdefault(nf(mk, "size"), 8)
            out = []
            for s2, sig, rv in I.call_body(st, store, (mk, mk)):
                if sig is None:
                    out += base(I, s2, a, n, f)
            return out
        return m

    def build(self, e, entry="expression_evaluate", args=None):
        low = self.low
        self.ptrs = {}
        for o, ee in low.ee.items():
            self.mark.setdefault(o, low.node(8))
            d = dict(ee[2])
            p = d.get("pointer") or (dict(d["bitfield_pointer"][2]).get("pointer") if "bitfield_pointer" in d else None)
            if p and d["type"] != self.P.enum("EE_VARIABLE"):
                self.ptrs[p] = o[1]
        g, fs, tus = abi_calls(self.ctx, self.abi)
        low.genv = dict(low.genv, **g)
        I = low.interp_ir(extra={"expression_evaluate": self.effect_model(), "cc_realloc": m_realloc}, more_hooks=[init_globals],
                          inline=fs + ["classify", "round_up_to_nearest"], tus=tus + ["src/arch/calling.c"])
        m = low.start(I)
        ps = self.ctx.run(I, entry, args=args or {0: e}, mem=m)
        d = I.take_dead()
        if len(ps) != 1 or d:
            return None, "lowering takes %d paths, %d stop%s" % (len(ps), len(d), " at %s" % d[0].events[-1].loc if d and d[0].events else "")
        p = ps[0]
        self.I, self.p = I, p
        self.G = Graph(self.P, I, p.st)
        cur = self.ctx.run(I, "get_current_block", mem=p.mem)[0].ret
        return self.histories(cur), None

    def base(self, n, depth=0):
        """name of the operand object an address node points into, or None"""
        if depth > 12 or not isnode(n):
            return None
        if n in self.ptrs:
            return self.ptrs[n]
        if self.G.type(n) in ("IR_ADD", "IR_SUB"):
            return self.base(self.G.args(n)[0], depth + 1)
        return None

    def histories(self, block, depth=0):
        """[(conds, effects)] of every path from the start to the end of BLOCK, latest state"""
        if depth > 30:
            raise AnalysisError("loop in an expression's blocks")
        G = self.G
        R = {v: k for k, v in self.mark.items()}
        preds = [a for a in G.args(block) if isnode(a)] if G.type(block) == "IR_REGION" else []
        preds = [a for a in preds if G.type(a) != "IR_FUNCTION"]
        cond = None
        if G.type(block) == "IR_PROJECT":
            i = G.args(block)[0]
            if G.type(i) == "IR_IF":
                cond = (self.tested(G.args(i)[1]), G.g(block, "project", "index"))
                preds = [G.args(i)[0]]
            elif G.type(i) != "IR_FUNCTION":
                raise AnalysisError("block begins with a projection of %s" % G.type(i))
        stops = {G.g(p, "block_info", "state") for p in preds}
        eff = []
        s = G.g(block, "block_info", "state")
        k = 0
        while isnode(s) and s not in stops:
            k += 1
            if k > 400:
                raise AnalysisError("state chain does not end")
            t = G.type(s)
            if t == "IR_PROJECT":
                n = G.args(s)[0]
                if G.type(n) == "IR_FUNCTION":
                    break
                s, t = n, G.type(n)
            if t == "IR_PHI":
                if G.args(s)[0] != block:
                    raise AnalysisError("state comes from a merge of another block")
                break
            if t not in STATEARG:
                raise AnalysisError("%s in a state chain" % t)
            a = G.args(s)
            if t == "IR_STORE" and a[0] in R:
                eff.append(("eval", R[a[0]][1]))
            elif t in ("IR_STORE", "IR_STORE_PART_ADDRESS", "IR_SET_ZERO_PTR"):
                b = self.base(a[0])
                eff.append(("store", b) if b else ("tmp",))
            elif t in ("IR_LOAD_VOLATILE", "IR_LOAD_PART_ADDRESS"):
                b = self.base(a[0])
                eff.append(("load", b) if b else ("tmp",))
            elif t == "IR_COPY_MEMORY":
                b, c = self.base(a[1]), self.base(a[0])
                if c:
                    eff.append(("store", c))
                if b:
                    eff.append(("load", b))
            elif t == "IR_CALL":
                eff.append(("call",))
            elif t in ("IR_VA_START", "IR_VA_ARG"):
                eff.append((t[3:].lower(),))
            s = a[STATEARG[t]]
        eff = [x for x in reversed(eff) if x != ("tmp",)]
        out = []
        if not preds:
            return [((), tuple(eff))]
        for p in preds:
            for c, e in self.histories(p, depth + 1):
                out.append((c + ((cond,) if cond else ()), e + ((("branch",) + cond,) if cond else ()) + tuple(eff)))
        return out

    def tested(self, n, depth=0):
        """the operand whose value a condition tests"""
        G = self.G
        while isnode(n) and G.type(n) in ("IR_BOOL_CAST", "IR_PROJECT", "IR_LOAD_VOLATILE"):
            n = G.args(n)[0]
        for o, ee in self.low.ee.items():
            d = dict(ee[2])
            if n in (d.get("variable"), d.get("pointer")):
                return o[1]
        if G.type(n) == "IR_FLT_NOT_EQUAL":
            return self.tested(G.args(n)[0])
        return self.base(n) or show(n)


def seq(paths):
    return " | ".join("%s%s" % ("".join("[%s=%d]" % c for c in cs), " ".join("-".join(str(y) for y in x) for x in es)) for cs, es in paths)


def expect(got, want, order):
    """want: {conds: [(effect, min, max)]}; order: [(before, after)] effects; every listed pair present is ordered"""
    g = {}
    for cs, es in got:
        if cs in g:
            return "two paths for the same condition"
        g[cs] = es
    if set(g) != set(want):
        return "the paths are %s, must be %s" % (sorted(g), sorted(want))
    for cs, es in g.items():
        es = [x for x in es]
        allowed = {}
        for x, lo, hi in want[cs]:
            allowed[x] = (lo, hi)
        for x, (lo, hi) in allowed.items():
            n = es.count(x)
            if n < lo or n > hi:
                return "%s happens %d times%s" % (" ".join(map(str, x)), n, " when %s" % (cs,) if cs else "")
        for x in es:
            if x[0] != "branch" and x not in allowed:
                return "%s happens%s" % (" ".join(map(str, x)), " when %s" % (cs,) if cs else "")
        for b, a in order:
            for i, x in enumerate(es):
                if x == a or (a[0] == "branch" and x[:2] == a):
                    late = [j for j, y in enumerate(es) if (y == b or (b[0] == "branch" and y[:2] == b)) and j > i]
                    if late:
                        return "%s happens before %s" % (" ".join(map(str, a)), " ".join(map(str, b)))
    return None


def one(*xs):
    return [(x, 1, 1) for x in xs]


WHERE = "expression_evaluate"


def lowering(ctx, abi):
    P = ctx.P
    INT = simple(P, "ST_INT")

    def do(inst, what, build, want, order=(), entry="expression_evaluate", args=None):
        C = World11(ctx, abi)
        e = build(C)
        try:
            got, err = C.build(e, entry, args(C, e) if args else None)
        except AnalysisError as x:
            raise AnalysisError("%s.%s: %s" % (abi, inst, x))
        w = want(C) if callable(want) else want
        msg = err or expect(got, w, list(order))
        ctx.ob("once", "%s.%s" % (abi, inst), msg is None, WHERE, "%s (%s): %s [%s]" % (what, abi, msg, "" if got is None else seq(got)))

    E = lambda n: ("eval", n)
    ld = lambda n: ("load", n)
    st = lambda n: ("store", n)
    for t in ("ST_INT", "ST_ULLONG", "ST_DOUBLE"):
        for op in ("OP_ADD", "OP_MUL", "OP_DIV", "OP_MOD", "OP_LESS", "OP_EQUAL", "OP_LSHIFT", "OP_BAND"):
            if t == "ST_DOUBLE" and op in ("OP_MOD", "OP_LSHIFT", "OP_BAND"):
                continue

            def b(C):
                x, _ = C.lvalue("a", C.T(t))
                y, _ = C.lvalue("b", C.T(t))
                return C.expr("E_BINARY_OP", C.T(t if op not in ("OP_LESS", "OP_EQUAL") else "ST_INT"), [x, y], binary_op=P.enum(op))
            do("binary.%s.%s" % (short(t), op), "a %s b" % op, b, {(): one(E("a"), E("b"), ld("a"), ld("b"))},
               [(E("a"), ld("a")), (E("b"), ld("b"))])
        for u in ("UOP_NEG", "UOP_BNOT"):
            if t == "ST_DOUBLE" and u == "UOP_BNOT":
                continue

            def b(C):
                x, _ = C.lvalue("a", C.T(t))
                return C.expr("E_UNARY_OP", C.T(t), [x], unary_op=P.enum(u))
            do("unary.%s.%s" % (short(t), u), u, b, {(): one(E("a"), ld("a"))}, [(E("a"), ld("a"))])

        def b(C):
            x, _ = C.lvalue("a", C.T(t))
            return C.expr("E_CAST", C.T("ST_VOID"), (), cast=("struct", "c", (("arg", x), ("target", C.T("ST_VOID")))))
        do("cast.%s.void" % short(t), "(void)a", b, {(): [(E("a"), 1, 1), (ld("a"), 0, 1)]})
        for t2 in ("ST_CHAR", "ST_INT", "ST_FLOAT", "ST_BOOL"):
            if t2 == t:
                continue

            def b(C):
                x, _ = C.lvalue("a", C.T(t))
                return C.expr("E_CAST", C.T(t2), (), cast=("struct", "c", (("arg", x), ("target", C.T(t2)))))
            do("cast.%s.%s" % (short(t), short(t2)), "cast", b, {(): one(E("a"), ld("a"))}, [(E("a"), ld("a"))])

    # conditionals
    for kind in ("int", "double", "ptr", "struct16", "void"):
        for ck in ("value", "lvalue", "float"):
            def b(C):
                ct = C.T("ST_DOUBLE" if ck == "float" else "ST_INT")
                c, _ = (C.value if ck == "value" else C.lvalue)("c", ct)
                t = {"int": INT, "double": simple(P, "ST_DOUBLE"), "ptr": ptr(INT), "void": simple(P, "ST_VOID")}.get(kind) or C.struct("s", 16)
                if kind == "void":
                    a = C.low.expr("a", t, C.low.EE("EE_VOID", t))
                    d = C.low.expr("b", t, C.low.EE("EE_VOID", t))
                elif kind == "struct16":
                    a, _ = C.lvalue("a", t)
                    d, _ = C.lvalue("b", t)
                else:
                    a, _ = C.value("a", t)
                    d, _ = C.lvalue("b", t)
                return C.expr("E_CONDITIONAL", t, [c, a, d])
            pre = one(E("c")) + (one(ld("c")) if ck != "value" else [])
            do("cond.%s.%s" % (kind, ck), "c ? a : b", b, {(("c", 0),): pre + one(E("a")), (("c", 1),): pre + one(E("b"))} if kind == "void" else
               {(("c", 0),): pre + one(E("a")) + [(ld("a"), 0, 1), (st("a"), 0, 0)], (("c", 1),): pre + one(E("b")) + [(ld("b"), 0, 1)]},
               [(E("c"), ("branch", "c")), (("branch", "c"), E("a")), (("branch", "c"), E("b"))])

    # a ? b : c nested in each position
    for pos in (0, 1, 2):
        def b(C):
            c, _ = C.value("c", INT)
            a, _ = C.value("a", INT)
            d, _ = C.value("b", INT)
            inner = C.expr("E_CONDITIONAL", INT, [c, a, d])
            x, _ = C.value("x", INT)
            y, _ = C.value("y", INT)
            ops = [x, y]
            ops.insert(pos, inner)
            return C.expr("E_CONDITIONAL", INT, ops)
        if pos == 1:
            w = {(("x", 0), ("c", 0)): one(E("x"), E("c"), E("a")), (("x", 0), ("c", 1)): one(E("x"), E("c"), E("b")), (("x", 1),): one(E("x"), E("y"))}
        elif pos == 2:
            w = {(("x", 1), ("c", 0)): one(E("x"), E("c"), E("a")), (("x", 1), ("c", 1)): one(E("x"), E("c"), E("b")), (("x", 0),): one(E("x"), E("y"))}
        else:
            continue
        do("cond.nested.%d" % pos, "nested ?:", b, w, [(E("x"), E("c")), (E("c"), E("a")), (E("c"), E("b"))])

    def b(C):
        x, _ = C.lvalue("a", INT)
        y, _ = C.lvalue("b", INT)
        return C.expr("E_COMMA", INT, [x, y])
    do("comma", "a, b", b, {(): [(E("a"), 1, 1), (E("b"), 1, 1), (ld("a"), 0, 1), (ld("b"), 0, 1)]}, [(E("a"), E("b")), (ld("a"), E("b"))])

    # comma and conditional as operands of other operators
    def b(C):
        x, _ = C.lvalue("a", INT)
        y, _ = C.value("b", INT)
        z, _ = C.value("c", INT)
        return C.expr("E_ASSIGNMENT", INT, [x, C.expr("E_COMMA", INT, [y, z])])
    do("assign.comma", "a = (b, c)", b, {(): one(E("a"), E("b"), E("c"), st("a"))}, [(E("b"), E("c")), (E("c"), st("a")), (E("a"), st("a"))])

    def b(C):
        x, _ = C.lvalue("a", INT)
        c, _ = C.value("c", INT)
        y, _ = C.value("x", INT)
        z, _ = C.value("y", INT)
        return C.expr("E_ASSIGNMENT", INT, [x, C.expr("E_CONDITIONAL", INT, [c, y, z])])
    do("assign.cond", "a = c ? x : y", b, {(("c", 0),): one(E("a"), E("c"), E("x"), st("a")), (("c", 1),): one(E("a"), E("c"), E("y"), st("a"))},
       [(E("c"), E("x")), (E("c"), E("y")), (E("x"), st("a")), (E("y"), st("a"))])

    # statements and helpers that evaluate a whole expression
    for entry, conv in (("expression_to_void", "void"), ("expression_to_ir", "val"), ("expression_to_ir_clear_temp", "val"),
                        ("expression_to_size_t", "val"), ("expression_to_condition", "val")):
        if entry not in P.funcs:
            raise AnalysisError("anchor %s lost" % entry)

        def b(C):
            return C.lvalue("a", INT)[0]
        do("entry.%s" % entry, entry, b, {(): [(E("a"), 1, 1), (ld("a"), 0 if conv == "void" else 1, 1)]}, [(E("a"), ld("a"))], entry=entry)
    for n in (4, 16):
        def b(C):
            C.dst = C.low.node(8)
            return C.lvalue("a", C.struct("s", n))[0]
        do("entry.expression_to_address.%d" % n, "expression_to_address", b, {(): [(E("a"), 1, 1), (ld("a"), 1, 1)]}, [(E("a"), ld("a"))],
           entry="expression_to_address", args=lambda C, e: {0: e, 1: C.dst})

    # assignments
    for t in ("ST_INT", "ST_CHAR", "ST_DOUBLE", "ST_BOOL", "ST_ULLONG"):
        for rk in ("value", "lvalue"):
            def b(C):
                x, _ = C.lvalue("a", C.T(t))
                y, _ = (C.value if rk == "value" else C.lvalue)("b", C.T(t))
                return C.expr("E_ASSIGNMENT", C.T(t), [x, y])
            do("assign.%s.%s" % (short(t), rk), "a = b", b, {(): one(E("a"), E("b"), st("a")) + (one(ld("b")) if rk == "lvalue" else [])},
               [(E("a"), st("a")), (E("b"), st("a")), (E("b"), ld("b")), (ld("b"), st("a"))])
        for op in ("OP_ADD", "OP_DIV", "OP_LSHIFT"):
            if op == "OP_LSHIFT" and t == "ST_DOUBLE":
                continue
            for post in (0, 1):
                def b(C):
                    x, _ = C.lvalue("a", C.T(t))
                    y, _ = C.lvalue("b", C.T("ST_INT" if t in ("ST_CHAR", "ST_BOOL") else t))
                    return C.expr("E_ASSIGNMENT_OP", C.T(t), [x, y], assignment_op=("struct", "ao", (("op", P.enum(op)), ("postfix", post))))
                do("assignop.%s.%s.%d" % (short(t), op, post), "a op= b", b, {(): one(E("a"), E("b"), ld("a"), ld("b"), st("a"))},
                   [(E("a"), ld("a")), (E("b"), ld("b")), (E("b"), st("a")), (ld("a"), st("a")), (ld("b"), st("a"))])
    for n in (3, 8, 16, 40):
        def b(C):
            t = C.struct("s", n)
            x, _ = C.lvalue("a", t)
            y, _ = C.lvalue("b", t)
            return C.expr("E_ASSIGNMENT", t, [x, y])
        do("assign.struct%d" % n, "a = b", b, {(): one(E("a"), E("b"), ld("b"), st("a"))}, [(E("a"), st("a")), (E("b"), ld("b")), (ld("b"), st("a"))])
    for s, off, bits in (("ST_INT", 3, 5), ("ST_UINT", 0, 32), ("ST_ULLONG", 10, 20)):
        def b(C):
            x, _ = C.bitfield("a", C.T(s), off, bits)
            y, _ = C.value("b", C.T(s))
            return C.expr("E_ASSIGNMENT", C.T(s), [x, y])
        do("assign.bitfield.%s" % short(s), "s.a = b", b, {(): one(E("a"), E("b"), st("a")) + [(ld("a"), 0, 1)]}, [(E("a"), st("a")), (E("b"), st("a")), (ld("a"), st("a"))])
        for post in (0, 1):
            def b(C):
                x, _ = C.bitfield("a", C.T(s), off, bits)
                y, _ = C.value("b", C.T(s))
                return C.expr("E_ASSIGNMENT_OP", C.T(s), [x, y], assignment_op=("struct", "ao", (("op", P.enum("OP_ADD")), ("postfix", post))))
            do("assignop.bitfield.%s.%d" % (short(s), post), "s.a += b", b, {(): one(E("a"), E("b"), st("a")) + [(ld("a"), 1, 2)]},
               [(E("a"), st("a")), (E("b"), st("a")), (ld("a"), st("a"))])
    for sub in (0, 1):
        for post in (0, 1):
            def b(C):
                x, _ = C.lvalue("a", ptr(INT))
                y, _ = C.lvalue("b", INT)
                return C.expr("E_ASSIGNMENT_POINTER", ptr(INT), [x, y], assignment_pointer=("struct", "ap", (("sub", sub), ("postfix", post))))
            do("assignptr.%d.%d" % (sub, post), "p += b", b, {(): one(E("a"), E("b"), ld("a"), ld("b"), st("a"))},
               [(E("a"), ld("a")), (E("b"), ld("b")), (E("b"), st("a")), (ld("a"), st("a")), (ld("b"), st("a"))])
    for k in ("E_POINTER_ADD", "E_POINTER_SUB", "E_POINTER_DIFF"):
        def b(C):
            x, _ = C.lvalue("a", ptr(INT))
            y, _ = C.lvalue("b", ptr(INT) if k == "E_POINTER_DIFF" else INT)
            return C.expr(k, ptr(INT) if k != "E_POINTER_DIFF" else simple(P, "ST_LONG"), [x, y])
        do(k, k, b, {(): one(E("a"), E("b"), ld("a"), ld("b"))}, [(E("a"), ld("a")), (E("b"), ld("b"))])

    def b(C):
        x, _ = C.lvalue("a", ptr(INT))
        return C.expr("E_INDIRECTION", INT, [x])
    do("indirection", "*a", b, {(): one(E("a"), ld("a"))}, [(E("a"), ld("a"))])
    for k, t, r in (("E_ADDRESS_OF", INT, ptr(INT)), ("E_ARRAY_PTR_DECAY", array(INT, 3), ptr(INT)), ("E_CONST_REMOVE", INT, INT)):
        def b(C):
            x = C.low.lvalue("a", t)[0]
            return C.expr(k, r, [x])
        do(k, k, b, {(): one(E("a"))})

    # calls
    VOID = simple(P, "ST_VOID")

    for ret in ("void", "int", "double", "s16", "s40"):
        for n, kinds in ((0, ""), (1, "i"), (3, "idp"), (8, "iiiiiiii"), (3, "sis"), (2, "bi")):
            for ck in ("value", "lvalue"):
                def b(C):
                    rt = {"void": VOID, "int": INT, "double": simple(P, "ST_DOUBLE")}.get(ret) or cstruct(C, ret, int(ret[1:]))
                    ts = []
                    args = []
                    for i, k in enumerate(kinds):
                        t = {"i": INT, "d": simple(P, "ST_DOUBLE"), "p": ptr(INT)}.get(k) or cstruct(C, "S%d" % i if k == "s" else "B%d" % i, 16 if k == "s" else 48)
                        ts.append(t)
                        args.append((C.value if i % 2 and k in "idp" else C.lvalue)("x%d" % i, t)[0])
                    ft = func(rt, ts)
                    c, _ = (C.value if ck == "value" else C.lvalue)("fn", ptr(ft))
                    C.kinds = kinds
                    k = ("addr", ("i", ("g", "#args"), 0))
                    for i, x in enumerate(args):
                        C.low.mem[("i", ("g", "#args"), i)] = x
                    return C.expr("E_CALL", rt, (), call=("struct", "c", (("callee", c), ("n_args", n), ("args", k))))

                def want(C):
                    w = one(E("fn"), ("call",)) + (one(ld("fn")) if ck == "lvalue" else [])
                    for i, k in enumerate(kinds):
                        w.append((E("x%d" % i), 1, 1))
                        if not (i % 2 and k in "idp"):
                            w.append((ld("x%d" % i), 0, 9))     # a register or stack argument may read parts, or be passed by address
                    return {(): w}
                order = [(E("fn"), ("call",))] + [(E("x%d" % i), ("call",)) for i in range(n)] + [(ld("x%d" % i), ("call",)) for i in range(n)]
                do("call.%s.%s.%s" % (ret, kinds or "none", ck), "call", b, want, order)

    # variadic list builtins
    def b(C):
        v = C.low.lvalue("v", ptr(VOID))[0]
        return C.expr("E_BUILTIN_VA_START", VOID, (), va_start_=("struct", "v", (("array", v),)))
    do("va_start", "va_start", b, {(): [(E("v"), 1, 1), (("va_start",), 1, 1), (ld("v"), 0, 1)]}, [(E("v"), ("va_start",))])

    def b(C):
        v = C.low.lvalue("v", ptr(VOID))[0]
        return C.expr("E_BUILTIN_VA_ARG", INT, (), va_arg_=("struct", "v", (("v", v), ("t", INT))))
    do("va_arg", "va_arg", b, {(): [(E("v"), 1, 1), (("va_arg",), 1, 1), (ld("v"), 0, 1)]}, [(E("v"), ("va_arg",))])


def cstruct(C, name, n):
    """a struct of N bytes made of longs"""
    t = C.struct(name, n)
    C.low.tab[("sd:" + name, "fields")] = ("addr", ("i", ("g", "flds:" + name), 0))
    C.low.tab[("sd:" + name, "n")] = n // 8
    C.low.tab[("sd:" + name, "is_union")] = 0
    for i in range(n // 8):
        for f, v in (("offset", 8 * i), ("type", simple(C.P, "ST_LLONG")), ("bitfield", -1), ("bit_offset", 0)):
            C.low.mem[("f", ("i", ("g", "flds:" + name), i), f)] = v
    return t


def trees(ctx):
    work = [("pair", s) for s in c02.seqs_pairs()] + [("unary", s) for s in c02.seqs_unary()] + [("postfix", s) for s in c02.seqs_postfix()] + \
           [("call", s) for s in c02.seqs_call()] + [("random", c02.rand(104729 * ctx.seed + i)) for i in range(150 if ctx.tier == "quick" else 4000)]
    W = 8

    def go(k):
        def f():
            P = Parser(ctx)
            for rid, s in work[k::W]:
                try:
                    want = Grammar(s).whole()
                except Invalid:
                    continue
                ps, bad = P.run(s)
                if len(ps) != 1 or bad:
                    continue        # C02 decides acceptance
                a, b = sorted(leaves(P.tree(ps[0], ps[0].ret))), sorted(leaves(want))
                x = [n for n in b if a.count(n) != b.count(n)]
                ctx.ob("tree", " ".join(s), not x, "parse_pratt_with_lhs", "%s: operand %s occurs %d times in the tree" % (" ".join(s), x[:1], a.count(x[0]) if x else 0))
        return f
    return [go(k) for k in range(W)]


def run(ctx):
    ctx.rule("once", "every operand is evaluated exactly once on each path that needs it and never otherwise, in the prescribed order; lvalues are read and written once")
    ctx.rule("tree", "the parse tree holds every operand of the source expression exactly once")
    for a in ("sysv", "ms"):
        abi_env(ctx, a)
    ctx.parallel([lambda a=a: lowering(ctx, a) for a in ("sysv", "ms")] + trees(ctx))
