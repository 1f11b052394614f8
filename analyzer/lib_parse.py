"""Expression parsing: parse_expression evaluated on token sequences with opaque operands, against the grammar of C11 6.5."""
from absint import show, Ev
from front import AnalysisError, locs
from lib import *
from lib_tok import *

BIN = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
LEVEL = {o: i for i, l in enumerate(BIN) for o in l}
ASG = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="]
TOK = {"||": "T_OR", "&&": "T_AND", "|": "T_BOR", "^": "T_XOR", "&": "T_AMP", "==": "T_EQ", "!=": "T_NEQ", "<": "T_L", ">": "T_G",
       "<=": "T_LEQ", ">=": "T_GEQ", "<<": "T_LSHIFT", ">>": "T_RSHIFT", "+": "T_ADD", "-": "T_SUB", "*": "T_STAR", "/": "T_DIV",
       "%": "T_MOD", "=": "T_A", "+=": "T_ADDA", "-=": "T_SUBA", "*=": "T_MULA", "/=": "T_DIVA", "%=": "T_MODA", "<<=": "T_LSHIFTA",
       ">>=": "T_RSHIFTA", "&=": "T_BANDA", "^=": "T_XORA", "|=": "T_BORA", "!": "T_NOT", "~": "T_BNOT", "++": "T_INC", "--": "T_DEC",
       "?": "T_QUEST", ":": "T_COLON", ",": "T_COMMA", "(": "T_LPAR", ")": "T_RPAR", "[": "T_LBRACK", "]": "T_RBRACK", ".": "T_DOT",
       "->": "T_ARROW", "sizeof": "T_KSIZEOF", "_Alignof": "T_KALIGNOF", ";": "T_SEMI_COLON"}
OPN = {"|": "OP_BOR", "^": "OP_BXOR", "&": "OP_BAND", "==": "OP_EQUAL", "!=": "OP_NOT_EQUAL", "<": "OP_LESS", ">": "OP_GREATER",
       "<=": "OP_LESS_EQ", ">=": "OP_GREATER_EQ", "<<": "OP_LSHIFT", ">>": "OP_RSHIFT", "+": "OP_ADD", "-": "OP_SUB", "*": "OP_MUL",
       "/": "OP_DIV", "%": "OP_MOD"}


class Invalid(Exception):
    pass


# ------------------------------------------------------------------ the grammar (independent of the compiler)
class Grammar:
    """tokens: strings; identifiers are operands, words starting with an upper-case letter are type names"""
    def __init__(self, toks):
        self.t, self.i = list(toks), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def eat(self, x):
        if self.peek() != x:
            raise Invalid(x)
        self.i += 1

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expression(self):
        e = self.assignment()
        while self.acc(","):
            e = (",", e, self.assignment())
        return e

    def assignment(self):
        start = self.i
        e, unary = self.conditional()
        if self.peek() in ASG:
            if not unary:
                raise Invalid("assignment to a non-unary expression")
            op = self.peek()
            self.i += 1
            r = self.assignment()
            return ("=", e, r) if op == "=" else ("op=", op[:-1], e, r, 0)
        return e

    def conditional(self):
        e, unary = self.binary(0)
        if self.acc("?"):
            m = self.expression()
            self.eat(":")
            r, _ = self.conditional()
            return ("?", e, m, r), False
        return e, unary

    def binary(self, lv):
        if lv == len(BIN):
            return self.cast()
        e, unary = self.binary(lv + 1)
        while self.peek() in BIN[lv]:
            op = self.peek()
            self.i += 1
            r, _ = self.binary(lv + 1)
            e, unary = (op, e, r), False
        return e, unary

    def istype(self, k):
        x = self.peek(k)
        return x is not None and x[0].isupper()

    def cast(self):
        if self.peek() == "(" and self.istype(1) and self.peek(2) == ")":
            self.i += 1
            t = self.peek()
            self.i += 2
            return ("cast", t, self.cast()[0]), False
        return self.unary(), True

    def unary(self):
        p = self.peek()
        if p in ("++", "--"):
            self.i += 1
            return ("op=", p[0], self.unary(), 1, 0)
        if p in ("&", "*", "+", "-", "~", "!"):
            self.i += 1
            return ("u" + p, self.cast()[0])
        if p in ("sizeof", "_Alignof"):
            self.i += 1
            if self.peek() == "(" and self.istype(1) and self.peek(2) == ")":
                t = self.peek(1)
                self.i += 3
                return (p, t)
            if p == "_Alignof":
                raise Invalid("alignof expression")
            return (p, self.unary())
        return self.postfix()

    def postfix(self):
        if self.acc("("):
            e = self.expression()
            self.eat(")")
        else:
            e = self.peek()
            if e is None or not e[0].islower():
                raise Invalid("operand")
            self.i += 1
        while True:
            p = self.peek()
            if p == "[":
                self.i += 1
                x = self.expression()
                self.eat("]")
                e = ("u*", ("+", e, x))
            elif p == "(":
                self.i += 1
                a = []
                if not self.acc(")"):
                    a.append(self.assignment())
                    while self.acc(","):
                        a.append(self.assignment())
                    self.eat(")")
                e = ("call", e) + tuple(a)
            elif p in (".", "->"):
                self.i += 1
                m = self.peek()
                if m is None or not m[0].islower():
                    raise Invalid("member")
                self.i += 1
                e = (".", ("u*", e) if p == "->" else e, m)
            elif p in ("++", "--"):
                self.i += 1
                e = ("op=", p[0], e, 1, 1)
            else:
                return e

    def whole(self):
        e = self.expression()
        if self.i != len(self.t):
            raise Invalid("trailing")
        return e


# ------------------------------------------------------------------ normal form: decision trees over evaluated operands
def norm(t):
    """tree -> value normal form; ?:, &&, ||, ! become ("br", tested value, then, else)"""
    if not isinstance(t, tuple):
        return t
    k = t[0]
    if k == "?":
        return branch(norm(t[1]), norm(t[2]), norm(t[3]))
    if k == "&&":
        return branch(norm(t[1]), branch(norm(t[2]), 1, 0), 0)
    if k == "||":
        return branch(norm(t[1]), 1, branch(norm(t[2]), 1, 0))
    if k == "u!":
        return branch(norm(t[1]), 0, 1)
    return (k,) + tuple(norm(x) for x in t[1:])


def branch(c, a, b):
    """test value c"""
    if isinstance(c, int):
        return a if c else b
    if isinstance(c, tuple) and c[0] == "br":
        return ("br", c[1], branch(c[2], a, b), branch(c[3], a, b))
    return ("br", c, a, b)


def render(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "br":
        return "(%s ? %s : %s)" % tuple(render(x) for x in t[1:])
    if t[0] == "op=":
        return "(%s %s= %s%s)" % (render(t[2]), t[1], render(t[3]), " postfix" if t[4] else "")
    if t[0][:1] == "u":
        return "(%s%s)" % (t[0][1:], render(t[1]))
    if t[0] in OPN or t[0] in ("=", ","):
        return "(%s %s %s)" % (render(t[1]), t[0], render(t[2]))
    return "%s(%s)" % (t[0], ", ".join(render(x) for x in t[1:]))


# ------------------------------------------------------------------ the compiler's parser
class Parser:
    def __init__(self, ctx, entry="parse_expression"):
        self.ctx, self.P, self.entry = ctx, ctx.P, entry
        P = self.P
        self.opname = {P.enum(v): k for k, v in OPN.items()}
        self.kind = {P.enum(n): n for n in P.enum_names("E_CAST")}
        self.uop = {P.enum(n): n for n in P.enum_names("UOP_NEG")}

    def run(self, toks):
        P = self.P
        tl = []
        for t in toks:
            if t in TOK:
                tl.append((TOK[t], t))
            elif t[0].isupper():
                tl.append(("D", t))
            else:
                tl.append(("T_IDENT", t))
        tl.append(("T_SEMI_COLON", ";"))
        T = Tokens(P, tl)
        tab = dict(T.tab)
        self.T = T

        def alloc(st, fields):
            k = st.mem.get(("g", "#exprs"), 0) + 1
            st.mem[("g", "#exprs")] = k
            o = ("ob", "x#%d" % k)
            for a, b in fields.items():
                st.mem[("f", ("d", o), a)] = b
            if fields.get("type") == P.enum("E_CAST"):
                c = fields.get("cast")
                ty = dict(c[2]).get("target") if isinstance(c, tuple) and c[0] == "struct" else None
            elif fields.get("type") == P.enum("E_CONSTANT") and isinstance(fields.get("constant"), tuple) and fields["constant"][0] == "struct":
                ty = dict(fields["constant"][2]).get("data_type")
            else:
                ty = ("ty", "of", o, 0)
            st.mem[("f", ("d", o), "data_type")] = ty
            return o

        def m_new(I, st, a, n, f):
            v = a[0]
            if isinstance(v, tuple) and v[0] == "upd" and v[1][0] == "struct":
                v = I.update(v[1], dict(v[2]), None)
            if not (isinstance(v, tuple) and v[0] == "struct"):
                raise AnalysisError("expr_new of %s at %s" % (show(v), locs(n)))
            return [(st, alloc(st, dict(v[2])))]

        def m_cast(I, st, a, n, f):
            return [(st, alloc(st, {"type": P.enum("E_CAST"), "cast": ("struct", "c", (("arg", a[0]), ("target", a[1])))}))]

        def m_type(I, st, a, n, f):
            k, s = T.cur(st)
            if k != "D":
                return [(st, 0)]
            T.m_next(I, st, (), n, f)
            return [(st, ("ty", "named", s, 0))]

        def m_sym(I, st, a, n, f):
            return [(st, ("ob", "sym:" + text(a[0])))]

        def m_push(I, st, a, n, f):
            p = T.pos(st)
            if p <= 0:
                raise AnalysisError("t_push before any token")
            st.mem[T.POS] = p - 1
            return [(st, 0)]

        def m_sizeof(k):
            def m(I, st, a, n, f):
                return [(st, alloc(st, {"type": "#" + k, "t": a[0]}))]
            return m

        def m_search(I, st, a, n, f):
            I.write(st, I.deref(st, a[2]), 1)
            o = ("ob", "idx#" + text(a[1]))
            st.mem[("i", ("d", o), 0)] = "m:" + text(a[1])
            I.write(st, I.deref(st, a[3]), o)
            return [(st, 1)]

        def m_malloc(I, st, a, n, f):
            k = st.mem.get(("g", "#reallocs"), 0) + 1
            st.mem[("g", "#reallocs")] = k
            return [(st, ("ob", "heap#%d" % k))]

        def m_memcpy(I, st, a, n, f):
            d, s, c = a
            i = 0
            dl = I.deref(st, d)
            base = dl if dl[0] != "i" else dl[1]
            for i in range(12):
                v = I.rd(st, ("i", I.deref(st, s) if I.deref(st, s)[0] != "i" else I.deref(st, s)[1], i))
                if not (isinstance(v, tuple) and v[0] == "ob"):
                    break
                st.mem[("i", ("d", d), i)] = v
            return [(st, d)]

        def hook(I, st, loc):
            if loc[0] == "f" and loc[1][0] == "d" and isinstance(loc[1][1], tuple) and loc[1][1][0] == "ob":
                nm = loc[1][1][1]
                if nm.startswith("sym:"):
                    return {"type": P.enum("IDENT_VARIABLE"), "is_register": 0}.get(loc[2])
                if nm.startswith("x#"):
                    return 0
            if loc[0] == "f" and loc[1][0] == "f" and loc[1][1][0] == "d" and isinstance(loc[1][1][1], tuple) \
                    and loc[1][1][1][0] == "ob" and loc[1][1][1][1].startswith("x#"):
                return 0
            return None
        m = T.models()
        m.update({"expr_new": m_new, "expression_cast": m_cast, "parse_type_name": m_type, "symbols_get_identifier": m_sym,
                  "t_push": m_push, "type_sizeof": m_sizeof("sizeof"), "type_alignof": m_sizeof("_Alignof"),
                  "type_search_member": m_search, "type_simple": lambda I, st, a, n, f: [(st, ("ty", "simple", a[0], 0))],
                  "cc_malloc": m_malloc, "memcpy": m_memcpy})
        I = self.ctx.interp(inline=["parse_expression", "parse_pratt", "parse_pratt_with_lhs", "parse_assignment_expression", "precedence_get",
                                    "constant_simple_signed", "constant_simple_unsigned"],
                            inline_tus=["src/parser/expression.c", "src/precedence.c"], models=m,
                            load_hook=hooks(obj_hook(tab), hook, type_hook, init_globals))
        I.max_rec, I.max_depth, I.unroll = 40, 300, 200
        ps = self.ctx.run(I, self.entry)
        bad = I.take_dead()
        self.I = I
        return ps, bad

    def tree(self, p, o, depth=0):
        """abstract expression object -> tree of the grammar's shape"""
        I, P = self.I, self.P
        if depth > 60:
            raise AnalysisError("cyclic expression")
        if not (isinstance(o, tuple) and o[0] == "ob"):
            return ("?value", show(o))
        g = lambda *f: I.rd(p.st, self.loc(o, *f))
        k = g("type")
        sub = lambda x: self.tree(p, x, depth + 1)
        arg = lambda i: sub(g("args", i))
        if k in ("#sizeof", "#_Alignof"):
            t = g("t")
            return (k[1:], t[2] if t[1] == "named" else sub(t[2]) if t[1] == "of" else show(t))
        n = self.kind.get(k, k)
        if n == "E_SYMBOL":
            return g("symbol")[1][4:]
        if n == "E_CONSTANT":
            c = g("constant", "int_d")
            return c if isinstance(c, int) else ("const", show(c))
        if n == "E_BINARY_OP":
            return (self.opname.get(g("binary_op"), "?op"), arg(0), arg(1))
        if n == "E_UNARY_OP":
            return ({"UOP_NEG": "u-", "UOP_PLUS": "u+", "UOP_BNOT": "u~"}.get(self.uop.get(g("unary_op")), "u?"), arg(0))
        if n == "E_ASSIGNMENT":
            return ("=", arg(0), arg(1))
        if n == "E_ASSIGNMENT_OP":
            return ("op=", self.opname.get(g("assignment_op", "op"), "?"), arg(0), arg(1), g("assignment_op", "postfix"))
        if n == "E_COMMA":
            return (",", arg(0), arg(1))
        if n == "E_CONDITIONAL":
            return ("?", arg(0), arg(1), arg(2))
        if n == "E_INDIRECTION":
            return ("u*", arg(0))
        if n == "E_ADDRESS_OF":
            return ("u&", arg(0))
        if n == "E_CAST":
            t = g("cast", "target")
            return ("cast", t[2] if isinstance(t, tuple) and t[1] == "named" else show(t), sub(g("cast", "arg")))
        if n == "E_DOT_OPERATOR":
            m = g("member", "member_idx")
            if isinstance(m, tuple) and m[0] == "upd":
                m = dict(m[2]).get(0)
            return (".", sub(g("member", "lhs")), m[2:] if isinstance(m, str) else show(m))
        if n == "E_CALL":
            a = g("call", "args")
            c = g("call", "n_args")
            if not isinstance(c, int):
                raise AnalysisError("argument count %s" % show(c))
            return ("call", sub(g("call", "callee"))) + tuple(sub(I.rd(p.st, ("i", ("d", a), i))) for i in range(c))
        return ("?" + str(n),)

    def loc(self, o, *f):
        l = ("d", o)
        for x in f:
            l = ("i", l, x) if isinstance(x, int) else ("f", l, x)
        return l


def leaves(t):
    if isinstance(t, str):
        return [t]
    if isinstance(t, tuple):
        r = []
        for x in t[1:]:
            r += leaves(x)
        return r
    return []
