"""Constant folding: value of every folded operation and conversion, and absence of host traps."""
from lib import *
from lib_expr import *
from lib_bits import *
import lib_bits

EXPLANATION = ("Abstract interpretation (linear/bit-mask normal forms and intervals, no solver) of the folding functions on symbolic "
               "constants of every basic type: the folded term must be the C operation reduced to the operand type; every host "
               "division executed while folding must have a divisor that the path's intervals exclude from being zero, and must not "
               "be MIN / -1; conversions are checked for every ordered pair of types; and every folded expression kind is checked "
               "to combine its operands' constants as the unfolded expression would.")

MIRROR = {"int_d": (64, True), "uint_d": (64, False), "float_d": "f", "double_d": "d"}
BIN = {"OP_ADD": "+", "OP_SUB": "-", "OP_MUL": "*", "OP_DIV": "/", "OP_MOD": "%", "OP_BXOR": "^", "OP_BOR": "|", "OP_BAND": "&",
       "OP_LSHIFT": "<<", "OP_RSHIFT": ">>", "OP_LESS": "<", "OP_GREATER": ">", "OP_LESS_EQ": "<=", "OP_GREATER_EQ": ">=",
       "OP_EQUAL": "==", "OP_NOT_EQUAL": "!="}
REL = ("OP_LESS", "OP_GREATER", "OP_LESS_EQ", "OP_GREATER_EQ", "OP_EQUAL", "OP_NOT_EQUAL")
short = lambda s: s[3:].lower()
R = ("g", "#r")


class Fold:
    def __init__(self, ctx, abi):
        self.ctx, self.P, self.abi = ctx, ctx.P, abi
        self.sz = sizes(abi)

    def w(self, s):
        return 8 if s == "ST_BOOL" else self.sz[s] * 8

    def const(self, name, t, st=None):
        d = [("type", self.P.enum("CONSTANT_TYPE")), ("data_type", t)]
        for m in MIRROR:
            d.append((m, ("p", "%s.%s" % (name, m))))
        return ("struct", "constant", tuple(d))

    def interp(self, extra=None, inline=(), tus=("src/arch/x64.c",)):
        I = self.ctx.interp(inline=["operators_constant", "operators_constant_unary", "operators_get_result_type", "constant_is_zero",
                                    "constant_normalize", "calculate_size", "is_contained_in", "constant_cast",
                                    "constant_to_u64", "constant_increment"] + TYPE_PREDS + abi_inline(self.ctx, self.abi) + list(inline),
                            inline_tus=list(tus) + ["src/ir/operators.c"], models=dict(TYPE_MODELS, **(extra or {})),
                            globals_const=abi_genv(self.ctx, self.abi), load_hook=hooks(type_hook, *self.xh))
        I.typed, I.mirror = True, MIRROR
        I.max_rec = 4
        return I
    xh = ()

    def facts(self, I, name, s):
        f = {}
        for m, sg in (("int_d", True), ("uint_d", False)):
            I.tt[("p", "%s.%s" % (name, m))] = (64, sg)
        if s in INTS:
            lo, hi = rng(s, self.abi)
            if s in SIGNED:
                f[("p", name + ".int_d")] = ("iv", lo, hi, frozenset())
            else:
                f[("p", name + ".uint_d")] = ("iv", lo, hi, frozenset())
                if hi < 1 << 63:
                    f[("p", name + ".int_d")] = ("iv", lo, hi, frozenset())
        return f

    def atom(self, name, s):
        if s == "ST_FLOAT":
            return ("p", name + ".float_d")
        if s == "ST_DOUBLE":
            return ("p", name + ".double_d")
        return ("p", name + (".int_d" if s in SIGNED else ".uint_d"))

    def res(self, p, loc=R):
        """fields of the constant stored at loc"""
        I = self.I
        return lambda m: I.rd(p.st, ("f", loc, m))


def fcanon(t):
    """normal form of a floating term"""
    if isinstance(t, tuple) and t[0] == "fb":
        a, b = fcanon(t[3]), fcanon(t[4])
        if t[1] in ("+", "*", "==") and repr(b) < repr(a):
            a, b = b, a
        return ("fb", t[1], a, b)
    if isinstance(t, tuple) and t[0] in ("!",):
        return ("!", fcanon(t[1]))
    if isinstance(t, tuple) and t[0] == "cvt":
        return ("cvt", t[1], fcanon(t[2]))
    if isinstance(t, tuple) and t[0] == "u":
        return ("u", t[1], fcanon(t[2]))
    return t


def fstrip(t, ty):
    """a float term computed in TY or wider and rounded to TY: strip conversions of atoms to double that are exact"""
    if isinstance(t, tuple) and t[0] == "cvt" and isinstance(t[2], tuple) and t[2][0] == "p" and t[2][1].endswith("float_d"):
        return t[2]
    if isinstance(t, tuple) and t[0] == "fb":
        return ("fb", t[1], fstrip(t[3], ty), fstrip(t[4], ty))
    if isinstance(t, tuple) and t[0] == "!":
        return ("!", fstrip(t[1], ty))
    if isinstance(t, tuple) and t[0] == "u":
        return ("u", t[1], fstrip(t[2], ty))
    return t


def fspec(op, a, b):
    if op == ">":
        return ("fb", "<", b, a)
    if op == ">=":
        return ("fb", "<=", b, a)
    if op == "!=":
        return ("!", ("fb", "==", a, b))
    return ("fb", op, a, b)


def feq(t, spec):
    def n(x):
        if isinstance(x, tuple) and x[0] == "cvt" and isinstance(x[2], tuple) and x[2][0] == "fb":
            x = x[2]
        x = fstrip(x, None)
        if isinstance(x, tuple) and x[0] == "fb" and x[1] in ("+", "*", "==") and repr(x[3]) < repr(x[2]):
            x = ("fb", x[1], x[3], x[2])
        if isinstance(x, tuple) and x[0] == "!":
            return ("!", n(x[1]))
        return x
    if spec[0] == "fb":
        spec = ("fb", spec[1], spec[-2], spec[-1])
    if spec[0] == "fb" and spec[1] in ("+", "*", "==") and repr(spec[3]) < repr(spec[2]):
        spec = ("fb", spec[1], spec[3], spec[2])
    if spec[0] == "!":
        return isinstance(t, tuple) and t[0] == "!" and feq(t[1], spec[1])
    return n(t) == spec


def truth(I, p, t, cond):
    """T is the 0/1 value of integer comparison COND=(op,a,b) (canonical), or a path constant consistent with it"""
    c = lib_bits.canon
    lib_bits._TT = I.tt
    op, a, b = cond
    neg = False
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    elif op == "!=":
        op, neg = "==", True
    want = ("b", op, a, b)
    if isinstance(t, int):
        for x, tv in p.conds:
            if isinstance(x, tuple):
                if c(x) == c(want):
                    return bool(t) == (tv != neg)
                if x[0] == "!" and c(x[1]) == c(want):
                    return bool(t) == ((not tv) != neg)
                k = x if x[0] != "!" else x[1]
                if k[0] == "b" and k[1] in ("<", "<=") and c(("b", {"<": "<=", "<=": "<"}[k[1]], k[3], k[2])) == c(want):
                    v = not (tv if x[0] != "!" else not tv)
                    return bool(t) == (v != neg)
        return False
    t = boolean(t)
    while isinstance(t, tuple) and t[0] == "!" and isinstance(t[1], tuple) and t[1][0] == "!":
        t = t[1][1]
    inv = False
    if isinstance(t, tuple) and t[0] == "!":
        t, inv = t[1], True
    t = unsc(t)
    if c(t) == c(want):
        return inv == neg
    # a<b  <=>  !(b<=a)
    if op in ("<", "<=") and c(t) == c(("b", {"<": "<=", "<=": "<"}[op], b, a)):
        return inv != neg
    return False


def run(ctx):
    ctx.rule("binop", "folding OP on two constants of type T yields the C result in T (int 0/1 for comparisons)")
    ctx.rule("folds", "an operation whose operands do not make it undefined is folded")
    ctx.rule("trap", "a host division executed while folding never has a zero divisor nor overflows")
    ctx.rule("unop", "folding + - ~ yields the C result in the operand type")
    ctx.rule("cast", "converting a constant from T1 to T2 yields the value the run-time conversion yields")
    ctx.rule("zero", "the zero test used by folded conditions inspects the constant's own representation")
    ctx.rule("kind", "each folded expression kind combines its operands' constants like the unfolded expression")
    ctx.rule("incr", "successive enumerators are consecutive")
    tasks = []
    for abi in ("sysv", "ms"):
        abi_env(ctx, abi)
        for op in BIN:
            tasks.append(lambda abi=abi, op=op: binops(ctx, abi, op))
        tasks.append(lambda abi=abi: unops(ctx, abi))
        for s in ARITH:
            tasks.append(lambda abi=abi, s=s: casts(ctx, abi, s))
    tasks.append(lambda: zero(ctx))
    tasks.append(lambda: kinds(ctx))
    ctx.parallel(tasks)


def divs(ctx, I, ps, inst):
    for p in ps:
        for e in p.events:
            if e.k == "div":
                a, b = e.x["a"], e.x["b"]
                nz = (b[1] is not None and b[1] > 0) or (b[2] is not None and b[2] < 0) or 0 in b[3]
                ctx.ob("trap", "%s.zero" % inst, nz, e.loc, "host %s by a constant that may be zero while folding %s" % (e.name, inst))
                ty = e.x["ty"]
                if ty and ty[1] and ty[0] == 64:
                    mn = -(1 << 63)
                    ok = (b[1] is not None and b[1] > -1) or (b[2] is not None and b[2] < -1) or -1 in b[3] or \
                        (a[1] is not None and a[1] > mn) or mn in a[3]
                    ctx.ob("trap", "%s.overflow" % inst, ok, e.loc,
                           "host %s may compute the most negative value by -1 while folding %s" % (e.name, inst))


def binops(ctx, abi, op):
    P = ctx.P
    F = Fold(ctx, abi)
    o = BIN[op]
    for s in ["ST_INT", "ST_UINT", "ST_LONG", "ST_ULONG", "ST_LLONG", "ST_ULLONG", "ST_FLOAT", "ST_DOUBLE"]:
        flt = s in ("ST_FLOAT", "ST_DOUBLE")
        if flt and op in ("OP_MOD", "OP_BXOR", "OP_BOR", "OP_BAND", "OP_LSHIFT", "OP_RSHIFT"):
            continue
        I = F.interp()
        t = simple(P, s)
        A, B = F.atom("a", s), F.atom("b", s)
        facts = {**F.facts(I, "a", s), **F.facts(I, "b", s)}
        if op in ("OP_LSHIFT", "OP_RSHIFT"):
            for m in ("int_d", "uint_d"):
                facts[("p", "b." + m)] = ("iv", 0, F.w(s) - 1, frozenset())
        inst = "%s.%s.%s" % (abi, o, short(s))
        ps = ctx.run(I, "operators_constant", args={0: P.enum(op), 1: F.const("a", t), 2: F.const("b", t), 3: ("addr", R)}, facts=facts)
        bad = I.take_dead()
        divs(ctx, I, ps + bad, inst)
        folded = [p for p in ps if p.ret == 1 or (isinstance(p.ret, int) and p.ret)]
        ctx.ob("folds", inst, len(folded) >= 1 and not bad, "operators_constant", "%s on %s is not folded (%d errors)" % (o, s, len(bad)))
        for p in ps:
            if p in folded:
                continue
            # refusing is allowed only for an undefined operation
            ok = o in ("/", "%") and not flt
            if ok:
                ib = I.interval(p.st, B)
                ia = I.interval(p.st, A)
                ok = (ib[1] == ib[2] and ib[1] in (0, -1)) or (s in SIGNED and ib[1] == -1 and ib[2] == 0)
            ctx.ob("folds", inst + ".refused", ok, "operators_constant", "%s on %s is refused although it is defined" % (o, s))
        for p in folded:
            g = lambda m: I.rd(p.st, ("f", R, m))
            rt = simple(P, "ST_INT") if op in REL else t
            ok = g("data_type") == rt and g("type") == P.enum("CONSTANT_TYPE")
            msg = "type %s" % show(g("data_type"))
            if ok and op in REL:
                v = g("int_d")
                ok = feq(v, fspec(o, A, B)) if flt else truth(I, p, v, (o, A, B))
                msg = "value %s" % show(v)
            elif ok and flt:
                v = g("float_d" if s == "ST_FLOAT" else "double_d")
                ok = feq(v, fspec(o, A, B))
                msg = "value %s" % show(v)
            elif ok:
                v = g("int_d" if s in SIGNED else "uint_d")
                want = ("b", o, A, B)
                if o == "/" and s in SIGNED and I.interval(p.st, B)[1:3] == (-1, -1):
                    want = ("u", "-", A)
                elif o == "%" and s in SIGNED and I.interval(p.st, B)[1:3] == (-1, -1):
                    want = 0
                ok = bool(reduces(I, p, v, F.w(s), s in SIGNED, want))
                if not ok and s in SIGNED and o in ("/", "%", "&", "|", "^", ">>"):
                    # exact on operands already in range (MIN / -1 is undefined)
                    ok = unsc(v) == ("b", o, A, B) or (o in "&|^" and lib_bits.canon(v) == lib_bits.canon(("b", o, A, B)))
                msg = "value %s is not the %s result in %s" % (show(v), o, s)
            ctx.ob("binop", inst, ok, "operators_constant", "%s on %s (%s): %s" % (o, s, abi, msg))


def unops(ctx, abi):
    P = ctx.P
    F = Fold(ctx, abi)
    for s in ["ST_INT", "ST_UINT", "ST_LONG", "ST_ULONG", "ST_LLONG", "ST_ULLONG", "ST_FLOAT", "ST_DOUBLE"]:
        flt = s in ("ST_FLOAT", "ST_DOUBLE")
        for op in ("UOP_PLUS", "UOP_NEG", "UOP_BNOT"):
            if flt and op == "UOP_BNOT":
                continue
            I = F.interp()
            t = simple(P, s)
            A = F.atom("a", s)
            inst = "%s.%s.%s" % (abi, op, short(s))
            ps = ctx.run(I, "operators_constant_unary", args={0: P.enum(op), 1: F.const("a", t), 2: ("addr", R)}, facts=F.facts(I, "a", s))
            bad = I.take_dead()
            ctx.ob("folds", inst, len(ps) >= 1 and not bad and all(p.ret == 1 for p in ps), "operators_constant_unary", "not folded")
            for p in ps:
                g = lambda m: I.rd(p.st, ("f", R, m))
                v = g({"ST_FLOAT": "float_d", "ST_DOUBLE": "double_d"}.get(s, "int_d" if s in SIGNED else "uint_d"))
                if flt:
                    ok = v == A if op == "UOP_PLUS" else fstrip(v, s) in (("u", "-", A),) or \
                        (isinstance(v, tuple) and v[0] == "cvt" and fstrip(v[2], s) == ("u", "-", A))
                else:
                    want = {"UOP_PLUS": A, "UOP_NEG": ("u", "-", A), "UOP_BNOT": ("u", "~", A)}[op]
                    ok = bool(reduces(I, p, v, F.w(s), s in SIGNED, want)) or \
                        (s in SIGNED and op == "UOP_BNOT" and unsc(v) == want)     # exact on an operand already in range
                ok = ok and g("data_type") == t and g("type") == P.enum("CONSTANT_TYPE")
                ctx.ob("unop", inst, ok, "operators_constant_unary", "%s of %s gives %s" % (op, s, show(v)))
    # enumerators
    I = F.interp()
    t = simple(P, "ST_INT")
    facts = F.facts(I, "a", "ST_INT")
    for p in ctx.run(I, "constant_increment", args={0: F.const("a", t)}, facts=facts):
        tmp = ("v", "x", "tmp", 0)
        p.st.mem[tmp] = p.ret
        v = I.rd(p.st, ("f", tmp, "int_d"))
        ctx.ob("incr", abi, lineq(lin(v), {("p", "a.int_d"): 1, None: 1}) and I.rd(p.st, ("f", tmp, "data_type")) == t,
               "constant_increment", "next enumerator is %s" % show(v))


def casts(ctx, abi, a):
    P = ctx.P
    F = Fold(ctx, abi)
    for b in ARITH + ["ST_VOID"]:
        if a == b:
            continue
        I = F.interp()
        inst = "%s.%s.%s" % (abi, short(a), short(b))
        A = F.atom("a", a)
        facts = F.facts(I, "a", a)
        ps = ctx.run(I, "constant_cast", args={0: F.const("a", simple(P, a)), 1: simple(P, b)}, facts=facts)
        bad = I.take_dead()
        ctx.ob("folds", "cast." + inst, len(ps) >= 1 and not bad, "constant_cast", "conversion not folded")
        divs(ctx, I, ps + bad, inst)
        for p in ps:
            tmp = ("v", "x", "tmp", 0)
            p.st.mem[tmp] = p.ret
            g = lambda m: I.rd(p.st, ("f", tmp, m))
            ok, msg = g("data_type") == simple(P, b) and g("type") == P.enum("CONSTANT_TYPE"), "type %s" % show(g("data_type"))
            fa, fb = a in ("ST_FLOAT", "ST_DOUBLE"), b in ("ST_FLOAT", "ST_DOUBLE")
            if ok and b == "ST_BOOL":
                v = g("uint_d")
                if fa:
                    eqz = [(x, tv) for x, tv in p.conds if isinstance(x, tuple) and "==" in str(x)]
                    z = feq_zero(v, A) if not isinstance(v, int) else any(
                        feq_zero(("!", x), A) and bool(v) == (not tv) or feq_zero(x, A) and bool(v) == tv for x, tv in p.conds
                        if isinstance(x, tuple))
                    ok = z
                else:
                    ok = truth(I, p, v, ("!=", A, 0)) or (isinstance(v, int) and boolpath(I, p, A, v))
                msg = "value %s, must be (x != 0)" % show(v)
            elif ok and b != "ST_VOID" and not fa and not fb:
                v = g("int_d" if b in SIGNED else "uint_d")
                ok = bool(reduces(I, p, v, F.w(b), b in SIGNED, A))
                msg = "value %s is not the low %d bits %s-extended" % (show(v), F.w(b), "sign" if b in SIGNED else "zero")
            elif ok and fb and not fa:
                v = g("float_d" if b == "ST_FLOAT" else "double_d")
                x = v
                while isinstance(x, tuple) and x[0] == "cvt" and x[1] in ("float", "double"):
                    x = x[2]
                ok = isinstance(v, tuple) and v[0] == "cvt" and v[1] == ("float" if b == "ST_FLOAT" else "double") and \
                    x == A or (isinstance(x, tuple) and unsc(x) == A and signedness(x, I.tt) == (a in SIGNED))
                if ok and b == "ST_FLOAT" and isinstance(v[2], tuple) and v[2][0] == "cvt":
                    ok = False      # double rounding
                msg = "value %s" % show(v)
            elif ok and fa and fb:
                v = g("float_d" if b == "ST_FLOAT" else "double_d")
                ok = v in (A, ("cvt", "float" if b == "ST_FLOAT" else "double", A))
                msg = "value %s" % show(v)
            elif ok and fa and b != "ST_VOID":
                v = g("int_d" if b in SIGNED else "uint_d")
                ok, msg = ftoi(I, p, v, A, F.w(b), b in SIGNED), "value %s" % show(v)
            ctx.ob("cast", inst, ok, "constant_cast", "%s -> %s (%s): %s" % (a, b, abi, msg))


def boolpath(I, p, A, v):
    iv = I.interval(p.st, A)
    if v == 0:
        return iv[1] == iv[2] == 0
    return v == 1 and (0 in iv[3] or (iv[1] is not None and iv[1] > 0) or (iv[2] is not None and iv[2] < 0))


def feq_zero(v, A):
    """v is the value of A != 0"""
    if isinstance(v, tuple) and v[0] == "!" and isinstance(v[1], tuple):
        w = v[1]
        if w[0] == "!" and fstrip(w[1], None) == A:
            return True
        if w[0] == "fb" and w[1] == "==":
            x, y = fstrip(w[3], None), fstrip(w[4], None)
            return (x == A and zero_t(y)) or (y == A and zero_t(x))
    return False


def zero_t(y):
    return y == 0 or (isinstance(y, tuple) and (y == ("flt", 0.0) or (y[0] == "cvt" and zero_t(y[2]))))


def ftoi(I, p, v, A, w, signed):
    """v is the truncation of A to an integer, reduced to w bits (values outside the type are undefined)"""
    conv = []

    def find(t):
        if isinstance(t, tuple):
            if t[0] == "cvt" and t[1] not in ("float", "double") and t[2] == A:
                conv.append(t)
                return
            for q in t:
                find(q)
    find(v)
    if not conv:
        return False
    c = conv[0]
    if any(x != c for x in conv):
        return False
    from absint import inttype
    ty = inttype(c[1])
    if not ty:
        return False
    need = (w, signed)
    if ty[0] < w or (ty[0] == w and ty[1] != signed):
        return False
    return bool(reduces(I, p, v, w, signed, c))


def zero(ctx):
    P = ctx.P
    F = Fold(ctx, "sysv")
    for s in ARITH + ["ptr"]:
        I = F.interp(inline=["constant_is_zero"], tus=("src/arch/x64.c",))
        t = ptr(simple(P, "ST_INT")) if s == "ptr" else simple(P, s)
        C = F.const("a", t)
        facts = F.facts(I, "a", s if s != "ptr" else "ST_ULONG")
        ps = ctx.run(I, "constant_is_zero", args={0: ("addr", R)}, mem={R: C}, facts=facts)
        A = F.atom("a", s if s != "ptr" else "ST_ULONG")
        ok = len(ps) >= 1 and not I.take_dead()
        for p in ps:
            v = p.ret
            if s in ("ST_FLOAT", "ST_DOUBLE"):
                good = not isinstance(v, int) and feq_zero(("!", v), A)
                if isinstance(v, int):
                    good = any(isinstance(x, tuple) and feq_zero(("!", x), A) and bool(v) == tv for x, tv in p.conds)
            else:
                good = truth(I, p, v, ("==", A, 0)) or (isinstance(v, int) and boolpath(I, p, A, int(not v)))
            ok = ok and good
            msg = show(v)
        ctx.ob("zero", s, ok, "constant_is_zero", "zero test of %s is %s" % (s, msg if ps else "never answered"))
    # a non-CONSTANT_TYPE constant (an address) is never zero
    I = F.interp()
    C = dict(F.const("a", ptr(simple(P, "ST_INT")))[2])
    C["type"] = P.enum("CONSTANT_LABEL_POINTER")
    ps = ctx.run(I, "constant_is_zero", args={0: ("addr", R)}, mem={R: ("struct", "constant", tuple(C.items()))})
    ctx.ob("zero", "label", [p.ret for p in ps] == [0], "constant_is_zero", "address constants are not zero")


def kinds(ctx):
    """evaluate_constant_expression, one level: sub-evaluations are modelled"""
    P = ctx.P
    fn = "evaluate_constant_expression"

    class K(Fold):
        pass
    F = K(ctx, "sysv")
    tab = {}

    def setup(consts):
        """consts: {objname: (constant kind, type, extra fields) or None}"""
        def m_eval(I, st, a, n, f):
            o = a[0]
            if o == ("ob", "E"):
                return None
            c = consts.get(o[1]) if isinstance(o, tuple) and o[0] == "ob" else None
            if c is None:
                return [(st, 0)]
            if isinstance(a[1], tuple) and a[1][0] == "addr":
                I.write(st, a[1][1], c)
            return [(st, 1)]
        F.xh = (obj_hook(tab),)
        def cm(name, r):
            def m(I, st, a, n, f):
                from absint import Ev
                st.ev = (st.ev, Ev("call", name, a, "?", "?"))
                if isinstance(a[-1], tuple) and a[-1][0] == "addr":
                    I.write(st, a[-1][1], ("fn", name, a[:-1]))
                return [(st, r)]
            return m
        mod = {"operators_constant": cm("operators_constant", 1), "operators_constant_unary": cm("operators_constant_unary", 1),
               "constant_cast": lambda I, st, a, n, f: [(st, ("fn", "constant_cast", a))],
               "type_select": lambda I, st, a, n, f: [(st, ("fn", "type_select", a))],
               "type_get_offsets": m_offsets}
        I = F.interp(extra=mod, inline=[fn])
        # only the outermost call is the real one
        real = I.inline_pred
        base = m_eval
        I.models[fn] = base
        return I

    off = {"bit": -1}

    def m_offsets(I, st, a, n, f):
        for i, v in ((2, ("p", "off")), (3, 0), (4, off["bit"])):
            if isinstance(a[i], tuple) and a[i][0] == "addr":
                I.write(st, a[i][1], v)
        return [(st, 0)]

    def go(kind, fields, consts):
        tab.clear()
        tab[("E", "type")] = P.enum(kind)
        for k, v in fields.items():
            tab[("E", k)] = v
        for o, c in consts.items():
            tab[(o, "type")] = P.enum("E_CONSTANT") if c is not None else P.enum("E_SYMBOL")
            if c is not None:
                tab[(o, "constant")] = c
                tab[(o, "data_type")] = dict(c[2])["data_type"]
            else:
                tab.setdefault((o, "data_type"), simple(P, "ST_INT"))
        I = setup(consts)
        ps = ctx.run(I, fn, args={0: ("ob", "E"), 1: ("addr", R)})
        I.take_dead()
        out = []
        for p in ps:
            out.append((p.ret, p, I))
        return out

    ti, tu = simple(P, "ST_INT"), simple(P, "ST_UINT")
    tp = ptr(ti)

    def cst(n, t=ti):
        return F.const(n, t)

    def lab(kind, n, t, label=None):
        return ("struct", "constant", (("type", P.enum(kind)), ("data_type", t),
                                       ("label", ("struct", "l", (("label", ("p", n + ".label") if label is None else label),
                                                                  ("offset", ("p", n + ".offset")))))))

    def fld(I, p, m):
        v = I.rd(p.st, R)
        return I.rd(p.st, ("f", R, m))

    def same(I, p, c):
        return fld(I, p, "int_d") == dict(c[2])["int_d"] and fld(I, p, "data_type") == dict(c[2])["data_type"]
    A, B, C = ("ob", "A"), ("ob", "B"), ("ob", "C")
    args = lambda *x: ("arr", tuple(enumerate(x)))
    # E_CONSTANT
    ca, cb, cc = cst("a"), cst("b"), cst("c")
    r = go("E_CONSTANT", {"constant": ca}, {})
    ctx.ob("kind", "constant", len(r) == 1 and r[0][0] == 1 and same(r[0][2], r[0][1], ca), fn, "a constant folds to itself")
    # conditional
    r = go("E_CONDITIONAL", {"args": args(C, A, B), "data_type": ti}, {"A": ca, "B": cb, "C": cc})
    ok = len(r) >= 2
    seen = set()
    for ret, p, I in r:
        if ret != 1:
            ok = False
            continue
        iv = I.interval(p.st, ("p", "c.int_d"))
        isz = iv[1] == 0 and iv[2] == 0
        notz = 0 in iv[3]
        if isz:
            ok = ok and same(I, p, cb)
        elif notz:
            ok = ok and same(I, p, ca)
        else:
            ok = False
        seen.add(isz)
    ctx.ob("kind", "conditional", ok and seen == {True, False}, fn, "?: selects the second operand when the first is nonzero, "
           "the third when it is zero")
    for miss in ("A", "B", "C"):
        cs = {"A": ca, "B": cb, "C": cc}
        cs[miss] = None
        r = go("E_CONDITIONAL", {"args": args(C, A, B), "data_type": ti}, cs)
        ctx.ob("kind", "conditional-no%s" % miss, all(x[0] == 0 for x in r) or miss != "C", fn, "?: with a non-constant condition folds")
    r = go("E_COMMA", {"args": args(A, B), "data_type": ti}, {"A": ca, "B": cb})
    ctx.ob("kind", "comma", len(r) == 1 and r[0][0] == 1 and same(r[0][2], r[0][1], cb), fn, "comma folds to its right operand")
    r = go("E_COMMA", {"args": args(A, B), "data_type": ti}, {"A": None, "B": cb})
    ctx.ob("kind", "comma-left", all(x[0] == 0 for x in r), fn, "comma with a non-constant left operand folds, dropping its effects")
    for k in ("E_SYMBOL", "E_CALL", "E_ASSIGNMENT", "E_ASSIGNMENT_OP", "E_ASSIGNMENT_POINTER", "E_VARIABLE"):
        r = go(k, {"args": args(A, B), "data_type": ti}, {"A": ca, "B": cb})
        ctx.ob("kind", "never-%s" % k, all(x[0] == 0 for x in r), fn, "%s is treated as a constant" % k)
    # operators
    for k, f, fieldname in (("E_BINARY_OP", "operators_constant", "binary_op"), ("E_UNARY_OP", "operators_constant_unary", "unary_op")):
        r = go(k, {"args": args(A, B), fieldname: ("p", "op"), "data_type": ti}, {"A": ca, "B": cb})
        ok = len(r) == 1 and r[0][0] == 1
        if ok:
            es = r[0][1].calls(f)
            ok = len(es) == 1 and es[0].args[0] == ("p", "op") and "a.int_d" in show(es[0].args[1]) and \
                (k == "E_UNARY_OP" or ("b.int_d" in show(es[0].args[2]) and "a.int_d" not in show(es[0].args[2]))) and \
                "b.int_d" not in show(es[0].args[1])
        ctx.ob("kind", k, ok, fn, "operands are passed in order to the folding function")
        for miss in ("A", "B") if k == "E_BINARY_OP" else ("A",):
            cs = {"A": ca, "B": cb}
            cs[miss] = None
            r = go(k, {"args": args(A, B), fieldname: ("p", "op"), "data_type": ti}, cs)
            ctx.ob("kind", "%s-no%s" % (k, miss), all(x[0] == 0 for x in r), fn, "folds although an operand is not constant")
    r = go("E_CAST", {"cast": ("struct", "cast", (("arg", A), ("target", tu))), "data_type": tu}, {"A": ca})
    ok = len(r) == 1 and r[0][0] == 1
    if ok:
        v = r[0][2].rd(r[0][1].st, R)
        ok = isinstance(v, tuple) and v[:2] == ("fn", "constant_cast") and v[2][1] == tu and "a.int_d" in show(v[2][0])
    ctx.ob("kind", "cast", ok, fn, "a cast folds by converting the operand's constant to the target type")
    # address constants
    big = array(ti, 10)
    sd = struct("S")
    lp = lab("CONSTANT_LABEL_POINTER", "l", tp)
    for k, sg in (("E_POINTER_ADD", 1), ("E_POINTER_SUB", -1)):
        r = go(k, {"args": args(A, B), "data_type": tp}, {"A": lp, "B": cb})
        ok = len(r) == 1 and r[0][0] == 1
        if ok:
            p, I = r[0][1], r[0][2]
            o = I.rd(p.st, ("f", ("f", R, "label"), "offset"))
            ok = lineq({k2: v for k2, v in lin_sc(o).items()}, {("p", "l.offset"): 1, ("p", "b.int_d"): 4 * sg}) and \
                I.rd(p.st, ("f", ("f", R, "label"), "label")) == ("p", "l.label") and fld(I, p, "data_type") == tp
        ctx.ob("kind", k, ok, fn, "address arithmetic folds to label offset +/- index * element size")
    r = go("E_ADDRESS_OF", {"args": args(A), "data_type": tp}, {"A": lab("CONSTANT_LABEL", "l", ti)})
    ok = len(r) == 1 and r[0][0] == 1 and fld(r[0][2], r[0][1], "type") == P.enum("CONSTANT_LABEL_POINTER") and \
        fld(r[0][2], r[0][1], "data_type") == tp and \
        r[0][2].rd(r[0][1].st, ("f", ("f", R, "label"), "offset")) == ("p", "l.offset")
    ctx.ob("kind", "address-of", ok, fn, "& of a static object is its address")
    r = go("E_ADDRESS_OF", {"args": args(A), "data_type": tp}, {"A": ca})
    ctx.ob("kind", "address-of-value", all(x[0] == 0 for x in r), fn, "& of a value is not a constant")
    r = go("E_INDIRECTION", {"args": args(A), "data_type": ti}, {"A": lp})
    ok = len(r) == 1 and r[0][0] == 1 and fld(r[0][2], r[0][1], "type") == P.enum("CONSTANT_LABEL") and \
        fld(r[0][2], r[0][1], "data_type") == ti and \
        r[0][2].rd(r[0][1].st, ("f", ("f", R, "label"), "offset")) == ("p", "l.offset")
    ctx.ob("kind", "indirection", ok, fn, "* of an address constant designates the object there")
    r = go("E_ARRAY_PTR_DECAY", {"args": args(A), "data_type": tp}, {"A": lab("CONSTANT_LABEL", "l", big)})
    ok = len(r) == 1 and r[0][0] == 1 and fld(r[0][2], r[0][1], "type") == P.enum("CONSTANT_LABEL_POINTER") and \
        fld(r[0][2], r[0][1], "data_type") == tp and \
        r[0][2].rd(r[0][1].st, ("f", ("f", R, "label"), "offset")) == ("p", "l.offset")
    ctx.ob("kind", "decay", ok, fn, "an array decays to the address of its first element")
    off["bit"] = -1
    r = go("E_DOT_OPERATOR", {"member": ("struct", "m", (("lhs", A), ("member_idx", ("p", "idx")))), "data_type": ti},
           {"A": lab("CONSTANT_LABEL", "l", sd)})
    ok = len(r) == 1 and r[0][0] == 1
    if ok:
        p, I = r[0][1], r[0][2]
        o = I.rd(p.st, ("f", ("f", R, "label"), "offset"))
        ok = lineq(lin_sc(o), {("p", "l.offset"): 1, ("p", "off"): 1}) and fld(I, p, "type") == P.enum("CONSTANT_LABEL")
    ctx.ob("kind", "member", ok, fn, "a member's address is the object's plus the member offset")
    off["bit"] = 3
    r = go("E_DOT_OPERATOR", {"member": ("struct", "m", (("lhs", A), ("member_idx", ("p", "idx")))), "data_type": ti},
           {"A": lab("CONSTANT_LABEL", "l", sd)})
    ctx.ob("kind", "bitfield-member", all(x[0] == 0 for x in r), fn, "a bit-field has no address constant")


FLOORS = {"binop": 180, "cast": 300, "unop": 40, "zero": 14, "kind": 25, "trap": 10}
