"""#if expressions: grammar, arithmetic and evaluation order of the controlling expression."""
from lib import *
from lib_pp import *
from absint import Limit
import itertools

EXPLANATION = ("Abstract interpretation of the directive loop on #if lines. Grammar: every pair of operators around opaque operands "
               "must group as C's precedence and associativity prescribe (the condition's term is compared). Arithmetic: every "
               "operator is evaluated for every combination of signedness on a lattice of boundary values in 64-bit arithmetic, "
               "wrapped so that both the value and the signedness of the result decide the branch. Evaluation: an operand that is "
               "not evaluated never causes a diagnostic and no host operation with undefined behaviour is executed.")

M = 1 << 64
IMAX = (1 << 63) - 1
VALS = (0, 1, 2, 5, 63, IMAX, IMAX - 1, -1, -2, -7, -IMAX - 1)
UVALS = (0, 1, 2, 63, IMAX, IMAX + 1, M - 1, M - 2)
BINOPS = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5,
        "^": 4, "|": 3, "&&": 2, "||": 1, "?": 0}
CMP = ("<", ">", "<=", ">=", "==", "!=")


class Err(Exception):
    pass


wrap = lambda v, s: ((v + (1 << 63)) % M - (1 << 63)) if s else v % M


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def spec_un(op, a):
    v, s = a
    if op == "!":
        return int(v == 0), True
    return wrap({"-": -v, "~": ~v, "+": v}[op], s), s


def spec_bin(op, a, b, ev=True):
    """(value, signed) of an evaluated operation; Err when it must be diagnosed, None when the standard leaves it undefined"""
    (x, sx), (y, sy) = a, b
    if op == "&&":
        return int(bool(x) and bool(y)), True
    if op == "||":
        return int(bool(x) or bool(y)), True
    if op in ("<<", ">>"):
        if not ev:
            return 0, sx
        if not 0 <= y < 64:
            return None
        r = x << y if op == "<<" else x >> y
        if op == "<<" and sx and (x < 0 or r > IMAX):
            return None
        return wrap(r, sx), sx
    s = sx and sy
    x, y = wrap(x, s), wrap(y, s)
    if op in CMP:
        return int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]), True
    if op in ("/", "%"):
        if not ev:
            return 0, s
        if y == 0 or (s and x == -IMAX - 1 and y == -1):
            raise Err()
        q = tdiv(x, y)
        return (q, s) if op == "/" else (x - q * y, s)
    r = {"*": x * y, "+": x + y, "-": x - y, "&": x & y, "|": x | y, "^": x ^ y}[op]
    if s and op in "*+-" and not -IMAX - 1 <= r <= IMAX:
        return None
    return wrap(r, s), s


class IfExpr:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

    def pp(self, text, extra=None, defs=()):
        P = self.P

        def m_const(I, st, a, n, f):
            s = pp.sv(I, st, a[0])
            st.ev = (st.ev, Ev("operand", s, (), locs(n), f.name if f else "?"))
            c = lambda v, t: ("struct", "constant", (("type", P.enum("CONSTANT_TYPE")), ("data_type", simple(P, t)),
                                                     ("int_d", wrap(v, True)), ("uint_d", wrap(v, False))))
            if s in self.env:
                v, t = self.env[s]
                if not isinstance(v, int):
                    return [(st, ("struct", "constant", (("type", P.enum("CONSTANT_TYPE")), ("data_type", simple(P, t)),
                                                         ("int_d", v), ("uint_d", v), ("float_d", v), ("double_d", v))))]
                return [(st, c(v, t))]
            d = s.rstrip("uUlL")
            if d.isdigit():
                v = int(d)
                return [(st, c(v, "ST_ULLONG" if "u" in s.lower() else "ST_LLONG"))]
            raise AnalysisError("operand " + s)

        def m_get(I, st, a, n, f):
            s = pp.sv(I, st, a[0])
            st.ev = (st.ev, Ev("lookup", s, (), locs(n), f.name if f else "?"))
            return [(st, ("addr", ("g", "#def")) if s in defs else 0)]

        def m_char(I, st, a, n, f):
            return [(st, self.env["chr"])]
        m = dict(TYPE_MODELS, constant_from_string=m_const, define_map_get=m_get, escaped_character_constant_to_int=m_char,
                 impl_warning=lambda I, st, a, n, f: [(st, 0)])
        m.update(extra or {})
        pp = PP(self.ctx, {"f.c": text}, extra=m)
        return pp
    env = {}

    def branch(self, expr, env=None, defs=(), extra=None):
        """-> (list of (path, taken)), list of diagnostics' paths"""
        self.env = dict(env or {})
        pp = self.pp("#if %s\nT\n#else\nF\n#endif\n" % expr, extra, defs)
        I = pp.interp()
        I.max_steps = 200000
        I.typed = True
        self.I = I
        try:
            res = pp.drain(I, pp.start(I), "directiver_next", limit=20)
        except Limit:
            return None, []
        self.ctx.paths += len(res)
        self.ctx.functions |= I.analysed
        return [(s, [t[1] for t in toks]) for s, toks in res], I.take_dead()


def lit(name):
    return name


def run(ctx):
    tasks = []
    sgn = lambda s: "ST_LLONG" if s else "ST_ULLONG"

    def check(rule, inst, expr, env, want, defs=()):
        """WANT: True/False branch, 'err' a diagnostic, None: anything but a crash"""
        E = IfExpr(ctx)
        res, dead = E.branch(expr, env, defs)
        if res is None:
            return ctx.ob(rule, inst, False, "#if", "evaluating '#if %s' does not terminate" % expr)
        diag = [p for p in dead if any(e.k == "noreturn" and e.name.startswith("impl_error") and e.name != "impl_error_ice"
                                       for e in p.events)]
        if want == "err":
            return ctx.ob(rule, inst, not res and len(diag) == len(dead) and bool(dead), "#if",
                          "'#if %s' must be diagnosed; %s" % (expr, [t for _, t in res] or "ends in an internal failure"))
        if want is None:
            return ctx.ob(rule, inst, len(diag) == len(dead), "#if", "'#if %s' ends in an internal failure" % expr)
        got = [t for _, t in res]
        return ctx.ob(rule, inst, got == [["T" if want else "F"]] and not dead, "#if", "'#if %s' with %s selects %s, required %s" %
                      (expr, {k: v[0] for k, v in (env or {}).items()}, got or "a diagnostic", "T" if want else "F"))

    # ------------------------------------------------------------ arithmetic
    ctx.rule("value", "every operator yields the value and the signedness of 64-bit intmax_t/uintmax_t arithmetic")

    def observe(rule, inst, expr, env, r):
        """the value and signedness of EXPR equal r=(v,s): EXPR == v, and (EXPR op) reacting to signedness"""
        v, s = r
        env = dict(env)
        env["9r" if s else "9ru"] = (v, sgn(s))
        check(rule, inst, "(%s) == %s" % (expr, "9r" if s else "9ru"), env, True)
        # 0 * e - 1 < 0 exactly when e is signed
        check(rule, inst + " signedness", "((%s) & 0) - 1 < 0" % expr, env, bool(s))

    def values(op, thorough):
        vs, us = (VALS, UVALS) if thorough else ((0, 1, 5, 63, IMAX, -1, -7, -IMAX - 1), (0, 1, 63, IMAX + 1, M - 1))
        S = [(v, True) for v in vs] + [(v, False) for v in us]
        for a in S:
            for b in S:
                env = {"1a" if a[1] else "1au": (a[0], sgn(a[1])), "2b" if b[1] else "2bu": (b[0], sgn(b[1]))}
                e = "%s %s %s" % ("1a" if a[1] else "1au", op, "2b" if b[1] else "2bu")
                inst = "%s%s %s %s%s" % (a[0], "" if a[1] else "u", op, b[0], "" if b[1] else "u")
                try:
                    r = spec_bin(op, a, b)
                except Err:
                    check("value", inst, e, env, "err")
                    continue
                if r is None:
                    check("value", inst, e, env, None)
                else:
                    observe("value", inst, e, env, r)

    for op in BINOPS:
        tasks.append(lambda op=op: values(op, ctx.tier != "quick"))

    def unary():
        for op in ("-", "~", "!", "+"):
            for a in [(v, True) for v in VALS] + [(v, False) for v in UVALS]:
                n = "1a" if a[1] else "1au"
                if op == "-" and a == (-IMAX - 1, True):
                    continue
                observe("value", "%s %d%s" % (op, a[0], "" if a[1] else "u"), "%s %s" % (op, n), {n: (a[0], sgn(a[1]))}, spec_un(op, a))
        for c in (0, 1, -1):
            for a in ((-1, True), (5, True), (M - 1, False), (0, False)):
                for b in ((-1, True), (7, True), (M - 1, False), (3, False)):
                    na, nb = "1a" + ("" if a[1] else "u"), "2b" + ("" if b[1] else "u")
                    s = a[1] and b[1]
                    r = (wrap((a if c else b)[0], s), s)
                    observe("value", "%d ? %d%s : %d%s" % (c, a[0], "" if a[1] else "u", b[0], "" if b[1] else "u"),
                            "3c ? %s : %s" % (na, nb), {na: (a[0], sgn(a[1])), nb: (b[0], sgn(b[1])), "3c": (c, "ST_LLONG")}, r)
    tasks.append(unary)

    # ------------------------------------------------------------ literals
    ctx.rule("literal", "every integer constant acts as intmax_t unless it has a u suffix or does not fit, identifiers are 0, character "
             "constants have their value, and operands that are no integers are diagnosed")

    def literals():
        for t in ("ST_INT", "ST_LONG", "ST_LLONG"):
            for v in (0, 1, 7, (1 << 31) - 1):
                observe("literal", "%s %d" % (t, v), "1a", {"1a": (v, t)}, (v, True))
        for t, v in (("ST_UINT", 1 << 31), ("ST_UINT", (1 << 32) - 1), ("ST_ULONG", (1 << 32)), ("ST_ULLONG", IMAX)):
            observe("literal", "hex %s %d" % (t, v), "0xa", {"0xa": (v, t)}, (v, True))
            observe("literal", "suffixed %s %d" % (t, v), "0xau", {"0xau": (v, t)}, (v, False))
            observe("literal", "suffixed U %s %d" % (t, v), "0xaUL", {"0xaUL": (v, t)}, (v, False))
        for v in (IMAX + 1, M - 1):
            observe("literal", "hex too large %d" % v, "0xa", {"0xa": (v, "ST_ULLONG")}, (v, False))
        for t in ("ST_UINT", "ST_ULONG", "ST_ULLONG"):
            observe("literal", "1u of %s" % t, "1u", {"1u": (1, t)}, (1, False))
        for v in (0, 65, -1, 255):
            E = IfExpr(ctx)
            for nm, q in (("plain", "'x'"), ("wide", "L'x'")):
                for suffix, want in (("== 9r", True), ("- 9r - 1 < 0", True)):
                    E.env = {}
                    res, dead = None, []
                    pp_env = {"9r": (v, "ST_LLONG"), "chr": v}
                    res, dead = E.branch("%s %s" % (q, suffix), pp_env)
                    ctx.ob("literal", "%s character %d %s" % (nm, v, suffix), res is not None and [t for _, t in res] == [["T"]] and
                           not dead, "#if", "'#if %s %s' selects %s" % (q, suffix, [t for _, t in res or []]))
        for nm in ("id", "int", "while", "defined1", "true"):
            observe("literal", "identifier " + nm, nm, {}, (0, True))
        check("literal", "string", "\"s\"", {}, "err")
        check("literal", "floating constant", "1f", {"1f": (("p", "d"), "ST_DOUBLE")}, "err")
        check("literal", "float constant", "1f", {"1f": (("p", "d"), "ST_FLOAT")}, "err")
    tasks.append(literals)

    # ------------------------------------------------------------ grammar
    ctx.rule("grouping", "operators group by C's precedence and associativity")

    def value_of(tree, env):
        if isinstance(tree, str):
            return env[tree]
        if len(tree) == 2:
            r = value_of(tree[1], env)
            return None if r is None else spec_un(tree[0], r)
        if tree[0] == "?":
            c, a, b = value_of(tree[1], env), value_of(tree[2], env), value_of(tree[3], env)
            if c is None:
                return None
            x = a if c[0] else b
            return None if x is None else (x[0], True)
        a, b = value_of(tree[1], env), value_of(tree[2], env)
        if a is None:
            return None
        if tree[0] == "&&" and not a[0]:
            return 0, True
        if tree[0] == "||" and a[0]:
            return 1, True
        if b is None:
            return None
        try:
            return spec_bin(tree[0], a, b)
        except Err:
            return None

    def show_(t):
        return t if isinstance(t, str) else "(%s)" % (" ".join([t[0], show_(t[1])]) if len(t) == 2 else "%s ? %s : %s" %
                                                      tuple(map(show_, t[1:])) if t[0] == "?" else " ".join([show_(t[1]), t[0], show_(t[2])]))
    POOL = [(x, True) for x in (0, 1, 2, 3, 4, 7, -1, -3)]

    def distinguish(t1, t2, names, limit=4000):
        """operand values for which the two trees differ"""
        import itertools
        n = 0
        for vs in itertools.product(POOL, repeat=len(names)):
            env = dict(zip(names, vs))
            a, b = value_of(t1, env), value_of(t2, env)
            if a is not None and b is not None and bool(a[0]) != bool(b[0]):
                return env
            if a is not None and b is not None and a[0] != b[0]:
                return env
        return None

    def group(expr, good, bad, names):
        env = distinguish(good, bad, names)
        if env is None:
            return
        r = value_of(good, env)
        e = {n: (v[0], "ST_LLONG") for n, v in env.items()}
        e["9r"] = (r[0], "ST_LLONG")
        # parenthesised comparison with the value of the right grouping
        check("grouping", "%s is %s" % (expr, show_(good)), "(%s) == 9r" % expr, e, True)

    def pairs(o1):
        N = ["1a", "2b", "3c"]
        for o2 in BINOPS:
            left = (o2, (o1, "1a", "2b"), "3c")
            right = (o1, "1a", (o2, "2b", "3c"))
            g, b = (left, right) if PREC[o1] >= PREC[o2] else (right, left)
            group("1a %s 2b %s 3c" % (o1, o2), g, b, N)
        for u in "-~!":
            group("%s 1a %s 2b" % (u, o1), (o1, (u, "1a"), "2b"), (u, (o1, "1a", "2b")), N[:2])
            e = {"1a": (3, "ST_LLONG"), "2b": (2, "ST_LLONG")}
            r = value_of((o1, "1a", (u, "2b")), {"1a": (3, True), "2b": (2, True)})
            if r is not None:
                e["9r"] = (r[0], "ST_LLONG")
                check("grouping", "1a %s %s 2b" % (o1, u), "(1a %s %s 2b) == 9r" % (o1, u), e, True)
        N = ["1a", "2b", "3c", "4d"]
        group("1a %s 2b ? 3c : 4d" % o1, ("?", (o1, "1a", "2b"), "3c", "4d"), (o1, "1a", ("?", "2b", "3c", "4d")), N)
        group("1a ? 2b : 3c %s 4d" % o1, ("?", "1a", "2b", (o1, "3c", "4d")), (o1, ("?", "1a", "2b", "3c"), "4d"), N)
        group("1a ? 2b %s 3c : 4d" % o1, ("?", "1a", (o1, "2b", "3c"), "4d"), ("?", "1a", "2b", "4d"), N)
    for op in BINOPS:
        tasks.append(lambda op=op: pairs(op))

    def others():
        N = ["1a", "2b", "3c", "4d", "5e"]
        group("1a ? 2b : 3c ? 4d : 5e", ("?", "1a", "2b", ("?", "3c", "4d", "5e")), ("?", ("?", "1a", "2b", "3c"), "4d", "5e"), N)
        group("1a ? 2b ? 3c : 4d : 5e", ("?", "1a", ("?", "2b", "3c", "4d"), "5e"), ("?", "1a", "2b", "5e"), N)
        group("( 1a + 2b ) * 3c", ("*", ("+", "1a", "2b"), "3c"), ("+", "1a", ("*", "2b", "3c")), N[:3])
        group("1a * ( 2b + 3c )", ("*", "1a", ("+", "2b", "3c")), ("+", ("*", "1a", "2b"), "3c"), N[:3])
        for us in itertools.product("-~!+", repeat=2):
            for v in (0, 3):
                r = spec_un(us[0], spec_un(us[1], (v, True)))
                check("grouping", "%s %s %d" % (us + (v,)), "(%s %s 1a) == 9r" % us, {"1a": (v, "ST_LLONG"), "9r": (r[0], "ST_LLONG")}, True)
        # malformed expressions
        e = {"1a": (1, "ST_LLONG"), "2b": (1, "ST_LLONG")}
        for bad in ("", "1a 2b", "1a +", "+", "( 1a", "1a )", "1a ? 2b", "1a ? 2b :", "1a ? : 2b", "1a : 2b", "( )", "1a = 2b", "1a += 2b",
                    "1a , 2b", "1a ++", "++ 1a", "id ( 1a )", "1a [ 2b ]", "1a . id", "& 1a", "* 1a", "1a -> id", "1a ; 2b", "{ 1a }",
                    "0 && id ( 1a )", "0 && ( 1a = 2b )", "1 || 1a 2b", "defined", "defined ( id", "defined 1a", "defined ( )",
                    "1a && ", "! ", "1a ! 2b", "1a ~ 2b"):
            check("malformed", bad or "nothing", bad, e, "err")
    ctx.rule("malformed", "an ill-formed controlling expression is diagnosed")
    tasks.append(others)

    # ------------------------------------------------------------ short circuit
    ctx.rule("unevaluated", "operands that && || and ?: do not evaluate cause no diagnostic, but take part in the type of the result")

    def short():
        z = {"1a": (1, "ST_LLONG"), "7z": (0, "ST_LLONG"), "8m": (-IMAX - 1, "ST_LLONG"), "6n": (-1, "ST_LLONG"), "5h": (64, "ST_LLONG")}
        for bad in ("1a / 7z", "1a % 7z", "8m / 6n", "8m % 6n", "( 1a / 7z )", "1a + 1a / 7z", "- ( 1a / 7z )", "1a / 7z / 7z",
                    "1a / 7z ? 1a : 1a / 7z", "1a << 5h", "1a >> 6n", "( 1a , 7z )"):
            for expr, r in (("7z && %s", 0), ("7z && ( %s ) && 1a", 0), ("1a || %s", 1), ("1a || ( %s ) || 7z", 1),
                            ("1a ? 1a : %s", 1), ("7z ? %s : 7z", 0), ("7z && ( 1a || %s )", 0), ("7z && ( 7z || %s )", 0),
                            ("1a || ( 1a && %s )", 1), ("7z && ( 1a ? %s : 1a )", 0), ("7z ? ( 1a && %s ) : 1a", 1),
                            ("1a ? 7z : ( 7z || %s )", 0), ("7z && 7z / 1a && %s", 0)):
                b = bad if not bad.startswith("1a / 7z ?") or "(" in expr else "( %s )" % bad
                check("unevaluated", expr % b, expr % b, z, bool(r))
        OUT = (("7z && ( %s )", 0), ("1a || ( %s )", 1), ("1a ? 1a : ( %s )", 1), ("7z ? ( %s ) : 7z", 0))
        INN = ("1a && %s", "7z || %s", "1a ? %s : 1a", "7z ? 1a : %s", "1a + %s", "- %s", "%s ? 1a : 7z", "%s && 1a", "%s || 7z")
        for o, r in OUT:
            for i1 in INN:
                for i2 in INN:
                    e = o % (i1 % ("( %s )" % (i2 % "( 1a / 7z )")))
                    check("unevaluated", e, e, z, bool(r))
        for bad in ("1a / 7z", "1a % 7z", "8m / 6n", "8m % 6n", "( 1a , 7z )"):
            for expr in ("%s", "1a && %s", "7z || %s", "1a ? %s : 1a", "7z ? 1a : %s", "1a && ( 7z || %s )", "! ( %s )", "( %s ) && 7z",
                         "( %s ) || 1a", "( %s ) ? 1a : 1a"):
                check("unevaluated", "evaluated " + expr % bad, expr % bad, z, "err")
        u = {"1a": (1, "ST_LLONG"), "2bu": (0, "ST_ULLONG"), "6n": (-1, "ST_LLONG"), "7z": (0, "ST_LLONG")}
        for expr, r in (("( 1a ? 6n : 2bu ) > 0", True), ("( 7z ? 2bu : 6n ) > 0", True), ("( 1a ? 6n : 7z ) > 0", False),
                        ("( 1a ? 6n : ( 1a + 2bu ) ) > 0", True), ("( 1a ? 6n : ( 1a / 2bu ) ) > 0", True),
                        ("( 1a ? 6n : ( 1a << 2bu ) ) > 0", False), ("( 1a ? 6n : ( 2bu < 1a ) ) > 0", False),
                        ("( 1a ? 6n : ( 2bu && 1a ) ) > 0", False), ("( 1a ? 6n : ! 2bu ) > 0", False),
                        ("( 1a ? 6n : ~ 2bu ) > 0", True), ("( 1a ? 6n : ( 1a ? 1a : 2bu ) ) > 0", True),
                        ("( 1a ? 6n : ( 2bu == 1a ) ) > 0", False), ("( 1a ? 6n : ( 7z % 2bu ) ) > 0", True),
                        ("( 1a ? 6n : ( 7z | 2bu ) ) > 0", True), ("( 1a ? 6n : ( 7z * 2bu ) ) > 0", True)):
            check("unevaluated", expr, expr, u, r)
    tasks.append(short)

    # ------------------------------------------------------------ defined
    ctx.rule("defined", "defined X and defined(X) are 1 exactly when X is a macro, in any position, before macro expansion")

    def defined():
        e = {"1a": (1, "ST_LLONG")}
        for d in (("X",), ()):
            t = "X" in d
            for form in ("defined X", "defined ( X )", "defined(X)"):
                for expr, r in (("%s", t), ("! %s", not t), ("%s && 1a", t), ("1a && %s", t), ("%s == 1a", t), ("- %s < 0", t),
                                ("%s + %s == 2", t), ("%s || defined Y", t), ("defined Y || %s", t), ("( %s )", t), ("%s ? 1a : 0", t),
                                ("0 ? 0 : %s", t), ("%s && defined ( Y )", False)):
                    k = expr.count("%s")
                    check("defined", "%s, X %s" % (expr % ((form,) * k), "defined" if t else "undefined"), expr % ((form,) * k), e, r, d)
    tasks.append(defined)
    ctx.parallel(tasks)


FLOORS = {"value": 2000, "literal": 40, "grouping": 250, "malformed": 30, "unevaluated": 150, "defined": 60}
