"""C10: statements transfer control as C11 6.8 says."""
import random
from absint import show
from lib import *
from lib_cf import *
from lib_e2e import *

EXPLANATION = (
    "parse_function and everything it calls (statement parser, block construction in ir.c) is evaluated abstractly on "
    "concrete statement skeletons whose expressions are opaque tokens; the control graph it builds (IR_IF, IR_REGION, "
    "IR_PROJECT, IR_RETURN nodes and the evaluations placed in each block) is compared with a graph derived "
    "independently from C11 6.8 by exploring the product of the two for every outcome of every condition and every "
    "value of every switch operand, so each comparison covers all executions of the skeleton, including infinite ones. "
    "Skeletons: every statement, all pairs outer/inner with every jump, all case orders, goto patterns, and seeded random "
    "nestings. Programs violating a jump constraint must end in a diagnostic on every path. Conditions and switch "
    "operands of every scalar type are evaluated through the real conversion code.")
ASSUMPTIONS = ["expressions inside skeletons are opaque: their own control flow (&&, ||, ?:) is C11's",
               "the block graph is what code generation emits (C07 branches, C09, C12)"]
FLOORS = {"graph": 400, "reject": 20, "condition": 26, "switch-type": 20}


class Gen:
    """names are unique per skeleton"""
    def __init__(self, rnd=None):
        self.k = 0
        self.r = rnd

    def n(self, p="e"):
        self.k += 1
        return "%s%d" % (p, self.k)

    def x(self):
        return ("expr", self.n("x"))


def wrap_all(g, inner, jumps=()):
    """every statement with INNER() as a body; yields (statement, in_loop, in_switch)"""
    yield ("if", g.n("c"), inner(), None)
    yield ("if", g.n("c"), inner(), g.x())
    yield ("if", g.n("c"), g.x(), inner())
    yield ("while", g.n("c"), inner())
    yield ("do", inner(), g.n("c"))
    yield ("for", g.x(), g.n("c"), g.n("a"), inner())
    yield ("for", ("decl", g.n("d")), g.n("c"), None, inner())
    yield ("for", None, None, g.n("a"), inner())
    yield ("for", None, None, None, inner())
    yield ("switch", g.n("s"), ("block", [("case", g.n("k"), inner()), g.x(), ("case", g.n("k"), g.x()), ("default", g.x())]))
    yield ("switch", g.n("s"), ("block", [("default", inner()), g.x(), ("case", g.n("k"), g.x())]))
    yield ("switch", g.n("s"), ("case", g.n("k"), inner()))
    yield ("block", [g.x(), inner(), g.x()])
    yield ("label", g.n("L"), inner())


LOOP = ("while", "do", "for")


def valid(s, loop=False, sw=False):
    """may S be used with its break/continue in this context?"""
    k = s[0]
    if k == "break":
        return loop or sw
    if k == "continue":
        return loop
    if k in ("case", "default"):
        return sw and valid(s[-1], loop, sw)
    if k in LOOP:
        return valid(s[2] if k == "while" else s[1] if k == "do" else s[4], True, sw)
    if k == "switch":
        return valid(s[2], loop, True)
    if k == "block":
        return all(valid(x, loop, sw) for x in s[1])
    if k == "if":
        return valid(s[2], loop, sw) and (s[3] is None or valid(s[3], loop, sw))
    if k == "label":
        return valid(s[2], loop, sw)
    return True


def atoms(g):
    return [lambda: g.x(), lambda: ("empty",), lambda: ("break",), lambda: ("continue",), lambda: ("return", g.n("r")),
            lambda: ("return", None), lambda: ("if", g.n("c"), ("break",), None), lambda: ("if", g.n("c"), ("continue",), None),
            lambda: ("block", [("if", g.n("c"), ("break",), ("continue",)), g.x()]),
            lambda: ("block", [("if", g.n("c"), ("break",), None), ("if", g.n("c"), ("break",), None), g.x(),
                               ("if", g.n("c"), ("continue",), None), ("if", g.n("c"), ("continue",), None), g.x()]),
            lambda: ("block", [])]


def systematic():
    g = Gen()
    for a in atoms(g):
        s = a()
        if valid(s):
            yield s
    for a in atoms(g):
        for s in wrap_all(g, a):
            if valid(s):
                yield s
    # two levels with the interesting jumps
    for a in [atoms(g)[i] for i in (2, 3, 8)]:
        n = len(list(wrap_all(g, a)))
        for i in range(n):
            def inner(i=i):
                return list(wrap_all(g, a))[i]
            for s in wrap_all(g, inner):
                if valid(s):
                    yield s


def special():
    x = lambda i: ("expr", "x%d" % i)
    case = lambda k, s: ("case", "k%d" % k, s)
    B = lambda *a: ("block", list(a))
    br, co = ("break",), ("continue",)
    # case orders, fall through, default positions
    import itertools
    for perm in itertools.permutations([("case", "k1"), ("case", "k2"), ("case", "k3"), ("default",)]):
        for brk in (0, 1, 2, 3):
            l = []
            for i, p in enumerate(perm):
                l.append(p + (x(i),))
                if brk >> (i & 1) & 1:
                    l.append(br)
            yield ("switch", "s", B(*l))
    # consecutive labels
    yield ("switch", "s", B(case(1, case(2, ("default", case(3, x(1))))), x(2)))
    yield ("switch", "s", B(x(0), case(1, x(1))))
    yield ("switch", "s", B())
    yield ("switch", "s", x(1))
    yield ("switch", "s", B(("decl", "d"), case(1, x(1)), ("default", br), x(2)))
    # labels inside nested statements (Duff)
    yield ("switch", "s", case(0, ("do", B(x(0), case(3, x(3)), case(2, x(2)), case(1, x(1))), "c")))
    yield ("switch", "s", B(("while", "c", B(case(1, x(1)), case(2, B(x(2), br)), ("default", x(3)))), case(4, x(4))))
    yield ("switch", "s", B(("for", None, "c", "a", B(case(1, co), case(2, br), ("default", x(3)))), x(4)))
    yield ("switch", "s", B(("if", "c", B(x(0), case(1, x(1))), B(x(2), ("default", x(3)))), case(2, x(4))))
    yield ("switch", "s", B(case(1, ("if", "c", case(2, x(1)), case(3, x(2)))), br, ("default", x(3))))
    # nested switches: inner labels belong to the inner one, default of each
    yield ("switch", "s", B(case(1, ("switch", "t", B(case(1, x(1)), ("default", x(2)), br, case(2, x(3))))), x(4), br,
                            case(2, x(5)), ("default", x(6))))
    yield ("switch", "s", B(("default", ("switch", "t", B(case(1, br), case(2, x(3))))), x(4), case(3, x(5))))
    yield ("while", "c", ("switch", "s", B(case(1, co), case(2, br), ("default", ("if", "d", co, br)), x(1), co)))
    yield ("do", B(("switch", "s", B(case(1, co), case(2, B(x(1), br)), case(3, ("return", "r")))), x(2)), "c")
    yield ("for", ("expr", "i"), "c", "a", B(("switch", "s", B(("default", co), case(1, x(1)))), ("if", "d", br, None), co))
    # dangling else
    yield ("if", "a", ("if", "b", x(1), x(2)), None)
    yield ("if", "a", B(("if", "b", x(1), None)), x(2))
    yield ("if", "a", ("while", "b", ("if", "c", x(1), x(2))), x(3))
    yield ("if", "a", x(1), ("if", "b", x(2), ("if", "c", x(3), x(4))))
    # goto
    go = lambda l: ("goto", l)
    lab = lambda l, s: ("label", l, s)
    yield B(go("L"), x(1), lab("L", x(2)))
    yield B(lab("L", x(1)), ("if", "c", go("L"), None), x(2))
    yield B(x(0), lab("L", x(1)), ("if", "c", go("L"), None), ("if", "d", go("L"), None), ("if", "e", go("L"), None), x(2))
    yield B(("if", "c", go("L"), None), ("if", "d", go("L"), None), ("if", "e", go("L"), None), x(1), lab("L", x(2)),
            ("if", "f", go("L"), None), ("if", "g", go("L"), None))
    yield B(go("L"), ("while", "c", B(x(1), lab("L", x(2)), x(3))), x(4))
    yield B(go("L"), ("for", ("expr", "i"), "c", "a", B(x(1), lab("L", ("if", "d", co, br)), x(3))), x(4))
    yield B(go("L"), ("do", B(x(1), lab("L", x(2))), "c"), x(4))
    yield B(("if", "c", go("L"), x(1)), ("if", "d", B(x(2), lab("L", x(3))), x(4)), x(5))
    yield B(("while", "a", ("while", "b", B(("if", "c", go("out"), None), x(1)))), x(2), lab("out", x(3)))
    yield B(lab("A", x(1)), go("B"), lab("C", x(2)), ("return", "r"), lab("B", x(3)), ("if", "c", go("A"), go("C")))
    yield B(("switch", "s", B(case(1, go("L")), case(2, x(1)), ("default", lab("L", x(2))))), x(3))
    yield B(lab("A", lab("B", lab("C", x(1)))), ("if", "c", go("A"), None), ("if", "d", go("B"), None), ("if", "e", go("C"), None))
    yield B(lab("A", ("empty",)), go("A"))
    yield B(x(0), lab("A", ("while", "c", B(lab("B", x(1)), ("if", "d", go("A"), None), ("if", "e", go("B"), None), co))))
    # many breaks and continues
    for n in (2, 3, 5):
        l = []
        for i in range(n):
            l += [("if", "b%d" % i, br, None), ("if", "c%d" % i, co, None)]
        yield ("while", "w", B(*l))
        yield ("do", B(*l), "w")
        yield ("for", None, "w", "a", B(*l, x(1)))
        yield ("for", None, None, "a", B(*l, x(1)))
        yield ("switch", "s", B(*[case(i, ("if", "b%d" % i, br, None)) for i in range(n)], x(1)))
        yield ("while", "w", ("switch", "s", B(*[case(i, ("if", "b%d" % i, br, co)) for i in range(n)], x(1))))
    # statements after a jump are unreachable
    yield ("while", "c", B(x(1), br, x(2)))
    yield ("while", "c", B(co, x(2), lab("L", x(3)), ("if", "d", br, None)))
    yield B(("return", "r"), x(1), ("while", "c", br), x(2))
    yield B(("decl", "d"), x(1), ("decl", "d2"), B(("decl", "d3"), x(3)))


def rand(seed):
    r = random.Random(seed)
    g = Gen(r)
    labels, used = [], []

    def st(d, loop, sw):
        if d <= 0:
            c = ["expr"] * 3 + ["empty", "return"] + (["break"] * 2 if loop or sw else []) + (["continue"] * 2 if loop else [])
            if r.random() < .15:
                used.append(r.randrange(3))
                return ("goto", "L%d" % used[-1])
            k = r.choice(c)
            if k == "expr":
                return g.x()
            if k == "return":
                return ("return", g.n("r") if r.random() < .7 else None)
            return (k,)
        k = r.choice(["if", "if", "ifelse", "while", "do", "for", "switch", "block", "block", "block", "case", "label", "atom", "atom"])
        if k == "if":
            return ("if", g.n("c"), blk(d - 1, loop, sw), None)
        if k == "ifelse":
            return ("if", g.n("c"), noif(blk(d - 1, loop, sw)), st(d - 1, loop, sw))
        if k == "while":
            return ("while", g.n("c"), st(d - 1, True, sw))
        if k == "do":
            return ("do", st(d - 1, True, sw), g.n("c"))
        if k == "for":
            return ("for", r.choice([None, g.x(), ("decl", g.n("d"))]), r.choice([None, g.n("c"), g.n("c")]),
                    r.choice([None, g.n("a"), g.n("a")]), st(d - 1, True, sw))
        if k == "switch":
            s = {"def": False}
            return ("switch", g.n("s"), blk(d, loop, s, 4))
        if k == "case" and sw:
            if r.random() < .25 and not sw["def"]:
                sw["def"] = True
                return ("default", st(d - 1, loop, sw))
            return ("case", g.n("k"), st(d - 1, loop, sw))
        if k == "label" and len(labels) < 3:
            labels.append("L%d" % len(labels))
            return ("label", labels[-1], st(d - 1, loop, sw))
        if k == "block":
            return blk(d - 1, loop, sw)
        return st(0, loop, sw)

    def blk(d, loop, sw, n=3):
        l = []
        for _ in range(r.randrange(1, n + 1)):
            if sw and r.random() < .4:
                if r.random() < .2 and not sw["def"]:
                    sw["def"] = True
                    l.append(("default", st(d - 1, loop, sw)))
                else:
                    l.append(("case", g.n("k"), st(d - 1, loop, sw)))
            else:
                l.append(st(d, loop, sw))
        return ("block", l)

    def noif(s):
        return s if s[0] == "block" else ("block", [s])
    body = [st(4, False, None) for _ in range(r.randrange(1, 4))]
    for i in sorted(set(used)):
        if "L%d" % i not in labels:
            body.append(("label", "L%d" % i, g.x()))
    return ("block", body)


INVALID = [
    ("break outside", ("break",)), ("continue outside", ("continue",)),
    ("break in if", ("if", "c", ("break",), None)), ("continue in switch", ("switch", "s", ("block", [("continue",)]))),
    ("continue in switch case", ("switch", "s", ("block", [("case", "k", ("continue",))]))),
    ("break after loop", ("block", [("while", "c", ("expr", "x")), ("break",)])),
    ("continue after loop", ("block", [("do", ("expr", "x"), "c"), ("continue",)])),
    ("continue after for", ("block", [("for", None, None, None, ("expr", "x")), ("continue",)])),
    ("break after switch", ("block", [("switch", "s", ("block", [("case", "k", ("break",))])), ("break",)])),
    ("case outside", ("case", "k", ("expr", "x"))), ("default outside", ("default", ("expr", "x"))),
    ("case after switch", ("block", [("switch", "s", ("block", [("case", "k", ("break",))])), ("case", "k2", ("expr", "x"))])),
    ("default after switch", ("block", [("switch", "s", ("block", [("case", "k", ("break",))])), ("default", ("expr", "x"))])),
    ("case in loop", ("while", "c", ("case", "k", ("expr", "x")))),
    ("default in loop", ("for", None, None, None, ("default", ("expr", "x")))),
    ("undefined label", ("goto", "L")), ("undefined label in loop", ("while", "c", ("goto", "L"))),
    ("one of two undefined", ("block", [("label", "A", ("expr", "x")), ("goto", "A"), ("goto", "B")])),
    ("duplicate label", ("block", [("label", "A", ("expr", "x")), ("label", "A", ("expr", "y"))])),
    ("duplicate label, used", ("block", [("goto", "A"), ("label", "A", ("expr", "x")), ("label", "A", ("expr", "y"))])),
    ("duplicate label, nested", ("block", [("label", "A", ("expr", "x")), ("while", "c", ("label", "A", ("expr", "y")))])),
]


def check_graph(ctx, cf, rid, s, fname="f"):
    body = s if s[0] == "block" else ("block", [s])
    tk = toks(body)
    text_ = ctext(body)
    ims, bad = cf.parse(tk, fname)
    where = "src/parser/function_parser.c"
    msg = None
    if not ims:
        e = bad[0].events[-1] if bad and bad[0].events else None
        msg = "a valid body is rejected" + (" at %s" % e.loc if e else "")
        where = e.loc if e else where
    elif bad:
        msg = "a valid body may be rejected at %s" % bad[0].events[-1].loc
    else:
        for im in ims:
            if im.end != len(tk):
                msg = "only %d of %d tokens are consumed" % (im.end, len(tk))
                break
            msg = compare(Spec(body, fname == "main"), im)
            if msg:
                break
    ctx.ob(rid, text_, msg is None, where, msg or "")


def check_reject(ctx, cf, name, s):
    body = s if s[0] == "block" else ("block", [s])
    ims, bad = cf.parse(toks(body))
    msg = None
    if ims:
        msg = "%s is accepted without a diagnostic: %s" % (name, ctext(body))
    else:
        for st in bad:
            ev = [e for e in st.events if e.k == "noreturn"]
            nm = ev[-1].name if ev else "?"
            if not str(nm).startswith("impl_error"):
                msg = "%s ends in %s at %s instead of a diagnostic" % (name, nm, ev[-1].loc if ev else "?")
    ctx.ob("reject", name, msg is None, "src/parser/function_parser.c", msg or "")


def run(ctx):
    ctx.rule("graph", "the control graph of a function body is bisimilar to the one C11 6.8 prescribes")
    ctx.rule("reject", "a misplaced break, continue, case or default, and an undefined or duplicate label, are diagnosed")
    ctx.rule("condition", "a controlling expression of any scalar type is true exactly when it compares unequal to 0")
    ctx.rule("switch-type", "case constants are converted to the promoted type of the controlling expression")
    abi_env(ctx, "sysv")
    cf = CF(ctx)
    sk = [x for x in systematic()] + [x for x in special()]
    n = 400 if ctx.tier == "quick" else 6000
    base = 1000 * ctx.seed
    sk += [rand(base + i) for i in range(n)]
    W = 16

    def work(k):
        def go():
            for s in sk[k::W]:
                check_graph(ctx, cf, "graph", s)
        return go

    def rest():
        for nm, s in INVALID:
            check_reject(ctx, cf, nm, s)
        for s in (("expr", "x"), ("if", "c", ("return", "r"), None), ("while", "c", ("expr", "x")), ("return", "r")):
            check_graph(ctx, cf, "graph", s, "main")
    abi_env(ctx, "ms")
    ctx.parallel([work(k) for k in range(W)] + [rest] + [lambda abi=abi: conditions(ctx, abi) for abi in ("sysv", "ms")] +
                 [lambda abi=abi: switch_types(ctx, abi) for abi in ("sysv", "ms")])


def conditions(ctx, abi):
    """if (e) for every scalar type of e, through the real conversion and branch code"""
    from rules.c07 import branch_case
    for s in ARITH + ["ptr"]:
        C = Case(ctx, abi)
        t = ptr(C.T("ST_INT")) if s == "ptr" else C.T(s)
        e, v = C.value("a", t)
        w = C.width(t)
        spec = fcmp("une", w // 8, v, 0) if s in ("ST_FLOAT", "ST_DOUBLE") else rel("ne", w, v, 0)
        msg = branch_case(C, (e, v), lambda I, m, e: ctx.run(I, "expression_to_condition", args={0: e}, mem=m), spec)
        ctx.ob("condition", "%s.%s" % (abi, s[3:].lower() if s != "ptr" else s), msg is None, "expression_to_condition",
               "condition of type %s (%s): %s" % (s, abi, msg))


def switch_types(ctx, abi):
    """switch (e) case k: the controlling value and the constant are compared in the promoted type of e"""
    for s in INTS:
        cf = CF(ctx, abi)
        cf.real_types = s
        ims, bad = cf.parse(toks(("block", [("switch", "s", ("block", [("case", "k1", ("expr", "x")), ("default", ("expr", "y"))]))])))
        want = promote(s, abi)
        msg = None
        if len(ims) != 1 or bad:
            msg = "switch on %s is rejected" % s
        else:
            seen = set(cf.case_casts)
            if cf.control_types != [want]:
                msg = "the controlling expression of type %s is evaluated with type %s, must be %s" % (s, cf.control_types, want)
            elif seen != {want}:
                msg = "case constants are converted to %s, must be %s" % (sorted(seen), want)
        ctx.ob("switch-type", "%s.%s" % (abi, s[3:].lower()), msg is None, "parse_switch", msg or "")
