"""C02: operator precedence, associativity and operator meaning."""
import random
from lib_parse import *

EXPLANATION = (
    "parse_expression and the functions it calls are evaluated abstractly (operands, types and members are opaque) on every "
    "ordered pair of operators, every unary/postfix/cast combination with a binary operator, and seeded random "
    "expressions; the tree built by expr_new is compared with the tree an independent implementation of the C11 6.5 grammar "
    "builds. &&, ||, ! and ?: are compared as decision trees over the evaluated operands, so any equivalent lowering is "
    "accepted. Since operands are opaque, each result holds for all operand expressions.")
ASSUMPTIONS = ["token kinds are those the tokenizer assigns (C01)"]
FLOORS = {"pair": 700, "unary": 300, "postfix": 60, "random": 300, "call": 5}
BINARY = [o for l in BIN for o in l]


def seqs_pairs():
    ops = BINARY + ASG + [",", "?:"]

    def mk(o1, o2):
        r = ["a"]
        n = ["b", "c", "d", "e"]
        for o in (o1, o2):
            if o == "?:":
                r += ["?", n.pop(0), ":", n.pop(0)]
            else:
                r += [o, n.pop(0)]
        return r
    for o in ops:
        yield mk(o, "+")[:-2] if o != "?:" else ["a", "?", "b", ":", "c"]
    for o1 in ops:
        for o2 in ops:
            yield mk(o1, o2)
    for o in ops:
        if o != "?:":
            yield ["a", "?", "b", o, "c", ":", "d"]


LV = ("++", "--", "&")
UN = ["-", "+", "~", "!", "*", "&", "++", "--", "sizeof"]


def seqs_unary():
    for u in UN:
        yield [u, "a"]
        for o in BINARY + [",", "="]:
            yield [u, "a", o, "b"]
            yield ["a", o, u, "b"]
        for p in (["[", "b", "]"], [".", "m"], ["->", "m"], ["(", "b", ")"], ["++"], ["--"]):
            if u in LV and p[0] in ("(", "++", "--"):
                continue        # not an lvalue
            yield [u, "a"] + p
        for v in UN:
            if (u, v) in (("+", "++"), ("-", "--")) or (u in LV and v != "*") or (u == "sizeof" and v in ("++", "--")):
                continue
            yield [u, v, "a"]
        yield ["(", "Ty", ")", u, "a"]
        yield [u, "(", "Ty", ")", "a"] if u not in ("++", "--", "&", "sizeof") else [u, "(", "a", ")"]
        yield [u, "a", "?", "b", ":", "c"]
        yield [u, "(", "a", "+", "b", ")", "*", "c"] if u not in ("++", "--", "&") else [u, "(", "a", ")", "[", "b", "]"]
    for o in BINARY:
        yield ["(", "Ty", ")", "a", o, "b"]
        yield ["a", o, "(", "Ty", ")", "b"]
        yield ["(", "a", o, "b", ")", "*", "c"]
        yield ["c", "*", "(", "a", o, "b", ")"]
        yield ["sizeof", "(", "a", ")", o, "b"]
        yield ["sizeof", "(", "Ty", ")", o, "b"]
        yield ["_Alignof", "(", "Ty", ")", o, "b"]
    yield ["(", "Ty", ")", "(", "Ux", ")", "a"]
    yield ["(", "Ty", ")", "a", "[", "b", "]"]
    yield ["(", "Ty", ")", "(", "a", ")", ".", "m"]
    yield ["sizeof", "(", "a", ")", "[", "b", "]"]
    yield ["sizeof", "(", "a", ")", "->", "m"]
    yield ["sizeof", "(", "a", "+", "b", ")", "*", "c"]
    yield ["sizeof", "a", "[", "b", "]", "+", "c"]


def seqs_postfix():
    ps = [["[", "b", "]"], [".", "m"], ["->", "m"], ["(", "b", ")"], ["(", ")"], ["++"], ["--"]]
    for p in ps:
        yield ["a"] + p
        for q in ps:
            if not (q[0] in LV and p[0] in ("(", "++", "--")):
                yield ["a"] + p + q
        for o in BINARY + ["=", ","]:
            yield ["c", o, "a"] + p
    yield ["a", "[", "b", ",", "c", "]"]
    yield ["a", "[", "b", "=", "c", "]"]
    yield ["a", "[", "b", "[", "c", "]", "]"]
    yield ["a", "[", "b", "?", "c", ":", "d", "]", "+", "e"]


def seqs_call():
    yield ["f", "(", ")"]
    yield ["f", "(", "a", ",", "b", ",", "c", ")"]
    yield ["f", "(", "a", "=", "b", ",", "c", "?", "d", ":", "e", ")"]
    yield ["f", "(", "(", "a", ",", "b", ")", ",", "c", ")"]
    yield ["f", "(", "a", ")", "(", "b", ")", "(", ")"]
    yield ["f", "(", "g", "(", "a", ",", "b", ")", ",", "c", "+", "d", ")", "*", "e"]
    yield ["f", "(", "a", "&&", "b", ",", "c", "||", "d", ")"]
    yield ["(", "*", "f", ")", "(", "a", ")"]
    yield ["*", "f", "(", "a", ")"]


def rand(seed):
    r = random.Random(seed)
    n = [0]

    def name():
        n[0] += 1
        return "v%d" % n[0]

    def un(d):
        k = r.random()
        if d <= 0 or k < .45:
            return [name()]
        if k < .6:
            return [r.choice(["-", "~", "!", "*", "+"])] + guard(un(d - 1))
        if k < .68:
            return ["(", "Ty", ")"] + un(d - 1)
        if k < .78:
            return ["("] + ex(d - 1) + [")"]
        p = [name()]
        for _ in range(r.randrange(1, 3)):
            p += r.choice([["[", *ex(d - 2), "]"], [".", "m"], ["->", "m"]] + ([["++"]] if p[-1] not in (")", "++") else []) + [["(", *asg(d - 2), ",", *asg(d - 2), ")"], ["(", ")"]])
        return p

    def guard(x):
        return ["(", *x, ")"] if x[0] in ("-", "+", "--", "++", "&") else x

    def asg(d):
        if r.random() < .25:
            return [name(), r.choice(ASG)] + asg(d - 1)
        return cond(d)

    def cond(d):
        l = un(d)
        for _ in range(r.randrange(0, 4)):
            l += [r.choice(BINARY)] + guard(un(d - 1))
        if d > 0 and r.random() < .25:
            l += ["?"] + ex(d - 1) + [":"] + cond(d - 1)
        return l

    def ex(d):
        l = asg(d)
        while r.random() < .12:
            l += [","] + asg(d - 1)
        return l
    return ex(3)


def check(ctx, P, rid, toks):
    try:
        want = Grammar(toks).whole()
    except Invalid:
        return
    src = " ".join(toks)
    ps, bad = P.run(toks)
    msg = None
    if len(ps) != 1 or bad:
        msg = "a valid expression is rejected%s" % (" at %s" % bad[0].events[-1].loc if bad and bad[0].events else "")
        if ps and bad:
            msg = "a valid expression may be rejected at %s" % bad[0].events[-1].loc
    else:
        p = ps[0]
        if P.T.pos(p.st) != len(toks):
            msg = "parsing stops before '%s'" % (toks + [";"])[P.T.pos(p.st)]
        else:
            got = P.tree(p, p.ret)
            if norm(got) != norm(want):
                msg = "is parsed as %s, must be %s" % (render(norm(got)), render(norm(want)))
    ctx.ob(rid, src, msg is None, "parse_pratt_with_lhs / parse_prefix", "%s: %s" % (src, msg))


def run(ctx):
    ctx.rule("pair", "two adjacent binary, assignment, conditional or comma operators group as the grammar prescribes")
    ctx.rule("unary", "prefix operators and casts bind tighter than binary and looser than postfix operators")
    ctx.rule("postfix", "subscripts, members, calls, ++ and -- apply left to right to the primary expression")
    ctx.rule("call", "call arguments are assignment expressions, in order")
    ctx.rule("random", "seeded random expressions parse to the grammar's tree")
    n = 600 if ctx.tier == "quick" else 20000
    work = [("pair", s) for s in seqs_pairs()] + [("unary", s) for s in seqs_unary()] + [("postfix", s) for s in seqs_postfix()] + \
           [("call", s) for s in seqs_call()] + [("random", rand(7919 * ctx.seed + i)) for i in range(n)]
    W = 16

    def go(k):
        def f():
            P = Parser(ctx)
            for rid, s in work[k::W]:
                check(ctx, P, rid, s)
        return f
    ctx.parallel([go(k) for k in range(W)])
