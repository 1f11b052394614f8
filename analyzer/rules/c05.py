"""Integer promotions, usual arithmetic conversions, result types and the types of literals."""
from lib import *
from lib_expr import *

EXPLANATION = ("Constant-propagating abstract interpretation of the expression constructor over abstract operands of every "
               "pair of arithmetic types (and bit-field widths) for each target ABI; the conversions it inserts and the type "
               "it computes are compared with C11 6.3.1/6.5.  Literal typing: the same for the literal scanner over "
               "magnitude intervals x suffixes x bases.")

REL = ("OP_LESS", "OP_GREATER", "OP_LESS_EQ", "OP_GREATER_EQ", "OP_EQUAL", "OP_NOT_EQUAL")
INTONLY = ("OP_MOD", "OP_BXOR", "OP_BOR", "OP_BAND", "OP_LSHIFT", "OP_RSHIFT")
ALLOPS = ("OP_ADD", "OP_SUB", "OP_MUL", "OP_DIV") + INTONLY + REL
OPNAME = {"OP_ADD": "+", "OP_SUB": "-", "OP_MUL": "*", "OP_DIV": "/", "OP_MOD": "%", "OP_BXOR": "^", "OP_BOR": "|",
          "OP_BAND": "&", "OP_LSHIFT": "<<", "OP_RSHIFT": ">>", "OP_LESS": "<", "OP_GREATER": ">", "OP_LESS_EQ": "<=",
          "OP_GREATER_EQ": ">=", "OP_EQUAL": "==", "OP_NOT_EQUAL": "!="}


def prom(s, abi, bits=None):
    return s if s in ("ST_FLOAT", "ST_DOUBLE") else promote(s, abi, bits)


def nm(P, t):
    if isty(t, "simple"):
        return [s for s in ST_ALL if P.enum(s) == t[2]][0]
    return show(t)


def conv_ok(P, v, op, src, dst, abi, bits=None):
    o, ts = peel(v)
    if o != op:
        return False
    return chain_equiv(src, [nm(P, t) for t in ts], dst, abi, bits) if ts else src == dst


def run(ctx):
    P = ctx.P
    ctx.rule("binary", "for every arithmetic type pair and operator, both operands are converted to the type the usual "
                       "arithmetic conversions give (shifts: each promoted separately) and the result has the C type")
    ctx.rule("unary", "+ - ~ promote their operand and have the promoted type")
    ctx.rule("conditional", "?: converts both arms to their common type")
    ctx.rule("compound", "A op= B computes in the type of A op B and converts back to A's type")
    ctx.rule("bitfield", "a bit-field operand is promoted according to its width")
    ctx.rule("pointer", "pointer arithmetic, pointer difference and pointer comparison have the C type")
    ctx.rule("defarg", "unprototyped trailing arguments get the default argument promotions")
    ctx.rule("cast", "a conversion to T yields an expression of type T (the operand itself when it already has type T)")
    ctx.rule("literal", "an integer literal has the first type of its 6.4.4.1 list that can represent it")
    ctx.rule("fliteral", "a floating literal is double, or float with an f suffix")
    tasks = []
    for abi in ("sysv", "ms"):
        abi_env(ctx, abi)
        for part in range(8):
            tasks.append(lambda abi=abi, part=part: arithmetic(ctx, abi, part))
    for abi in ("sysv", "ms"):
        tasks.append(lambda abi=abi: literals(ctx, abi))
    ctx.parallel(tasks)


def arithmetic(ctx, abi, part):
    P = ctx.P
    W = World(ctx, abi)
    I = W.interp()
    T = lambda s: simple(P, s)

    def chk(rule, inst, ops, kind, specres, specops, what, **fields):
        """ops: [(obj, src, bits)] ; specops: [type or None]"""
        try:
            res, bad = W.new(I, kind, [o[0] for o in ops], **fields)
        except KeyError as e:
            res, bad = [], []
        if len(res) != 1 or bad:
            ctx.ob(rule, inst, False, "expr_new", "%s is not accepted (%d results, %d errors)" % (what, len(res), len(bad)))
            return None
        fs = W.fields(res[0])
        if fs is None:
            ctx.ob(rule, inst, False, "expr_new", "%s: no expression is built: %s" % (what, show(res[0])[:80]))
            return None
        dt = fs.get("data_type")
        if specres is not None:
            ok = dt == T(specres)
            if not ok:
                ctx.ob(rule, inst, False, "expr_new", "%s (%s) has type %s, must be %s" %
                       (what, abi, nm(P, dt) if isty(dt) else show(dt), specres))
                return res[0]
        av = W.argv(res[0])
        ok = True
        msg = ""
        for i, s in enumerate(specops):
            if s is None:
                continue
            if i >= len(av) or not conv_ok(P, av[i], ops[i][0], ops[i][1], s, abi, ops[i][2]):
                ok = False
                msg = "%s (%s): operand %d is converted as %s, must become %s" % (
                    what, abi, i, show(av[i]) if i < len(av) else "?", s)
        ctx.ob(rule, inst, ok, "expr_new", msg)
        return res[0]

    short = lambda s: s[3:].lower()
    if part == 7:
        return rest(ctx, abi, W, I, chk)
    for a in ARITH[part * 2:part * 2 + 2]:
        lower_compound(ctx, W, abi, a)
        for b in ARITH:
            A, B = W.operand("A", T(a)), W.operand("B", T(b))
            flt = a in ("ST_FLOAT", "ST_DOUBLE") or b in ("ST_FLOAT", "ST_DOUBLE")
            for op in ALLOPS:
                if flt and op in INTONLY:
                    continue
                # one representative of each class per pair is enough for the conversions; every op for the result type
                if op in ("OP_LSHIFT", "OP_RSHIFT"):
                    r = prom(a, abi)
                    so = [r, None]
                else:
                    c = usual(a, b, abi)
                    r = "ST_INT" if op in REL else c
                    so = [c, c]
                v = chk("binary", "%s.%s.%s.%s" % (abi, OPNAME[op], short(a), short(b)), [(A, a, None), (B, b, None)],
                        "E_BINARY_OP", r, so, "%s %s %s" % (short(a), OPNAME[op], short(b)), binary_op=P.enum(op))
                if v is not None and op in ("OP_LSHIFT", "OP_RSHIFT"):
                    o, ts = peel(W.argv(v)[1])
                    ok = o == B
                    for t in ts:
                        ok = ok and isty(t, "simple") and nm(P, t) in INTS and nm(P, t) != "ST_BOOL"
                    ctx.ob("binary", "%s.%s.count.%s.%s" % (abi, OPNAME[op], short(a), short(b)), ok, "expr_new",
                           "shift count converted as %s" % show(W.argv(v)[1]))
            C = W.operand("C", T("ST_INT"))
            c = usual(a, b, abi)
            chk("conditional", "%s.%s.%s" % (abi, short(a), short(b)), [(C, "ST_INT", None), (A, a, None), (B, b, None)],
                "E_CONDITIONAL", c, [None, c, c], "?: of %s and %s" % (short(a), short(b)))


def rest(ctx, abi, W, I, chk):
    P = ctx.P
    T = lambda s: simple(P, s)
    short = lambda s: s[3:].lower()
    for a in ARITH:
        A = W.operand("A", T(a))
        for op in ("UOP_PLUS", "UOP_NEG", "UOP_BNOT"):
            if op == "UOP_BNOT" and a in ("ST_FLOAT", "ST_DOUBLE"):
                continue
            r = prom(a, abi)
            chk("unary", "%s.%s.%s" % (abi, op, short(a)), [(A, a, None)], "E_UNARY_OP", r, [r], "%s %s" % (op, short(a)),
                unary_op=P.enum(op))
    # bit-fields
    B = W.operand("B", T("ST_INT"))
    for s in ("ST_INT", "ST_UINT", "ST_BOOL", "ST_UCHAR", "ST_CHAR", "ST_USHORT"):
        mx = 1 if s == "ST_BOOL" else sizes(abi)[s] * 8
        for w in sorted({1, 3, 8, 16, 31, 32}):
            if w > mx:
                continue
            F = W.operand("F", T(s), bitfield=w)
            pr = promote(s, abi, w)
            chk("bitfield", "%s.neg.%s:%d" % (abi, short(s), w), [(F, s, w)], "E_UNARY_OP", pr, [pr],
                "- of bit-field %s:%d" % (short(s), w), unary_op=P.enum("UOP_NEG"))
            c = usual(pr, "ST_INT", abi)
            for op in ("OP_ADD", "OP_LESS"):
                chk("bitfield", "%s.%s.%s:%d" % (abi, OPNAME[op], short(s), w), [(F, s, w), (B, "ST_INT", None)],
                    "E_BINARY_OP", "ST_INT" if op in REL else c, [c, c], "bit-field %s:%d %s int" % (short(s), w, OPNAME[op]),
                    binary_op=P.enum(op))
                chk("bitfield", "%s.r%s.%s:%d" % (abi, OPNAME[op], short(s), w), [(B, "ST_INT", None), (F, s, w)],
                    "E_BINARY_OP", "ST_INT" if op in REL else c, [c, c], "int %s bit-field %s:%d" % (OPNAME[op], short(s), w),
                    binary_op=P.enum(op))
    # pointers
    pc, pv = ptr(T("ST_CHAR")), ptr(T("ST_VOID"))
    pd = {"sysv": "ST_LONG", "ms": "ST_LLONG"}[abi]
    Pq, Q, N0 = W.operand("P", pc), W.operand("Q", pc), W.null_const("Z")
    V = W.operand("V", pv)

    def pchk(inst, kind, args, wantkind, wanttype, wantargs, **fields):
        res, bad = W.new(I, kind, args, **fields)
        ok, msg = False, "not accepted"
        if len(res) == 1 and not bad and W.fields(res[0]):
            fs = W.fields(res[0])
            av = W.argv(res[0])
            ok = fs.get("type") == P.enum(wantkind) and fs.get("data_type") == wanttype
            msg = "kind %s type %s" % (fs.get("type"), show(fs.get("data_type")))
            for i, wv in enumerate(wantargs):
                if wv is not None and (i >= len(av) or peel(av[i])[0] != wv):
                    ok, msg = False, "operand %d is %s" % (i, show(av[i]) if i < len(av) else "?")
        ctx.ob("pointer", "%s.%s" % (abi, inst), ok, "expr_new", "%s: %s" % (inst, msg))
    for s in INTS:
        X = W.operand("X", T(s))
        pchk("p+%s" % short(s), "E_BINARY_OP", [Pq, X], "E_POINTER_ADD", pc, [Pq, X], binary_op=P.enum("OP_ADD"))
        pchk("%s+p" % short(s), "E_BINARY_OP", [X, Pq], "E_POINTER_ADD", pc, [Pq, X], binary_op=P.enum("OP_ADD"))
        pchk("p-%s" % short(s), "E_BINARY_OP", [Pq, X], "E_POINTER_SUB", pc, [Pq, X], binary_op=P.enum("OP_SUB"))
        for op, sub in (("OP_ADD", 0), ("OP_SUB", 1)):
            for post in (0, 1):
                res, bad = W.new(I, "E_ASSIGNMENT_OP", [Pq, X],
                                 assignment_op=("struct", "ao", (("op", P.enum(op)), ("postfix", post))))
                ok = len(res) == 1 and not bad
                if ok:
                    fs = W.fields(res[0])
                    ap = dict(fs.get("assignment_pointer")[2]) if isinstance(fs.get("assignment_pointer"), tuple) \
                        and fs["assignment_pointer"][0] == "struct" else {}
                    if not ap and isinstance(fs.get("assignment_pointer"), tuple):
                        ap = dict(fs["assignment_pointer"][-1])
                    av = W.argv(res[0])
                    ok = fs.get("type") == P.enum("E_ASSIGNMENT_POINTER") and fs.get("data_type") == pc and \
                        ap.get("sub") == sub and ap.get("postfix") == post and av[0] == Pq and peel(av[1])[0] == X
                ctx.ob("pointer", "%s.%s=%d.%s" % (abi, OPNAME[op], post, short(s)), ok, "expr_new", "pointer compound assignment")
    pchk("p-q", "E_BINARY_OP", [Pq, Q], "E_POINTER_DIFF", T(pd), [Pq, Q], binary_op=P.enum("OP_SUB"))
    for op in REL:
        pchk("p%sq" % OPNAME[op], "E_BINARY_OP", [Pq, Q], "E_BINARY_OP", T("ST_INT"), [Pq, Q], binary_op=P.enum(op))
    for op in ("OP_EQUAL", "OP_NOT_EQUAL"):
        pchk("p%s0" % OPNAME[op], "E_BINARY_OP", [Pq, N0], "E_BINARY_OP", T("ST_INT"), [Pq, N0], binary_op=P.enum(op))
        pchk("0%sp" % OPNAME[op], "E_BINARY_OP", [N0, Pq], "E_BINARY_OP", T("ST_INT"), [N0, Pq], binary_op=P.enum(op))
    C = W.operand("C", T("ST_INT"))
    pchk("?p:q", "E_CONDITIONAL", [C, Pq, Q], "E_CONDITIONAL", pc, [None, Pq, Q])
    pchk("?p:0", "E_CONDITIONAL", [C, Pq, N0], "E_CONDITIONAL", pc, [None, Pq, N0])
    pchk("?0:p", "E_CONDITIONAL", [C, N0, Pq], "E_CONDITIONAL", pc, [None, N0, Pq])
    pchk("?p:void*", "E_CONDITIONAL", [C, Pq, V], "E_CONDITIONAL", pv, [None, Pq, V])
    pchk("?void*:p", "E_CONDITIONAL", [C, V, Pq], "E_CONDITIONAL", pv, [None, V, Pq])
    X = W.operand("X", T("ST_INT"))
    Y = W.operand("Y", T("ST_DOUBLE"))
    pchk("comma", "E_COMMA", [X, Pq], "E_COMMA", pc, [X, Pq])
    pchk("deref", "E_INDIRECTION", [Pq], "E_INDIRECTION", T("ST_CHAR"), [Pq])
    pchk("addr", "E_ADDRESS_OF", [Y], "E_ADDRESS_OF", ptr(T("ST_DOUBLE")), [Y])
    pchk("assign", "E_ASSIGNMENT", [X, Y], "E_ASSIGNMENT", T("ST_INT"), [X, None])
    # default argument promotions
    for variadic in (1, 0):
        fn = func(T("ST_VOID"), (T("ST_CHAR"),), variadic)
        for s in ARITH:
            fobj = W.operand("f", ptr(fn))
            a0, a1 = W.operand("a0", T("ST_CHAR")), W.operand("a1", T(s))
            W.tab[("argv", "#")] = 1
            args = (a0, a1) if variadic else (a0,)
            I2 = W.interp()
            base = ("p", "argv")
            mem = {("i", ("d", base), i): a for i, a in enumerate(args)}
            from absint import Path
            vals = ("struct", "expr", (("type", P.enum("E_CALL")), ("call", ("struct", "call", (
                ("callee", fobj), ("n_args", len(args)), ("args", ("addr", ("i", ("g", "#argv"), 0))))))))
            mem = {("i", ("g", "#argv"), i): a for i, a in enumerate(args)}
            ps = ctx.run(I2, "expr_new", args={0: vals}, mem=mem)
            bad = I2.take_dead()
            ok, msg = len(ps) == 1 and not bad, "call not accepted"
            if ok:
                got = [ps[0].mem.get(("i", ("g", "#argv"), i)) for i in range(len(args))]
                if got[0] != a0:
                    ok, msg = False, "named argument is converted as %s (parameter conversion is a later step)" % show(got[0])
                if variadic:
                    want = "ST_DOUBLE" if s == "ST_FLOAT" else prom(s, abi)
                    if not conv_ok(P, got[1], a1, s, want, abi):
                        ok, msg = False, "variadic %s argument becomes %s, must be %s" % (short(s), show(got[1]), want)
                fs = W.fields(ps[0].ret)
                if not fs or fs.get("data_type") != T("ST_VOID"):
                    ok, msg = False, "call has type %s" % show(fs.get("data_type") if fs else ps[0].ret)
            ctx.ob("defarg", "%s.%d.%s" % (abi, variadic, short(s)), ok, "expr_new", msg)
    lowering_of_compound(ctx, W, abi)
    # expression_cast itself
    I3 = W.interp(inline=["expression_cast"])
    I3.models.pop("expression_cast")
    I3.models["expr_new"] = lambda I, st, a, n, f: [(st, ("fn", "new", (a[0],)))]
    for a in ("ST_CHAR", "ST_INT", "ST_DOUBLE", "ST_BOOL"):
        for b in ("ST_CHAR", "ST_INT", "ST_ULONG", "ST_FLOAT", "ST_BOOL", "ST_VOID"):
            A = W.operand("A", T(a))
            r = [p.ret for p in ctx.run(I3, "expression_cast", args={0: A, 1: T(b)})]
            if a == b:
                ok = r == [A]
            else:
                ok = len(r) == 1 and isinstance(r[0], tuple) and r[0][:2] == ("fn", "new")
                if ok:
                    d = dict(r[0][2][0][2])
                    c = dict(d["cast"][2]) if isinstance(d.get("cast"), tuple) else {}
                    ok = d.get("type") == P.enum("E_CAST") and c.get("arg") == A and c.get("target") == T(b)
            ctx.ob("cast", "%s.%s.%s" % (abi, short(a), short(b)), ok, "expression_cast", "builds %s" % [show(x)[:90] for x in r])
            if a != b:
                res, bad = W.new(I, "E_CAST", (), cast=("struct", "cast", (("arg", A), ("target", T(b)))))
                ok = len(res) == 1 and W.fields(res[0]) and W.fields(res[0]).get("data_type") == T(b)
                ctx.ob("cast", "%s.new.%s.%s" % (abi, short(a), short(b)), bool(ok), "expr_new", "type of a cast")


def lower_compound(ctx, W, abi, a):
    P = ctx.P
    T = lambda s: simple(P, s)
    I = W.interp()
    short = lambda s: s[3:].lower()
    if True:
        for b in ARITH:
            A, B = W.operand("A", T(a)), W.operand("B", T(b))
            flt = a in ("ST_FLOAT", "ST_DOUBLE") or b in ("ST_FLOAT", "ST_DOUBLE")
            for op in ("OP_ADD", "OP_DIV", "OP_BOR", "OP_LSHIFT", "OP_RSHIFT"):
                if flt and op in INTONLY:
                    continue
                res, bad = W.new(I, "E_ASSIGNMENT_OP", [A, B], assignment_op=("struct", "ao", (("op", P.enum(op)), ("postfix", 0))))
                inst = "%s.%s=.%s.%s" % (abi, OPNAME[op], short(a), short(b))
                if len(res) != 1 or bad or not W.fields(res[0]):
                    ctx.ob("compound", inst, False, "expr_new", "%s %s= %s not accepted" % (short(a), OPNAME[op], short(b)))
                    continue
                fs, av = W.fields(res[0]), W.argv(res[0])
                if fs.get("data_type") != T(a) or av[0] != A or fs.get("type") != P.enum("E_ASSIGNMENT_OP"):
                    ctx.ob("compound", inst, False, "expr_new", "type %s, target %s" % (show(fs.get("data_type")), show(av[0])))
                    continue
                o, ts = peel(av[1])
                got = nm(P, ts[-1]) if ts else b
                shift = op in ("OP_LSHIFT", "OP_RSHIFT")
                want = prom(a, abi) if shift else usual(a, b, abi)
                ok = o == B and got == want and (shift or conv_ok(P, av[1], B, b, want, abi))
                ctx.ob("compound", inst, ok, "expr_new / evaluate_assignment_op",
                       "%s %s= %s (%s) is computed in type %s, must be %s" % (short(a), OPNAME[op], short(b), abi, got, want))


def lowering_of_compound(ctx, W, abi):
    P = ctx.P
    T = lambda s: simple(P, s)
    # the lowering computes in the converted right operand's type and converts both ways
    mod = {"variable_cast": lambda I, st, a, n, f: [(st, ("fn", "conv", a))],
           "expression_evaluate": lambda I, st, a, n, f: [(st, ("struct", "ee", (("type", P.enum("EE_VARIABLE")), (
               "data_type", W.tab.get((a[0][1], "data_type"))), ("variable", ("fn", "value", (a[0],))))))]}
    for post in (0, 1):
        A, B = W.operand("A", T("ST_CHAR")), W.operand("B", T("ST_ULONG"))
        W.tab.update({("E", "type"): P.enum("E_ASSIGNMENT_OP"), ("E", "data_type"): T("ST_CHAR"),
                      ("E", "args"): ("arr", ((0, A), (1, B))),
                      ("E", "assignment_op"): ("struct", "ao", (("op", P.enum("OP_ADD")), ("postfix", post)))})
        fnn = "evaluate_assignment_op"
        I2 = ctx.interp(inline=[fnn, "ir_from_type_and_op", "evaluated_expression_to_var", "assign_to_ee"] + TYPE_PREDS,
                        models=W.models(dict(mod, assign_to_ee=lambda I, st, a, n, f: rec(I, st, "assign", a))),
                        globals_const=W.genv, load_hook=hooks(type_hook, obj_hook(W.tab), W.hook))
        if ctx.P.func(fnn) is None:
            continue
        ps = ctx.run(I2, fnn, args={0: ("ob", "E")})
        ok = len(ps) == 1
        if ok:
            from absint import Ev
            ops = [e for e in ps[0].events if e.k == "call" and e.name == "ir_binary_op"]
            asg = [e for e in ps[0].events if e.k == "call" and e.name == "assign"]
            ok = len(ops) == 1 and len(asg) == 1
            if ok:
                va, vb = ("fn", "value", (A,)), ("fn", "value", (B,))
                ok = ops[0].args[1] == ("fn", "conv", (va, T("ST_CHAR"), T("ST_ULONG"))) and ops[0].args[2] == vb and \
                    asg[0].args[1] == ("fn", "conv", (ops[0].ret, T("ST_ULONG"), T("ST_CHAR")))
        ctx.ob("compound", "%s.lower.%d" % (abi, post), ok, fnn, "compound assignment converts the target to the operation "
               "type, operates, and converts the result back")


def rec(I, st, name, a):
    from absint import Ev
    st.ev = (st.ev, Ev("call", name, a, "?", "?"))
    return [(st, 0)]


LADDER = {"": (["ST_INT", "ST_LONG", "ST_LLONG"], ["ST_INT", "ST_UINT", "ST_LONG", "ST_ULONG", "ST_LLONG", "ST_ULLONG"]),
          "u": (["ST_UINT", "ST_ULONG", "ST_ULLONG"],) * 2,
          "l": (["ST_LONG", "ST_LLONG"], ["ST_LONG", "ST_ULONG", "ST_LLONG", "ST_ULLONG"]),
          "ul": (["ST_ULONG", "ST_ULLONG"],) * 2,
          "ll": (["ST_LLONG"], ["ST_LLONG", "ST_ULLONG"]),
          "ull": (["ST_ULLONG"],) * 2}
SPELL = {"": [""], "u": ["u", "U"], "l": ["l", "L"], "ul": ["ul", "uL", "Ul", "UL", "lu", "LU", "lU", "Lu"],
         "ll": ["ll", "LL"], "ull": ["ull", "ULL", "llu", "LLU", "uLL", "Ull", "llU", "LLu"]}


def lit_type(v, base, suf, abi):
    for t in LADDER[suf][0 if base == 10 else 1]:
        if v <= rng(t, abi)[1]:
            return t
    return None


def scan(ctx, shape, abi):
    P = ctx.P
    fns = ["constant_from_string", "constant_simple_signed", "constant_simple_unsigned", "is_contained_in"]
    I = ctx.interp(inline=fns + TYPE_PREDS + abi_inline(ctx, abi), inline_tus=["src/arch/x64.c"],
                   models=dict(TYPE_MODELS,
                               sv_to_str=lambda I, st, a, n, f: [(st, ("addr", ("i", ("g", "#lit"), 0)))],
                               strlen=lambda I, st, a, n, f: [(st, len(shape))],
                               strtod=lambda I, st, a, n, f: [(st, ("fn", "strtod", (a[0],)))]),
                   globals_const=abi_genv(ctx, abi), load_hook=type_hook)
    mem, facts = {}, {}
    for i, ch in enumerate(shape):
        loc = ("i", ("g", "#lit"), i)
        if isinstance(ch, str):
            mem[loc] = ord(ch)
        else:
            t = ("p", "d%d" % i)
            I.tt[t] = (8, True)
            facts[t] = ("iv", ord(ch[0]), ord(ch[1]), frozenset())
            mem[loc] = t
    mem[("i", ("g", "#lit"), len(shape))] = 0
    sv = ("struct", "sv", (("len", len(shape)), ("str", ("addr", ("i", ("g", "#lit"), 0)))))
    ps = ctx.run(I, "constant_from_string", args={0: sv}, mem=mem, facts=facts)
    return I, ps, I.take_dead()


def dval(c):
    return int(c, 16)


def bounds(shape, pre, base):
    lo = hi = 0
    for ch in shape[pre:]:
        a, b = (ch, ch) if isinstance(ch, str) else ch
        lo, hi = lo * base + dval(a), hi * base + dval(b)
    return lo, hi


def around(v, base):
    """digit shapes whose value interval straddles or touches V"""
    dig = []
    x = v
    while x:
        dig.append("0123456789abcdef"[x % base])
        x //= base
    dig.reverse()
    out = [list(dig)]
    # exact value, value+1, and the prefix of V followed by symbolic digits
    k = min(2, len(dig) - 1)
    cl = ("2", "7")
    out.append(dig[:-k] + [cl] * k)
    y = v + 1
    d2 = []
    while y:
        d2.append("0123456789abcdef"[y % base])
        y //= base
    d2.reverse()
    out.append(d2)
    return out


def literals(ctx, abi):
    P = ctx.P
    shapes = {10: [[("2", "7")], [("8", "9")], ["1", ("0", "1"), ("8", "9"), ("2", "7")], [("2", "7")] * 9,
                   [("2", "7")] * 12, [("8", "9")] * 17],
              8: [["0"], ["0", ("0", "1")], ["0", ("2", "7")], ["0"] + [("2", "7")] * 10, ["0"] + [("2", "7")] * 14],
              16: [[("0", "1")], [("2", "7")], [("8", "9")], [("a", "f")], [("A", "F")],
                   [("a", "f"), ("8", "9"), ("A", "F"), ("2", "7")], [("8", "9")] + [("a", "f")] * 7, [("a", "f")] * 11,
                   [("8", "9")] * 16]}
    for b in (31, 32, 63, 64):
        for base in (10, 8, 16):
            for d in around((1 << b) - 1, base):
                if bounds(d, 0, base)[1] < 1 << 64:
                    shapes[base].append((["0"] if base == 8 else []) + d)
    for base, shs in shapes.items():
        for px in ([""] if base != 16 else ["0x", "0X"]):
            for n, sh in enumerate(shs):
                for suf, sps in SPELL.items():
                    sps2 = sps if n in (0, len(shs) - 1) or len(sh) == 1 else sps[:1]
                    for sp in sps2:
                        one(ctx, abi, base, px, sh, suf, sp)
    for txt, want in (("1.5", "ST_DOUBLE"), ("1.", "ST_DOUBLE"), (".5", "ST_DOUBLE"), ("1e5", "ST_DOUBLE"), ("1E+5", "ST_DOUBLE"),
                      ("1.5f", "ST_FLOAT"), ("1.5F", "ST_FLOAT"), ("1e5f", "ST_FLOAT"), ("0x1p3", "ST_DOUBLE"),
                      ("0x1.8P-3f", "ST_FLOAT"), ("0xf.fp0", "ST_DOUBLE"), ("09.5", "ST_DOUBLE"), ("1e-5F", "ST_FLOAT"),
                      ("0x1p1f", "ST_FLOAT")):
        shape = [c if not (c in "15" and i) else (c, c) for i, c in enumerate(txt)]
        I, ps, bad = scan(ctx, shape, abi)
        ok, msg = len(ps) == 1 and not bad, "%d results, %d errors" % (len(ps), len(bad))
        if ok:
            d = dict(ps[0].ret[2])
            val = d.get("float_d" if want == "ST_FLOAT" else "double_d")
            ok = d.get("data_type") == simple(P, want) and "strtod" in show(val) and d.get("type") == P.enum("CONSTANT_TYPE")
            msg = show(ps[0].ret)[:120]
        ctx.ob("fliteral", "%s.%s" % (abi, txt), ok, "constant_from_string", "%s must be %s: %s" % (txt, want, msg))


def one(ctx, abi, base, px, sh, suf, sp):
    P = ctx.P
    shape = list(px) + sh + list(sp)
    txt = "".join(c if isinstance(c, str) else "[%s-%s]" % c for c in shape)
    pre = len(px) + (1 if base == 8 else 0)
    body = list(px) + sh
    slo, shi = bounds(body, pre, base)
    want = {}
    off = 0
    k = 0
    for i in range(len(body) - 1, pre - 1, -1):
        ch = body[i]
        w = base ** k
        k += 1
        if isinstance(ch, str):
            off += dval(ch) * w
        else:
            want[("p", "d%d" % i)] = w
            off -= (ord(ch[0]) - dval(ch[0])) * w
    want[None] = off
    I, ps, bad = scan(ctx, shape, abi)
    if lit_type(shi, base, suf, abi) is None:
        return
    ok, msg = not bad and len(ps) >= 1, "rejected (%d errors)" % len(bad)
    for p in ps:
        d = dict(p.ret[2]) if isinstance(p.ret, tuple) and p.ret[0] == "struct" else {}
        t = d.get("data_type")
        t = nm(P, t) if isty(t, "simple") else None
        v = d.get("int_d") if t in SIGNED else d.get("uint_d")
        if t is None or v is None:
            ok, msg = False, "yields %s" % show(p.ret)[:80]
            break
        if not lineq(lin(v), want):
            ok, msg = False, "value is %s" % show(v)[:120]
            break
        iv = I.interval(p.st, v) if not isinstance(v, int) else (0, v, v)
        lo = slo if iv[1] is None else max(slo, iv[1])
        hi = shi if iv[2] is None else min(shi, iv[2])
        if lo > hi:
            continue
        for q in (lo, hi):
            w = lit_type(q, base, suf, abi)
            if w != t:
                ok, msg = False, "value %d has type %s, must be %s" % (q, t, w)
    ctx.ob("literal", "%s.%s" % (abi, txt), ok, "constant_from_string", "%s (%s): %s" % (txt, abi, msg))


FLOORS = {"binary": 2500, "unary": 60, "conditional": 300, "compound": 600, "pointer": 100, "defarg": 40, "literal": 600, "fliteral": 20}
