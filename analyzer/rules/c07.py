"""Instruction selection: lowered and emitted code of every operation, on symbolic values, against the C operation."""
from lib_e2e import *

EXPLANATION = ("Translation validation by abstract interpretation: for every operation and operand type, an expression with opaque "
               "operands is pushed through the compiler's own lowering functions and codegen() (interpreted abstractly from their "
               "source), the instructions they emit are executed on a symbolic x86-64 machine (bit-vector normal forms, no solver), "
               "and the final contents of memory are compared with the C result for every value of the operands: value, width, and "
               "that no byte outside the assigned object is written.")
ASSUMPTIONS = ["x86-64 instruction semantics as modelled in analyzer/lib_x86.py", "operand slots are disjoint (C17)"]

PROM = ["ST_INT", "ST_UINT", "ST_LONG", "ST_ULONG", "ST_LLONG", "ST_ULLONG"]
FLT = ["ST_FLOAT", "ST_DOUBLE"]
REL = {"OP_LESS": "lt", "OP_GREATER": "gt", "OP_LESS_EQ": "le", "OP_GREATER_EQ": "ge", "OP_EQUAL": "eq", "OP_NOT_EQUAL": "ne"}
ARI = ["OP_ADD", "OP_SUB", "OP_MUL", "OP_DIV"]
INTOPS = ARI + ["OP_MOD", "OP_BXOR", "OP_BOR", "OP_BAND", "OP_LSHIFT", "OP_RSHIFT"]
short = lambda s: s[3:].lower()


def bin_spec(op, s, w, a, b):
    """value of a OP b, operands of basic type s and w bits"""
    if s in FLT:
        n = w // 8
        if op in ARI:
            return ("f" + {"OP_ADD": "+", "OP_SUB": "-", "OP_MUL": "*", "OP_DIV": "/"}[op], n, a, b)
        c = {"lt": "olt", "gt": "ogt", "le": "ole", "ge": "oge", "eq": "oeq", "ne": "une"}[REL[op]]
        return fcmp(c, n, a, b)
    sg = s in SIGNED
    if op in REL:
        c = REL[op]
        if c not in ("eq", "ne"):
            c = ("s" if sg else "u") + c
        return rel(c, w, a, b)
    if op == "OP_ADD":
        return ("+", a, b)
    if op == "OP_SUB":
        return sub(a, b)
    if op == "OP_MUL":
        return ("*", a, b)
    if op == "OP_DIV":
        return ("sdiv" if sg else "udiv", w, a, b)
    if op == "OP_MOD":
        return ("smod" if sg else "umod", w, a, b)
    if op in ("OP_BXOR", "OP_BOR", "OP_BAND"):
        return ({"OP_BXOR": "^", "OP_BOR": "|", "OP_BAND": "&"}[op], a, b)
    if op == "OP_LSHIFT":
        return ("shl", w, a, b)
    return ("sar" if sg else "shr", w, a, b)


def extend(s, w, t):
    """mathematical value of a w-bit object of integer type s, as 64 bits"""
    return ("sx" if s in SIGNED else "zx", w, t)


def conv_spec(src, dst, ws, wd, a, conds=()):
    """value of (dst)a"""
    if src == dst:
        return a
    if dst == "ST_BOOL":
        if src in FLT:
            return fcmp("une", ws // 8, a, 0)
        return rel("ne", 64, ("zx", ws, a), 0)
    if src in FLT:
        if dst in FLT:
            return a if src == dst else ("cvt", ("ff", wd // 8, ws // 8), a)
        return ("cvt", ("fs", 8, ws // 8), a)
    if dst in FLT:
        return ("cvt", ("sf", wd // 8, 8), extend(src, ws, a))
    return extend(src, ws, a)


def run(ctx):
    ctx.rule("binary", "for every operand type and operator, the emitted code leaves the C result of the operation in the assigned "
                       "object and writes nothing else")
    ctx.rule("unary", "+ - ~ leave the C result in the assigned object")
    ctx.rule("cast", "conversion between every ordered pair of scalar types yields the converted value")
    ctx.rule("pointer", "pointer +/- integer and pointer difference scale by the element size, for every index type")
    ctx.rule("compound", "E1 op= E2 and ++/-- store and yield the value C prescribes, for every pair of types")
    ctx.rule("bitfield", "reading, assigning and updating a bit-field touch exactly its bits and yield its value")
    ctx.rule("object", "loads, stores, copies and zeroing of n-byte objects move exactly n bytes")
    ctx.rule("constant", "a constant of every kind is materialised with its value, in both code models")
    ctx.rule("access", "member access, indirection and address-of designate the right bytes")
    ctx.rule("branch", "a condition branches to the true block exactly when it is non-zero, and phis take the value of the edge used")
    tasks = []
    for abi in ("sysv", "ms"):
        abi_env(ctx, abi)
        tasks += [lambda abi=abi: binary(ctx, abi), lambda abi=abi: shifts(ctx, abi), lambda abi=abi: unary(ctx, abi)]
        for k in range(4):
            tasks.append(lambda abi=abi, k=k: casts(ctx, abi, k))
            tasks.append(lambda abi=abi, k=k: compound(ctx, abi, k))
        tasks += [lambda abi=abi: pointers(ctx, abi), lambda abi=abi: bitfields(ctx, abi, 0), lambda abi=abi: bitfields(ctx, abi, 1), lambda abi=abi: member_bitfields(ctx, abi),
                  lambda abi=abi: objects(ctx, abi), lambda abi=abi: constants(ctx, abi), lambda abi=abi: access(ctx, abi),
                  lambda abi=abi: branches(ctx, abi)]
    ctx.parallel(tasks)


FLOORS = {"binary": 150, "unary": 25, "cast": 300, "pointer": 60, "compound": 500, "bitfield": 60, "object": 60, "constant": 40,
          "access": 400, "branch": 8}
WHERE = "expression_evaluate / codegen"


def case(ctx, abi, rule, inst, what, build, targets, reads=None, alt=None, where=WHERE, model=None, machine=None):
    """build(C) -> expression; targets(C) -> dict; alt(C, ms) -> message or None replaces the plain comparison"""
    C = Case(ctx, abi)
    if model:
        C.model = model
    e = build(C)
    ms = C.run(e, machine)
    t = targets(C) if callable(targets) else targets
    msg = check(C, ms, t, reads)
    if msg is not None and alt is not None and not C.err:
        msg = alt(C, ms, msg)
    ctx.ob(rule, inst, msg is None, where, None if msg is None else "%s: %s [%s]" % (what, msg, asmtext(C)[:160]))
    return C


def assign(C, t, e, name="q"):
    q, _ = C.lvalue(name, t)
    return C.expr("E_ASSIGNMENT", t, [q, e])


# ------------------------------------------------------------------ operators
def binary(ctx, abi):
    sz = sizes(abi)
    for s in PROM + FLT + ["ptr"]:
        for op in (REL if s == "ptr" else list(REL) + (ARI if s in FLT else [o for o in INTOPS if "SHIFT" not in o])):
            def build(C):
                t = ptr(C.T("ST_INT")) if s == "ptr" else C.T(s)
                a, C.a = C.value("a", t)
                b, C.b = C.value("b", t)
                C.w = C.width(t)
                rt = C.T("ST_INT") if op in REL else t
                C.n = C.size(rt)
                return assign(C, rt, C.expr("E_BINARY_OP", rt, [a, b], binary_op=ctx.P.enum(op)))
            case(ctx, abi, "binary", "%s.%s.%s" % (abi, op[3:].lower(), short(s) if s != "ptr" else s),
                 "%s on %s (%s)" % (op, s, abi), build,
                 lambda C: {"&q": [(0, C.n, bin_spec(op, "ST_ULLONG" if s == "ptr" else s, C.w, C.a, C.b), None)]})


def shifts(ctx, abi):
    for s in PROM:
        for r in PROM:
            for op in ("OP_LSHIFT", "OP_RSHIFT"):
                def build(C):
                    a, C.a = C.value("a", C.T(s))
                    b, C.b = C.value("b", C.T(r))
                    C.w, C.n = C.width(C.T(s)), C.size(C.T(s))
                    return assign(C, C.T(s), C.expr("E_BINARY_OP", C.T(s), [a, b], binary_op=ctx.P.enum(op)))
                case(ctx, abi, "binary", "%s.%s.%s.%s" % (abi, op[3:].lower(), short(s), short(r)), "%s %s %s (%s)" % (s, op, r, abi), build,
                     lambda C: {"&q": [(0, C.n, bin_spec(op, s, C.w, C.a, C.b), None)]})


def unary(ctx, abi):
    for s in PROM + FLT:
        for op in ("UOP_PLUS", "UOP_NEG") + (("UOP_BNOT",) if s in PROM else ()):
            def build(C):
                a, C.a = C.value("a", C.T(s))
                C.n = C.size(C.T(s))
                return assign(C, C.T(s), C.expr("E_UNARY_OP", C.T(s), [a], unary_op=ctx.P.enum(op)))

            def spec(C):
                if op == "UOP_PLUS":
                    return C.a
                if op == "UOP_BNOT":
                    return ("+", ("*", C.a, -1), -1)
                return ("fneg", C.n, C.a) if s in FLT else ("*", C.a, -1)
            case(ctx, abi, "unary", "%s.%s.%s" % (abi, op[4:].lower(), short(s)), "%s on %s (%s)" % (op, s, abi), build,
                 lambda C: {"&q": [(0, C.n, spec(C), None)]})


def u64_to_float(a, n):
    """the value of an unsigned 64-bit a as a float of n bytes, split at the sign bit"""
    half = ("cvt", ("sf", n, 8), ("|", ("shr", 64, a, 1), ("&", a, 1)))
    return ("cvt", ("sf", n, 8), a), ("f+", n, half, half)


def casts(ctx, abi, part):
    allt = ARITH + ["ptr"]
    k = 0
    for s in allt:
        for d in allt:
            k += 1
            if k % 4 != part or (s == "ptr" and d in FLT) or (d == "ptr" and s in FLT):
                continue
            ss, dd = ("ST_ULLONG" if x == "ptr" else x for x in (s, d))

            def build(C):
                ty = lambda x: ptr(C.T("ST_CHAR")) if x == "ptr" else C.T(x)
                a, C.a = C.value("a", ty(s))
                C.ws, C.wd, C.n = C.width(ty(s)), C.width(ty(d)), C.size(ty(d))
                src = ty(s)
                if s == "ptr" and d == "ptr":
                    dst = ptr(C.T("ST_INT"))
                else:
                    dst = ty(d)
                return assign(C, dst, C.expr("E_CAST", dst, (), cast=("struct", "cast", (("arg", a), ("target", dst)))))

            def alt(C, ms, msg):
                if dd in FLT and ss in INTS and ss not in SIGNED and C.ws == 64:
                    return wide_unsigned_to_float(C, ms, msg)
                if ss in FLT and dd in INTS and dd not in SIGNED and C.wd == 64:
                    return float_to_wide_unsigned(C, ms, msg)
                return msg if not (ss in FLT and dd in INTS and C.wd == 64) else float_to_wide_unsigned(C, ms, msg)

            strict = (dd in FLT and ss not in SIGNED and ss in INTS and sizes(abi)[ss] == 8) or \
                     (ss in FLT and dd not in SIGNED and dd in INTS and sizes(abi)[dd] == 8)
            spec = lambda C: {"&q": [(0, C.n, conv_spec(ss, dd, C.ws, C.wd, C.a), None)]}
            case(ctx, abi, "cast", "%s.%s.%s" % (abi, short(s) if s != "ptr" else s, short(d) if d != "ptr" else d),
                 "(%s)%s (%s)" % (d, s, abi), build,
                 (lambda C: {"&q": [(0, C.n, val("no single conversion", 64), None)]}) if strict else spec, alt=alt)


def wide_unsigned_to_float(C, ms, msg):
    """each path is restricted by the sign of a; both halves must be right"""
    b = ms[0].key(val("&q", 64))[0]
    neg = canon(rel("slt", 64, C.a, 0), 64)
    pos = canon(rel("sge", 64, C.a, 0), 64)
    lo, hi = u64_to_float(C.a, C.n)
    for m in ms:
        if m.done != "ret":
            return "the code ends with %s" % (m.done,)
        got = m.read((b, 0), C.n)
        cs = set(m.conds)
        side = "hi" if (neg, True) in cs or (pos, False) in cs else "lo" if (neg, False) in cs or (pos, True) in cs else None
        if side == "lo" and same(got, lo, 8 * C.n):
            continue
        if side == "hi" and same(got, hi, 8 * C.n):
            continue
        return "values of 2^63 and above are not converted as unsigned: %s%s" % (sh(canon(got, 8 * C.n)), cond(m))
    return None


def float_to_wide_unsigned(C, ms, msg):
    """accepted: cvtt(x) | (cvtt(x - 2^63) & (cvtt(x) >> 63)), or the same split by a comparison with 2^63"""
    n = C.ws // 8
    big = 0x5f000000 if n == 4 else 0x43e0000000000000
    lo = ("cvt", ("fs", 8, n), C.a)
    hi = ("cvt", ("fs", 8, n), ("f-", n, C.a, big))
    both = ("|", lo, ("&", hi, ("sar", 64, lo, 63)))
    b = ms[0].key(val("&q", 64))[0]
    lt, ge = canon(fcmp("olt", n, C.a, big), 64), canon(fcmp("ole", n, big, C.a), 64)
    for m in ms:
        if m.done != "ret":
            return "the code ends with %s" % (m.done,)
        got = m.read((b, 0), C.n)
        if same(got, both, 64):
            continue
        cs = set(m.conds)
        if ((lt, True) in cs or (ge, False) in cs) and same(got, lo, 64):
            continue
        if ((lt, False) in cs or (ge, True) in cs) and same(got, ("^", hi, 1 << 63), 64):
            continue
        return "values of 2^63 and above are not converted: %s%s" % (sh(canon(got, 64)), cond(m))
    return None


# ------------------------------------------------------------------ pointers
def elem(C, k):
    return C.T({1: "ST_CHAR", 2: "ST_SHORT", 4: "ST_INT", 8: "ST_DOUBLE"}[k]) if k in (1, 2, 4, 8) else C.struct("el%d" % k, k)


def pointers(ctx, abi):
    ix = [s for s in INTS if s != "ST_CHAR"]
    for n in (1, 2, 4, 8, 12, 40):
        for s in (ix if n in (1, 12) else ["ST_INT", "ST_ULLONG"]):
            for kind in ("E_POINTER_ADD", "E_POINTER_SUB"):
                def build(C):
                    pt = ptr(elem(C, n))
                    a, C.a = C.value("a", pt)
                    b, C.b = C.value("b", C.T(s))
                    C.w = C.width(C.T(s))
                    return assign(C, pt, C.expr(kind, pt, [a, b]))

                def spec(C):
                    off = ("*", extend(s, C.w, C.b), n)
                    return ("+", C.a, off) if kind.endswith("ADD") else sub(C.a, off)
                case(ctx, abi, "pointer", "%s.%s.%d.%s" % (abi, kind[2:].lower(), n, short(s)), "%s of %d-byte elements by %s (%s)" % (kind, n, s, abi),
                     build, lambda C: {"&q": [(0, 8, spec(C), None)]})
            for sb in (0, 1):
                for post in (0, 1):
                    def build(C):
                        pt = ptr(elem(C, n))
                        a, C.a = C.lvalue("p", pt)
                        b, C.b = C.value("b", C.T(s))
                        C.w = C.width(C.T(s))
                        e = C.expr("E_ASSIGNMENT_POINTER", pt, [a, b], assignment_pointer=("struct", "ap", (("sub", sb), ("postfix", post))))
                        return assign(C, pt, e)

                    def spec(C):
                        off = ("*", extend(s, C.w, C.b), n)
                        new = sub(C.a, off) if sb else ("+", C.a, off)
                        return {"&p": [(0, 8, new, None)], "&q": [(0, 8, C.a if post else new, None)]}
                    case(ctx, abi, "pointer", "%s.assign%s%s.%d.%s" % (abi, "-+"[1 - sb], ".post" if post else "", n, short(s)),
                         "pointer %s= of %d-byte elements by %s%s (%s)" % ("-" if sb else "+", n, s, " (postfix)" if post else "", abi), build, spec)

        def build(C):
            pt = ptr(elem(C, n))
            a, C.a = C.value("a", pt)
            b, C.b = C.value("b", pt)
            t = C.T("ST_LONG" if abi == "sysv" else "ST_LLONG")
            return assign(C, t, C.expr("E_POINTER_DIFF", t, [a, b]))
        case(ctx, abi, "pointer", "%s.diff.%d" % (abi, n), "difference of pointers to %d-byte elements (%s)" % (n, abi), build,
             lambda C: {"&q": [(0, 8, ("sdiv", 64, sub(C.a, C.b), n) if n > 1 else sub(C.a, C.b), None)]},
             alt=lambda C, ms, msg: None if n == 1 and check(C, ms, {"&q": [(0, 8, ("sdiv", 64, sub(C.a, C.b), 1), None)]}) is None else msg)


# ------------------------------------------------------------------ compound assignment
def opspec(op, L, Tp, r, abi, wl, wt, a, b, tb):
    """new value of a (type L) after a OP= b where the operation is done in type Tp (b of type r already has it, or is a shift count)"""
    x = conv_spec(L, Tp, wl, wt, a)
    v = bin_spec(op, Tp, wt, x, b)
    return conv_spec(Tp, L, wt, wl, v)


def compound(ctx, abi, part):
    sz = sizes(abi)
    k = 0
    for L in ARITH:
        seen = set()
        for Rt in ARITH:
            Tp = usual(L, Rt, abi)
            seen.add(Tp)
        for Tp in sorted(seen, key=ARITH.index):
            ops = ARI if Tp in FLT else [o for o in INTOPS if "SHIFT" not in o]
            if Tp == promote(L, abi) if L in INTS else False:
                ops = ops + ["OP_LSHIFT", "OP_RSHIFT"]
            for op in ops:
                for post in ((0, 1) if op in ("OP_ADD", "OP_SUB") else (0,)):
                    k += 1
                    if k % 4 != part:
                        continue

                    def build(C):
                        a, C.a = C.lvalue("l", C.T(L))
                        b, C.b = C.value("b", C.T(Tp))
                        C.wl, C.wt = C.width(C.T(L)), C.width(C.T(Tp))
                        e = C.expr("E_ASSIGNMENT_OP", C.T(L), [a, b], assignment_op=("struct", "ao", (("op", ctx.P.enum(op)), ("postfix", post))))
                        return assign(C, C.T(L), e)

                    def spec(C):
                        new = opspec(op, L, Tp, None, abi, C.wl, C.wt, C.a, C.b, C.wt)
                        n = C.size(C.T(L))
                        return {"&l": [(0, n, new, None)], "&q": [(0, n, C.a if post else new, None)]}

                    def alt(C, ms, msg):
                        # conversions between floating and unsigned 64-bit types are judged by the cast rule
                        x = [(L, Tp), (Tp, L)]
                        if any((u in FLT) != (v in FLT) and sz[v if u in FLT else u] == 8 for u, v in x):
                            return None if ms and all(m.done == "ret" for m in ms) and \
                                all(set(outside_writes(m)) == {memkey("&l")[0], memkey("&q")[0]} for m in ms) else msg
                        return msg
                    case(ctx, abi, "compound", "%s.%s.%s.%s%s" % (abi, short(L), op[3:].lower(), short(Tp), ".post" if post else ""),
                         "%s %s= computed in %s%s (%s)" % (L, op, Tp, " (postfix)" if post else "", abi), build, spec, alt=alt)


# ------------------------------------------------------------------ bit-fields
def bf_cases(abi):
    sz = sizes(abi)
    for s in ("ST_BOOL", "ST_SCHAR", "ST_UCHAR", "ST_SHORT", "ST_USHORT", "ST_INT", "ST_UINT", "ST_LLONG", "ST_ULLONG"):
        W = 8 * sz[s]
        if s == "ST_BOOL":
            yield s, 0, 1
            yield s, 5, 1
            continue
        for off, n in ((0, 1), (0, W), (3, 4), (W - 5, 5), (1, W - 1), (0, W - 1)):
            yield s, off, n


def field(old, off, n):
    return ("zx", n, ("shr", 64, old, off)) if off else ("zx", n, old)


def insert(old, off, n, v, W):
    m = ((1 << n) - 1) << off
    if n == W:
        return v
    return ("|", ("&", old, ((1 << W) - 1) & ~m), ("&", ("shl", 64, v, off) if off else v, m))


def bitfields(ctx, abi, part):
    for i, (s, off, n) in enumerate(bf_cases(abi)):
        if i % 2 != part:
            continue
        sg = s in SIGNED
        value = lambda x: ("sx" if sg else "zx", n, x)
        inst = "%s.%s.%d+%d" % (abi, short(s), off, n)
        what = "bit-field %s:%d at bit %d (%s)" % (s, n, off, abi)

        def build(C):
            f, C.f = C.bitfield("f", C.T(s), off, n)
            return assign(C, C.T(s), f)
        case(ctx, abi, "bitfield", inst + ".read", "reading " + what, build,
             lambda C: {"&q": [(0, C.size(C.T(s)), value(field(C.f, off, n)), None)]})

        def build(C):
            f, C.f = C.bitfield("f", C.T(s), off, n)
            b, C.b = C.value("b", C.T(s))
            return assign(C, C.T(s), C.expr("E_ASSIGNMENT", C.T(s), [f, b]))
        W = 8 * sizes(abi)[s]
        case(ctx, abi, "bitfield", inst + ".write", "assigning " + what, build,
             lambda C: {"&f": [(0, W // 8, insert(C.f, off, n, C.b, W), None)], "&q": [(0, W // 8, value(C.b), None)]})
        Tp = promote(s, abi, n)
        for post in (0, 1):
            def build(C):
                f, C.f = C.bitfield("f", C.T(s), off, n)
                b, C.b = C.value("b", C.T(Tp))
                e = C.expr("E_ASSIGNMENT_OP", C.T(s), [f, b], assignment_op=("struct", "ao", (("op", ctx.P.enum("OP_ADD")), ("postfix", post))))
                return assign(C, C.T(s), e)

            def spec(C):
                old = value(field(C.f, off, n))
                new = ("+", old, C.b)
                if s == "ST_BOOL":
                    new = rel("ne", C.width(C.T(Tp)), new, 0)
                return {"&f": [(0, W // 8, insert(C.f, off, n, new, W), None)], "&q": [(0, W // 8, old if post else value(new), None)]}
            case(ctx, abi, "bitfield", inst + (".postinc" if post else ".add"), "updating " + what, build, spec)


def member_bitfields(ctx, abi):
    """s.m and s.m = b where m is a bit-field of a structure at a byte and a bit offset"""
    for s in INTS:
        W = 8 * sizes(abi)[s]
        for boff, off, n in ((0, 0, 1), (4, 3, 5), (8, 0, W), (16, W - 1, 1)) if s != "ST_BOOL" else ((4, 3, 1), (1, 0, 1)):
            if off + n > W or n < 1:
                continue
            sg = s in SIGNED
            value = lambda x: ("sx" if sg else "zx", n, x)

            def obj(C):
                t = C.T(s)
                st = C.struct("st", boff + C.size(t))
                o, _ = C.lvalue("o", st)
                C.mem = [x for x in C.mem if x[0] != "&o"]
                C.f = val("m", W)
                C.mem.append(("&o", boff, W // 8, C.f))
                C.low.tab[("sd:st", "fields")] = ("addr", ("i", ("g", "flds:st"), 0))
                for f, v in (("offset", boff), ("type", t), ("bitfield", n), ("bit_offset", off)):
                    C.low.mem[("f", ("i", ("g", "flds:st"), 1), f)] = v
                C.low.tab[("sd:st", "n")] = 2
                C.low.tab[("sd:st", "is_union")] = 0
                return t, C.expr("E_DOT_OPERATOR", t, (), member=("struct", "m", (("lhs", o), ("member_idx", 1))))

            def build(C):
                t, e = obj(C)
                return assign(C, t, e)

            def build2(C):
                t, e = obj(C)
                b, C.b = C.value("b", t)
                return assign(C, t, C.expr("E_ASSIGNMENT", t, [e, b]))
            inst = "%s.member.%s.%d.%d+%d" % (abi, short(s), boff, off, n)
            what = "member bit-field %s:%d at byte %d bit %d (%s)" % (s, n, boff, off, abi)
            case(ctx, abi, "bitfield", inst + ".read", "reading " + what, build,
                 lambda C: {"&q": [(0, C.size(C.T(s)), value(field(C.f, off, n)), None)]})
            case(ctx, abi, "bitfield", inst + ".write", "assigning " + what, build2,
                 lambda C: {"&o": [(boff, W // 8, insert(C.f, off, n, C.b, W), None)], "&q": [(0, W // 8, value(C.b), None)]})


# ------------------------------------------------------------------ objects
def objects(ctx, abi):
    for n in list(range(1, 18)) + [23, 24, 31, 40, 64, 100]:
        def build(C):
            t = C.struct("s", n)
            q, _ = C.lvalue("q", t)
            r, C.r = C.lvalue("r", t)
            return C.expr("E_ASSIGNMENT", t, [q, r])

        def spec(C):
            return {"&q": [(i, 1, val("m[&r%+d]" % i, 8), None) for i in range(n)]}
        if n <= 8:
            spec = lambda C: {"&q": [(0, n, C.r, None)]}
        case(ctx, abi, "object", "%s.copy.%d" % (abi, n), "assignment of a %d-byte object (%s)" % (n, abi), build, spec, reads={"&r": n})
    P = ctx.P
    # zeroing and the node kinds the lowering of initialisers and calls uses
    for n in range(0, 20):
        C = Case(ctx, abi)
        q, _ = C.lvalue("q", C.T("ST_INT"))
        node = C.low.ee[q]
        ptrn = dict(node[2])["pointer"]
        ms = direct(C, lambda I, m: ctx.run(I, "ir_set_zero_ptr", args={0: ptrn, 1: n}, mem=m))
        ctx.ob("object", "%s.zero.%d" % (abi, n), check(C, ms, {"&q": [(0, n, 0, None)]} if n else {"&q": []}) is None if n else C.err is None and all(not outside_writes(m) for m in ms),
               "ir_set_zero_ptr / codegen", "zeroing %d bytes (%s): %s" % (n, abi, check(C, ms, {"&q": [(0, n, 0, None)]}) if n else "writes"))
    for n in (1, 2, 4, 8):
        for off in (0, 1, 8, 24):
            C = Case(ctx, abi)
            q, _ = C.lvalue("q", C.T("ST_INT"))
            ptrn = dict(C.low.ee[q][2])["pointer"]
            v = C.low.node(n)
            C.pre[v] = val("b", 8 * n)
            ms = direct(C, lambda I, m: ctx.run(I, "ir_store_part_address", args={0: ptrn, 1: v, 2: off}, mem=m))
            msg = check(C, ms, {"&q": [(off, n, val("b", 8 * n), None)]})
            ctx.ob("object", "%s.store_part.%d.%d" % (abi, n, off), msg is None, "ir_store_part_address / codegen", "store of %d bytes at +%d: %s" % (n, off, msg))
            C = Case(ctx, abi)
            q, _ = C.lvalue("q", C.T("ST_INT"))
            r, _ = C.lvalue("r", C.T("ST_INT"))
            C.mem = [("&r", off, n, val("b", 8 * n))]
            qn, rn = (dict(C.low.ee[x][2])["pointer"] for x in (q, r))

            def go(I, m):
                ps = ctx.run(I, "ir_load_part_address", args={0: rn, 1: off, 2: n}, mem=m)
                return [y for p in ps for y in ctx.run(I, "ir_store", args={0: qn, 1: p.ret}, mem=p.mem)]
            ms = direct(C, go)
            msg = check(C, ms, {"&q": [(0, n, val("b", 8 * n), None)]})
            ctx.ob("object", "%s.load_part.%d.%d" % (abi, n, off), msg is None, "ir_load_part_address / codegen", "load of %d bytes at +%d: %s" % (n, off, msg))


def direct(C, go):
    """run a builder function in the current block, then emit"""
    low = C.low
    C.err = None
    I = low.interp_ir(inline=[])
    m = low.start(I)
    ps = go(I, m)
    d = I.take_dead()
    if len(ps) != 1 or d:
        C.err = "the builder takes %d paths, %d stop" % (len(ps), len(d))
        return []
    G = Graph(C.P, I, ps[0].st)
    mem = dict(ps[0].mem)
    R = low.node(0, "IR_RETURN")
    for k, v in low.mem.items():
        mem.setdefault(k, v)
    nodes = [n for n in G.nodes() if n not in (low.F, low.B)]
    given = low.mem_nodes()
    order = [n for n in nodes if n in given] + [n for n in nodes if n not in given]
    return C.emit(mem, [(low.B, order, R)])


# ------------------------------------------------------------------ constants
def constants(ctx, abi):
    P = ctx.P
    for model in ("CODE_MODEL_SMALL", "CODE_MODEL_LARGE"):
        for s in ARITH + ["ptr"]:
            ss = "ST_ULLONG" if s == "ptr" else s
            for kind in ("int", "label", "object"):
                if kind == "label" and s != "ptr":
                    continue
                if kind == "object" and (s == "ptr" or abi == "ms"):
                    continue

                def build(C):
                    t = ptr(C.T("ST_INT")) if s == "ptr" else C.T(s)
                    w = C.width(t)
                    C.n = C.size(t)
                    C.v = fromterm(("p", "k"))
                    fields = [("type", P.enum({"int": "CONSTANT_TYPE", "label": "CONSTANT_LABEL_POINTER", "object": "CONSTANT_LABEL"}[kind])),
                              ("data_type", t)]
                    if kind == "int":
                        fields += [("int_d", ("p", "k")), ("uint_d", ("p", "k")), ("float_d", ("p", "k")), ("double_d", ("p", "k"))]
                    else:
                        fields += [("label", ("struct", "l", (("label", 77), ("offset", 12))))]
                        C.v = ("+", val("L77", 64), 12)
                    c = ("struct", "constant", tuple(fields))
                    if kind == "object":
                        C.mem.append(("L77", 12, C.n, val("k", w)))
                        C.v = val("k", w)
                        e = C.expr("E_CONSTANT", t, (), constant=c)
                        C.low.tab[(e[1], "constant")] = c
                        return assign(C, t, e)
                    e = C.expr("E_CONSTANT", t, (), constant=c)
                    return assign(C, t, e)
                C = Case(ctx, abi)
                C.model = model
                e = build(C)
                try:
                    ms = C.run(e)
                except AnalysisError as x:
                    raise
                t = {"&q": [(0, C.n, C.v, None)]}
                msg = check(C, ms, t)
                ctx.ob("constant", "%s.%s.%s.%s" % (abi, model[11:].lower(), kind, short(s) if s != "ptr" else s), msg is None, WHERE,
                       "%s constant of type %s (%s, %s): %s [%s]" % (kind, s, model, abi, msg, asmtext(C)))


# ------------------------------------------------------------------ access
def access(ctx, abi):
    P = ctx.P
    # member of a struct at a symbolic offset: the value of s.m and the address &s.m
    for s in ARITH + ["ptr"]:
        for off in (0, 1, 4, 8, 40):
            def build(C):
                t = ptr(C.T("ST_CHAR")) if s == "ptr" else C.T(s)
                C.n = C.size(t)
                st = C.struct("st", off + C.n)
                o, _ = C.lvalue("o", st)
                C.mem = [x for x in C.mem if x[0] != "&o"]
                C.mem.append(("&o", off, C.n, val("m", C.width(t))))
                C.low.tab[("sd:st", "fields")] = ("addr", ("i", ("g", "flds:st"), 0))
                for f, v in (("offset", off), ("type", t), ("bitfield", -1), ("bit_offset", 0)):
                    C.low.mem[("f", ("i", ("g", "flds:st"), 2), f)] = v
                C.low.tab[("sd:st", "n")] = 3
                C.low.tab[("sd:st", "is_union")] = 0
                e = C.expr("E_DOT_OPERATOR", t, (), member=("struct", "m", (("lhs", o), ("member_idx", 2))))
                C.dot, C.t = e, t
                return assign(C, t, e)
            case(ctx, abi, "access", "%s.member.%s+%d" % (abi, short(s) if s != "ptr" else s, off), "reading a member of type %s at %d (%s)" % (s, off, abi),
                 build, lambda C: {"&q": [(0, C.n, val("m", C.width(C.t)), None)]})

            def build2(C):
                build(C)
                pt = ptr(C.t)
                return assign(C, pt, C.expr("E_ADDRESS_OF", pt, [C.dot]), "r")
            case(ctx, abi, "access", "%s.addr.%s+%d" % (abi, short(s) if s != "ptr" else s, off), "address of a member at %d (%s)" % (off, abi),
                 build2, lambda C: {"&r": [(0, 8, ("+", val("&o", 64), off), None)]})

            def build3(C):
                build(C)
                b, C.b = C.value("b", C.t)
                return C.expr("E_ASSIGNMENT", C.t, [C.dot, b])
            case(ctx, abi, "access", "%s.setmember.%s+%d" % (abi, short(s) if s != "ptr" else s, off), "assigning a member at %d (%s)" % (off, abi),
                 build3, lambda C: {"&o": [(off, C.n, C.b, None)]})
        # *p, *p = v, &*p

        def build(C):
            t = C.t = ptr(C.T("ST_CHAR")) if s == "ptr" else C.T(s)
            C.n = C.size(t)
            p, C.p = C.value("p", ptr(t))
            C.mem.append(("p", 0, C.n, val("m", C.width(t))))
            C.ind = C.expr("E_INDIRECTION", t, [p])
            return assign(C, t, C.ind)
        nm = short(s) if s != "ptr" else s
        case(ctx, abi, "access", "%s.load.%s" % (abi, nm), "*p of type %s (%s)" % (s, abi), build,
             lambda C: {"&q": [(0, C.n, val("m", C.width(C.t)), None)]})

        def build2(C):
            build(C)
            b, C.b = C.value("b", C.t)
            return C.expr("E_ASSIGNMENT", C.t, [C.ind, b])
        case(ctx, abi, "access", "%s.store.%s" % (abi, nm), "*p = of type %s (%s)" % (s, abi), build2, lambda C: {"p": [(0, C.n, C.b, None)]})

        def build3(C):
            build(C)
            return assign(C, ptr(C.t), C.expr("E_ADDRESS_OF", ptr(C.t), [C.ind]), "r")
        case(ctx, abi, "access", "%s.addrof.%s" % (abi, nm), "&*p of type %s (%s)" % (s, abi), build3, lambda C: {"&r": [(0, 8, C.p, None)]})


def branches(ctx, abi):
    """a branch on every width of condition value, and the copies on the two edges of a join"""
    for s in ("ST_INT", "ST_LLONG", "ST_UCHAR", "ST_SHORT"):
        C = Case(ctx, abi)
        msg = branch_case(C, C.value("a", C.T(s)), lambda I, m, e: ctx.run(I, "expression_to_ir", args={0: e}, mem=m),
                          rel("ne", C.width(C.T(s)), val("a", C.width(C.T(s))), 0))
        ctx.ob("branch", "%s.%s" % (abi, short(s)), msg is None, "codegen_block", "branch on a value of type %s: %s [%s]" % (s, msg, asmtext(C)))


def branch_case(C, operand, cond, spec):
    """if (cond) *q = 1; else *q = 2;  the stored value must agree with SPEC on every machine path"""
    ctx, P = C.ctx, C.P
    e, _ = operand
    q, _ = C.lvalue("q", C.T("ST_INT"))
    qn = dict(C.low.ee[q][2])["pointer"]
    low = C.low
    C.err = None
    one, two = low.node(4), low.node(4)
    C.pre[one], C.pre[two] = 1, 2
    I = low.interp_ir(inline=["expression_to_condition"])
    m = low.start(I)
    pa = []
    ps = cond(I, m, e)
    if len(ps) != 1:
        return "the condition takes %d paths" % len(ps)
    bt, bf = ("g", "#bt"), ("g", "#bf")
    ps = ctx.run(I, "ir_if_selection", args={0: ps[0].ret, 1: ("addr", bt), 2: ("addr", bf)}, mem=ps[0].mem)
    if len(ps) != 1 or I.take_dead():
        return "ir_if_selection does not return once"
    mem = ps[0].mem
    T, F = mem.get(bt), mem.get(bf)
    stores = []
    for blk, v in ((T, one), (F, two)):
        st = [low.node(0, "IR_STORE")]
        for k, x in low.mem.items():
            mem.setdefault(k, x)
        mem[nf(st[0], "arguments", 0)] = qn
        mem[nf(st[0], "arguments", 1)] = v
        R = low.node(0, "IR_RETURN")
        for k, x in low.mem.items():
            mem.setdefault(k, x)
        stores.append((blk, st, R))
    G = Graph(P, I, ps[0].st)
    new = set(low.mem_nodes())
    ifs = [n for n in G.nodes() if G.type(n) == "IR_IF"]
    if len(ifs) != 1:
        return "no single branch is built"
    for k in (0, 1):
        pr = [n for n in G.nodes() if G.type(n) == "IR_PROJECT" and G.g(n, "arguments", 0) == ifs[0] and G.g(n, "project", "index") == k]
        if len(pr) != 1 or pr[0] != (T, F)[k]:
            return "the %s block is not projection %d of the branch" % (("true", "false")[k], k)
    mem[nf(ifs[0], "if_info", "block_true")] = T
    mem[nf(ifs[0], "if_info", "block_false")] = F
    own = [n for n in G.nodes() if n not in (low.F, low.B, T, F, ifs[0]) and G.type(n) not in ("IR_RETURN", "IR_STORE")]
    order = [n for n in own if n in new] + [n for n in own if n not in new]
    for layout in ((0, 1), (1, 0)):
        ms = C.emit(dict(mem), [(low.B, order, ifs[0])] + [stores[k] for k in layout])
        if C.err:
            return C.err
        b = ms[0].key(val("&q", 64))[0]
        t, pol = atom(spec)
        seen = set()
        for x in ms:
            if x.done != "ret":
                return "the code ends with %s" % (x.done,)
            got = x.read((b, 0), 4)
            want = None
            for c, tv in x.conds:
                c, cp = atom(c)
                if c == t or canon(c, 1) == canon(t, 1):
                    want = 1 if (tv == cp) == pol else 2
            if want is None:
                return "it branches on %s, must be %s" % (sh(x.conds), sh(t))
            if not same(got, want, 32):
                return "the wrong side is taken when %s" % sh(x.conds)
            seen.add(want)
        if len(seen) != 2:
            return "one side is never taken"
    return None


def atom(t):
    """(comparison, polarity)"""
    p = True
    while isinstance(t, tuple) and t[0] == "not":
        t, p = t[1], not p
    return t, p
