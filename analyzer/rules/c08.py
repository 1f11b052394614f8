"""C08: the built-in assembler outputs the encoding of each instruction. Abstract evaluation of the instruction emission functions in object
mode: registers and operand kinds are enumerated, displacements and immediates are unknowns over ranges; the bytes produced are decoded
by an independent decoder and the decoded instruction compared with the one requested."""
from absint import show, Ev, Limit, St
from front import AnalysisError, locs
from lib_asm import Out
from lib_enc import REG, Bad, agree, decode, expected, CC
from rules.c24 import bits as provenance

EXPLANATION = ("for every mnemonic and operand form: abstract evaluation of asm_ins0/1/2 in object mode, over all registers and over ranges covering every "
               "displacement and immediate; the emitted bytes and relocations are decoded by an independent x86-64 decoder")
FLOORS = {"registers": 900, "memory": 1500, "immediates": 300, "labels": 30, "plain": 5, "forms": 2500}
ASSUMPTIONS = ["asm_ins0/1/2 are how instructions reach the assembler; object_write*/object_symbol_relocate append bytes and record relocations (C09, C18, C19, C33 cover them)"]

A32, A64 = ["addl", "subl", "imull", "xorl", "orl", "andl"], ["addq", "subq", "imulq", "xorq", "orq", "andq"]
SETS = ["set" + c for c in ("a", "b", "be", "e", "g", "ge", "l", "le", "nb", "ne", "p", "np")]
JS = ["jmp", "jnae", "jnb", "je", "jne", "jna", "ja"]
FL2 = [o + s for o in ("add", "sub", "mul", "div") for s in ("ss", "sd")] + ["ucomiss", "ucomisd", "cvtss2sd", "cvtsd2ss"]
# operand forms the code generator emits (AT&T order); i8/i32/... name the immediates that have to be accepted
RR = [(m, "r4", "r4") for m in A32 + ["cmpl", "movl", "testl"]] + [(m, "r8", "r8") for m in A64 + ["cmpq", "movq", "testq"]] + \
    [("movw", "r2", "r2"), ("movb", "r1", "r1"), ("testb", "r1", "r1"), ("testw", "r2", "r2"),
     ("movzwl", "r2", "r4"), ("movzbl", "r1", "r4"), ("movswl", "r2", "r4"), ("movswq", "r2", "r8"), ("movslq", "r4", "r8"), ("movsbl", "r1", "r4"),
     ("movsbq", "r1", "r8"), ("movsbw", "r1", "r2")] + \
    [("movd", "r4", "x"), ("movd", "x", "r4"), ("movd", "r8", "x"), ("movd", "x", "r8"), ("movq", "r8", "x"), ("movq", "x", "r8"), ("movsd", "x", "x"),
     ("cvtsi2ss", "r8", "x"), ("cvtsi2sd", "r8", "x"), ("cvttss2si", "x", "r8"), ("cvttsd2si", "x", "r8")] + [(m, "x", "x") for m in FL2]
R1 = [(m, "r4") for m in ("divl", "idivl", "notl", "negl")] + [(m, "r8") for m in ("divq", "idivq", "notq", "negq", "pushq", "popq")] + \
    [(m, "r1") for m in SETS] + [("callq", "*")]
SHIFT = [(m, "cl", "r4") for m in ("sall", "sarl", "shrl")] + [(m, "cl", "r8") for m in ("salq", "sarq", "shrq")]
MEMF = [("movq", "r8", "m"), ("movq", "m", "r8"), ("movl", "r4", "m"), ("movl", "m", "r4"), ("movw", "r2", "m"), ("movw", "m", "r2"), ("movb", "r1", "m"),
        ("movb", "m", "r1"), ("leaq", "m", "r8"), ("leal", "m", "r4"), ("addq", "m", "r8"), ("movzwl", "m", "r4"), ("movzbl", "m", "r4"),
        ("movswl", "m", "r4"), ("movsbl", "m", "r4"), ("movswq", "m", "r8"), ("movslq", "m", "r8"), ("movsbq", "m", "r8"),
        ("movsd", "x", "m"), ("movsd", "m", "x"), ("movss", "x", "m")]
S8, S16, S32 = (-(1 << 7), (1 << 7) - 1), (-(1 << 15), (1 << 15) - 1), (-(1 << 31), (1 << 31) - 1)
IMMF = [("addq", "r8", S32), ("subq", "r8", S32), ("andq", "r8", S32), ("cmpq", "r8", S32), ("cmpl", "r4", (-128, (1 << 32) - 1)), ("imulq", "r8", S32),
        ("movl", "r4", (0, (1 << 32) - 1)), ("movl", "m", (S32[0], (1 << 32) - 1)), ("movw", "m", (S16[0], 65535)), ("movb", "m", (-128, 255)), ("movq", "m", S32),
        ("movq", "r8", S32), ("movabsq", "r8", (-(1 << 63), (1 << 63) - 1)), ("shrq", "r8", (0, 63)), ("btcq", "r8", (0, 63))]
CUTS = sorted({-(1 << 63), S32[0] - 1, S32[0], S16[0] - 1, S16[0], -129, -128, -1, 0, 1, 64, 128, 256, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63})
DISPS = [(-(1 << 31), -129), (-128, -1), (0, 0), (1, 127), (128, (1 << 31) - 1)]
D = ("p", "d")


def regions(lo, hi):
    """[lo, hi] cut at the points where the encodings may change"""
    c = [x for x in CUTS if lo < x <= hi]
    b = [lo] + c
    return [(a, (b[i + 1] - 1 if i + 1 < len(b) else hi)) for i, a in enumerate(b)]


class Enc:
    def __init__(self, ctx):
        self.ctx, P = ctx, ctx.P
        self.P = P

        def write(I, st, v):
            st.ev = (st.ev, Ev("enc", "w", tuple(v), 0, ""))
            return [(st, 0)]

        def m_write(I, st, a, n, f):
            if not isinstance(a[1], int):
                raise AnalysisError("object_write of %s bytes" % show(a[1]))
            l = I.deref(st, a[0])
            if l[0] != "i":
                l = ("i", l, 0)
            return write(I, st, [I.rd(st, ("i", l[1], l[2] + k)) for k in range(a[1])])

        def m_n(k):
            return lambda I, st, a, n, f: write(I, st, [a[0] >> 8 * j & 255 if isinstance(a[0], int) else ("b", ">>", a[0], 8 * j) for j in range(k)])

        def m_zero(I, st, a, n, f):
            return write(I, st, [0] * a[0])

        def m_rel(I, st, a, n, f):
            st.ev = (st.ev, Ev("enc", "r", tuple(a), 0, ""))
            return [(st, 0)]
        z = lambda I, st, a, n, f: [(st, 0)]
        mods = {"object_write": m_write, "object_write_byte": m_n(1), "object_write_quad": m_n(8), "object_write_zero": m_zero, "object_symbol_relocate": m_rel,
                "asm_emit_no_newline": z, "vfprintf": z, "printf": z, "rodata_get_label": z, "get_reg_name": lambda I, st, a, n, f: [(st, ("str", "%reg"))]}
        self.o = Out(ctx, 0, models=lambda o: mods, inline=["assemble_instruction"], tus=[P.need("assemble_instruction").file])
        self.I = self.o.I
        self.I.typed = True
        self.I.tt[D] = (64, False)
        self.num = {i: P.enum("REG_" + r) for i, r in enumerate(REG)}
        self.none = P.enum("REG_NONE")
        self.kinds = {P.enum("RELOCATE_64"): "64", P.enum("RELOCATE_32"): "32", P.enum("RELOCATE_32_RELATIVE"): "pc32"}

    def operand(self, o, d):
        P, x = self.P, (lambda **k: ("struct", "x", tuple(k.items())))
        S = lambda k, **f: ("struct", "operand", (("type", P.enum("OPERAND_" + k)),) + tuple(f.items()))
        v = lambda t: d if t == "?" else t & (1 << 64) - 1
        if o[0] in ("r", "*"):
            return S("REG" if o[0] == "r" else "STAR_REG", reg=x(reg=self.num[o[1]], upper_byte=0, size=o[2] if o[0] == "r" else 8))
        if o[0] == "h":
            return S("REG", reg=x(reg=self.num[o[1]], upper_byte=1, size=1))
        if o[0] == "x":
            return S("SSE_REG", sse_reg=o[1])
        if o[0] == "m":
            return S("MEM", mem=x(index=self.none if o[2] is None else self.num[o[2]], base=self.num[o[1]], scale=o[3], offset=v(o[4])))
        if o[0] == "i":
            return S("IMM_LABEL", imm_label=x(label_=-1, offset=v(o[1])))
        return S("IMM_LABEL" if o[0] == "il" else "IMM_LABEL_ABSOLUTE", imm_label=x(label_=o[1], offset=v(o[2])))

    def run(self, mn, ops, d, rng=None):
        """[(bytes, relocations)] of the successful outcomes, and whether an outcome is a diagnosed failure"""
        I, st = self.I, self.o.st.fork()
        ev0 = st.ev
        if rng:
            a, b = (x & (1 << 64) - 1 for x in rng)
            st.facts[D] = ("iv", a, b, frozenset())
        args = [("str", mn)] + [self.operand(o, d) for o in ops]
        if len(ops) > 2:
            q = ("g", "#ins")
            st.mem[q] = ("struct", "asm_instruction", (("mnemonic", ("str", mn)), ("ops", ("arr", tuple((i, a) for i, a in enumerate(args[1:] + [0] * (4 - len(ops))))))))
            rs = I.call_body(st, self.P.need("asm_ins"), [("addr", q)])
        else:
            rs = I.call_body(st, self.P.need("asm_ins%d" % len(ops)), args)
        dead = I.take_dead()
        self.ctx.functions |= I.analysed
        self.ctx.paths += len(rs) + len(dead)
        out = []
        for s, sig, rv in rs:
            l, e = [], s.ev
            while e is not ev0 and e:
                if e[1].k == "enc":
                    l.append(e[1])
                e = e[0]
            data, rel = [], {}
            for v in reversed(l):
                if v.name == "w":
                    data += [b & 255 if isinstance(b, int) else b for b in v.args]
                else:
                    lab, off, add, kind = v.args
                    add = add & (1 << 64) - 1 if isinstance(add, int) else add
                    rel[len(data) + off if isinstance(off, int) else off] = (self.kinds.get(kind, kind), lab, add - (1 << 64) if isinstance(add, int) and add >> 63 else add)
            out.append((data, rel, s))
        return out, bool(dead)

    def check(self, mn, ops, rng=None, required=True):
        """'' when every outcome is the encoding of the instruction (or, unless REQUIRED, a diagnosed failure)"""
        exp = expected(mn, ops)
        r, dead = self.run(mn, ops, D, rng)
        if rng and rng[0] != rng[1] and len(r) + (1 if dead else 0) != 1:
            a, b = rng              # the evaluation does not decide the whole range at once: its boundary values
            for v in sorted({a, a + 1, (a + b) // 2, b - 1, b} | {x for c in CUTS for x in (c - 1, c) if a <= x <= b}):
                sub = lambda o: tuple(v if x == "?" else x for x in o)
                w = self.check(mn, [sub(o) for o in ops], None, required)
                if w:
                    return w
            return ""
        if rng and rng[0] == rng[1]:
            return self.check(mn, [tuple(rng[0] if x == "?" else x for x in o) for o in ops], None, required)
        if len(r) > 1:
            return "depends on uninitialised memory"
        if not r:
            return "is not encoded" if required else ""
        data, rel, s = r[0]
        if not data and not rel:
            return "emits nothing"
        if exp is None:
            return "does not exist but is assembled (%s)" % text(data)
        lo, hi = rng or (0, 0)
        try:
            got = decode(data, rel)
            w = agree(exp, got, lambda t, n: provenance(t, n, {D: ("d", 64)}), lo, hi)
        except Bad as e:
            w = str(e)
        return w and "%s (%s)" % (w, text(data))


def text(data):
    return " ".join("%02x" % b if isinstance(b, int) else ".." for b in data)


def show_op(o):
    if o[0] == "r":
        return "%s:%d" % (REG[o[1]].lower(), o[2] * 8)
    if o[0] == "h":
        return REG[o[1]].lower() + ":high"
    if o[0] == "x":
        return "xmm%d" % o[1]
    if o[0] == "*":
        return "*" + REG[o[1]].lower()
    if o[0] == "m":
        return "%s(%s%s)" % (o[4], REG[o[1]].lower(), "" if o[2] is None else ",%s,%d" % (REG[o[2]].lower(), o[3]))
    if o[0] == "i":
        return "$%s" % o[1]
    return "%sL%d+%s" % ("$" if o[0] == "il" else "", o[1], o[2])


def op(k, i, rot=0):
    if k[0] == "r":
        return ("r", i, int(k[1]))
    if k == "x":
        return ("x", i)
    if k == "cl":
        return ("r", 1, 1)
    if k == "*":
        return ("*", i)
    if k == "m":
        return ("m", i, None, 1, "?")
    raise AnalysisError("operand kind " + k)


def run(ctx):
    P = ctx.P
    quick = ctx.tier == "quick"
    for r, t in (("registers", "register forms, over all sixteen registers in each position"),
                 ("memory", "memory forms, over all base registers and displacement ranges covering every 32 bit displacement"),
                 ("immediates", "immediate forms, over ranges covering every immediate the form has to take and the ones it has to refuse"),
                 ("labels", "forms that refer to a label: the relocation's position, kind, label and addend"),
                 ("plain", "instructions without operands"),
                 ("forms", "all mnemonics with all combinations of operand kinds: a form that is not encoded is reported, never assembled as something else")):
        ctx.rule(r, t)
    where = P.need("assemble_instruction").node
    enc = Enc(ctx)
    I = enc.I
    I.max_steps = 1 << 62
    loc = "%s:%s" % (P.need("assemble_instruction").file, "assemble_instruction")

    def ob(rule, mn, ops, rng=None, required=True):
        inst = "%s %s%s" % (mn, ",".join(show_op(o) for o in ops), "" if rng is None else " [%d..%d]" % rng)
        try:
            w = enc.check(mn, ops, rng, required)
        except Limit as e:
            w = "does not terminate"
        ctx.ob(rule, inst, not w, loc, "%s: %s" % (inst, w))

    jobs = build(P, quick)
    n = 8
    ctx.parallel([lambda k=k: [ob(*j) for j in jobs[k::n * 3]] for k in range(n * 3)])


def build(P, quick, forms=True):
    """(rule, mnemonic, operands, range of the unknown, whether it has to be encoded)"""
    jobs = []
    ks = range(16) if not quick else None
    for i, (mn, a, b) in enumerate(RR):
        for s in range(16):
            for d in (ks if ks else sorted({(s * 7 + i) % 16, s if s % 3 == i % 3 else (s + 8) % 16})):
                jobs.append(("registers", mn, [op(a, s), op(b, d)], None, True))
    for mn, a in R1:
        for s in range(16):
            jobs.append(("registers", mn, [op(a, s)], None, True))
    for mn, c, a in SHIFT:
        for s in range(16):
            jobs.append(("registers", mn, [op(c, 1), op(a, s)], None, True))
    for i, (mn, a, b) in enumerate(MEMF):
        for base in range(16):
            for j, dr in enumerate(DISPS):
                for r in (range(16) if not quick else {(base * 5 + j * 3 + i) % 16}):
                    jobs.append(("memory", mn, [op(a, base if a == "m" else r), op(b, base if b == "m" else r)], dr, True))
            for dr in ((-(1 << 63), S32[0] - 1), (1 << 31, (1 << 63) - 1)):
                if base in (0, 4) or not quick:
                    jobs.append(("memory", mn, [op(a, base if a == "m" else 2), op(b, base if b == "m" else 2)], dr, False))
    full = regions(-(1 << 63), (1 << 63) - 1)
    for i, (mn, a, (lo, hi)) in enumerate(IMMF):
        good = regions(lo, hi)
        for j, rg in enumerate(good):
            for r in (range(16) if not quick else {0, (3 + i + 5 * j) % 16, (12 + i + j) % 16}):
                t = op(a, r) if a != "m" else ("m", r, None, 1, (8, 0, -300)[j % 3])
                jobs.append(("immediates", mn, [("i", "?"), t], rg, True))
        for rg in full:
            if not any(x == rg for x in good):
                t = op(a, 0) if a != "m" else ("m", 5, None, 1, -8)
                jobs.append(("immediates", mn, [("i", "?"), t], rg, False))
    for mn in JS:
        for off in (0, 12):
            jobs.append(("labels", mn, [("a", 3, off)], None, off == 0))
    for off in (0, 5, -7, 1 << 20):
        for r in (0, 7, 12):
            jobs.append(("labels", "movabsq", [("il", 3, off), ("r", r, 8)], None, True))
            jobs.append(("labels", "movq", [("il", 3, off), ("r", r, 8)], None, True))
            jobs.append(("labels", "movq", [("il", 3, off), ("m", r, None, 1, 16)], None, True))
    for mn in ("cltd", "cqto", "leave", "ret", "ud2"):
        jobs.append(("plain", mn, [], None, True))
    if not forms:
        return jobs
    # everything else
    mns = sorted({m for l in (RR, R1, SHIFT, MEMF, IMMF) for m in (x[0] for x in l)} | set(JS) | {"cltd", "cqto", "leave", "ret", "ud2", "xor"} |
                 {m for m in literals(P) if expected(m, []) != 0})
    base = [("r", 8), ("r", 4), ("r", 2), ("r", 1), ("h",), ("x",), ("*",), ("m",), ("ms",), ("i",), ("il",), ("a",)]

    def mk(k, n):
        if k[0] == "r":
            return ("r", (0, 3, 9, 1, 6, 14)[n % 6], k[1])
        if k[0] == "h":
            return ("h", n % 4)
        if k[0] in ("x", "*"):
            return (k[0], (1, 10)[n % 2])
        if k[0] == "m":
            return ("m", (0, 13, 4)[n % 3], None, 1, (0, -8)[n % 2])
        if k[0] == "ms":
            return ("m", (0, 13, 3)[n % 3], (1, 9, 6)[n % 3], (1, 2, 4, 8)[n % 4], (0, 0, 16)[n % 3])
        if k[0] == "i":
            return ("i", (1, 1, 200, -5)[n % 4])
        return (k[0], 2, 0)
    for mi, mn in enumerate(mns):
        jobs.append(("forms", mn, [], None, False))
        for ai, a in enumerate(base):
            jobs.append(("forms", mn, [mk(a, mi + ai)], None, False))
            for bi, b in enumerate(base):
                for v in range(1 if quick else 6):
                    t = [mk(a, mi + ai + bi + v), mk(b, mi // 2 + ai + 2 * bi + v + 1)]
                    if not quick or (mi + ai + bi) % 4 == 0 or expected(mn, t):
                        jobs.append(("forms", mn, t, None, False))
    for mn in ("imulq", "movq", "addq", "shrq"):
        for t in ([("i", 5), ("r", 3, 8), ("r", 9, 8)], [("i", 500), ("r", 10, 8), ("r", 1, 8)], [("r", 3, 8), ("r", 1, 8), ("r", 0, 8)]):
            jobs.append(("forms", mn, t, None, False))
    return jobs


def literals(P):
    """string literals of the compiler: the mnemonics among them"""
    out = set()
    for d in [f.node for f in P.all_funcs] + list(P.globals.values()) + list(P.sglobals.values()):
        for q in d.walk():
            if q.k == "StringLiteral" and isinstance(q.v, str):
                out.add(q.v.strip('"'))
    return out
