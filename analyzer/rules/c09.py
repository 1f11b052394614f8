"""C09: the assembly text and the object under construction describe the same program. Every emission function is evaluated abstractly in
both output modes: instructions are parsed back from the text and decoded from the bytes and both have to be the instruction requested;
labels, sections and data are read back into the same sections, symbols and relocations."""
import re
from absint import show, Limit, Ev
from front import AnalysisError, locs
from lib_asm import Out, Wrong, assemble_data
from lib_enc import REG
from rules import c08
from rules.c24 import bits as provenance

EXPLANATION = ("abstract evaluation of every emission function in text mode and in object mode; the AT&T text is parsed and the bytes are decoded independently, and "
               "sections, symbols, bindings, alignments, relocations and data are compared; the driver is evaluated with each mode selected")
FLOORS = {"text": 700, "object": 1200, "items": 100, "strings": 250, "driver": 5}
ASSUMPTIONS = ["GNU as reads the text (operand syntax and data directives as documented)"]

NAMES = {}
for _i, _r in enumerate(REG):
    _l = _r.lower()
    if _i < 8:
        _b = {"rsp": "spl", "rbp": "bpl", "rsi": "sil", "rdi": "dil"}.get(_l, _l[1] + "l")
        NAMES.update({_l: (_i, 8), "e" + _l[1:]: (_i, 4), _l[1:]: (_i, 2), _b: (_i, 1)})
    else:
        NAMES.update({_l: (_i, 8), _l + "d": (_i, 4), _l + "w": (_i, 2), _l + "b": (_i, 1)})


def number(t):
    return ("d",) if t == "<d>" else int(t) & (1 << 64) - 1


def parse_operand(t):
    """one AT&T operand"""
    m = re.match(r"^(\*?)%(\w+)$", t)
    if m:
        n = m.group(2)
        if re.match(r"^xmm\d+$", n) and not m.group(1):
            return ("x", int(n[3:]))
        if n in NAMES:
            i, s = NAMES[n]
            return ("*", i) if m.group(1) and s == 8 else ("r", i, s) if not m.group(1) else ("?", t)
        return ("?", t)
    m = re.match(r"^(-?\d+|<d>)?\((%\w+)(?:,\s*(%\w+)(?:,\s*(\d))?)?\)$", t)
    if m:
        b, x = NAMES.get(m.group(2)[1:]), NAMES.get((m.group(3) or "")[1:])
        if not b or b[1] != 8 or m.group(3) and (not x or x[1] != 8):
            return ("?", t)
        return ("m", b[0], x and x[0], int(m.group(4) or 1), number(m.group(1) or "0"))
    m = re.match(r"^(\$?)(-?\d+|<d>)$", t)
    if m:
        return ("i" if m.group(1) else "abs", number(m.group(2)))
    m = re.match(r"^(\$?)([A-Za-z_.$][\w.$@]*)(?:([+-]+)(\d+|<d>))?$", t)
    if m:
        v = 0
        if m.group(4) == "<d>":
            v = ("d",) if m.group(3) == "+" else ("?",)
        elif m.group(4):
            v = int(m.group(4)) * (-1) ** m.group(3).count("-") & (1 << 64) - 1
        return ("il" if m.group(1) else "a", m.group(2), v)
    return ("?", t)


def parse_ins(line):
    m = re.match(r"^\s*([a-z]\w*)\s*(.*?)\s*$", line, re.S)
    if not m:
        return None
    ops, depth, cur = [], 0, ""
    for c in m.group(2):
        depth += (c == "(") - (c == ")")
        if c == "," and depth == 0:
            ops.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        ops.append(cur.strip())
    return m.group(1), [parse_operand(o) for o in ops]


class Txt:
    def __init__(self, ctx):
        self.ctx, P = ctx, ctx.P
        self.P = P
        self.o = Out(ctx, 1, tus=[P.need("get_reg_name").file], inline=["get_reg_name", "assemble_instruction"])
        self.I = self.o.I
        self.I.typed = True
        self.I.tt[c08.D] = (64, False)

        def sym(v, b, c):
            if b == 64 and c in "di" and provenance(v, 64, {c08.D: ("d", 64)}) == [("d", i) for i in range(64)]:
                return "<d>"
        self.o.X.symfmt = sym
        self.num = {i: P.enum("REG_" + r) for i, r in enumerate(REG)}
        self.none = P.enum("REG_NONE")
    operand = c08.Enc.operand

    def check(self, mn, ops, rng=None):
        I, st = self.I, self.o.st.fork()
        if rng:
            a, b = (x & (1 << 64) - 1 for x in rng)
            st.facts[c08.D] = ("iv", a, b, frozenset())
        t0 = st.mem.get(("g", "#text"), "")
        args = [("str", mn)] + [self.operand(o, c08.D) for o in ops]
        rs = I.call_body(st, self.P.need("asm_ins%d" % len(ops)), args)
        dead = I.take_dead()
        self.ctx.functions |= I.analysed
        self.ctx.paths += len(rs) + len(dead)
        if len(rs) != 1 or dead:
            return "is not printed" if not rs else "depends on uninitialised memory"
        txt = rs[0][0].mem.get(("g", "#text"), "")[len(t0):]
        if not txt.endswith("\n") or "\n" in txt[:-1]:
            return "is printed as %r" % txt
        p = parse_ins(txt)

        def want(o):
            c = lambda v: ("d",) if v == "?" else v & (1 << 64) - 1
            if o[0] == "m":
                return o[:4] + (c(o[4]),)
            if o[0] == "i":
                return ("i", c(o[1]))
            if o[0] in ("il", "a"):
                return (o[0], ".L%d" % -o[1], c(o[2]))
            return o
        w = (mn, [want(o) for o in ops])
        return "" if p == w else "is printed as %s" % txt.strip()


def items(P):
    """emission sequences (calls by name) and what they denote is decided by comparing the two modes and this module's expectation"""
    v = lambda n: ("num", n)
    lab = lambda n, o=0: ("lab", n, o)
    S = []
    for n in (0, 1, -1, 255, 1 << 31, -(1 << 31), (1 << 63) - 1, -(1 << 63), 0x0123456789abcdef, 200):
        S.append([("quad", v(n))])
        S.append([("byte", v(n & 255))])
    for o in (0, 1, 8, -1, -16, 1 << 31, -(1 << 33)):
        S.append([("byte", v(1)), ("quad", lab("foo", o)), ("quad", lab("bar", o))])
    for n in (0, 1, 3, 16, 4096):
        S.append([("byte", v(7)), ("zero", n), ("byte", v(9))])
    for a in (1, 2, 4, 8, 16, 32, 64):
        for k in (0, 1, 7, a):
            S.append([("section", ".data")] + [("byte", v(5))] * (k % 20) + [("align", a), ("label", 0, "x"), ("byte", v(6))])
    for g in (0, 1):
        for sec in (".text", ".data", ".rodata", ".bss"):
            S.append([("section", sec), ("byte", v(1)), ("label", g, "sym"), ("byte", v(2)), ("section", ".other"), ("label", 1 - g, "other"), ("quad", lab("sym", 4)),
                      ("section", sec), ("label", g, "again"), ("byte", v(3))])
            S.append([("section", sec), ("section", sec), ("byte", v(1)), ("section", ".text"), ("byte", v(2)), ("section", sec), ("byte", v(3))])
        S.append([("label", g, "a"), ("label", g, "b"), ("byte", v(1)), ("label", g, -9), ("quad", lab(-9)), ("quad", lab("b"))])
        S.append([("quad", lab("later", 2)), ("label", g, "later"), ("byte", v(1))])
        S.append([("label", g, "sym_with_a_rather_long_name_of_50_characters_______")])
    S.append([("section", ".data"), ("align", 64), ("byte", v(1)), ("align", 4), ("byte", v(2)), ("align", 16)])
    for k in (0, 3, 17):
        S.append([("byte", v(1))] * k + [("jmp", -7), ("byte", v(2)), ("label", 0, -7), ("mov", "ext", 40), ("jmp", "ext"), ("mov", -7, 0)])
        S.append([("section", ".init")] + [("byte", v(1))] * k + [("mov", "ext", -3), ("section", ".text"), ("jmp", "ext"), ("label", 1, "ext")])
    S.append([("str", b"hello"), ("str", b"")])
    S.append([("section", ".rodata"), ("align", 4), ("label", 0, "s1"), ("str", b"a\0b"), ("align", 4), ("label", 0, "s2"), ("str", b"\xff\x80\n\t\"\\'?")])
    S.append([("byte", v(1)), ("comment", "a comment"), ("byte", v(2))])
    S.append([("section", ".text"), ("byte", v(1)), ("section", ".data"), ("comment", "x"), ("section", ".text"), ("byte", v(2))])
    S.append([("pool", [b"one", b"two", b"one", b"", b"tw", b"one\0", b"\x01" + b"1"])])
    S.append([("pool", [b"x%d" % i for i in range(12)] + [b"x3", b"x11"])])
    return S


def emit(ctx, o, seq):
    """run the sequence; returns the expected program {section: (bytes, relocs, align)}, symbols"""
    P = ctx.P
    X = o.X
    E = {".text": [[], [], 1]}
    syms, cur, used, ins = [], ".text", {".text"}, []
    sv = lambda b: X.mksv(b.decode("latin-1"))

    def lid(n):
        return n if isinstance(n, int) else o.call("register_label_name", [X.mksv(n)])
    nm = lambda n: ".L%d" % -n if isinstance(n, int) else n
    op = lambda l, off, k="OPERAND_IMM_LABEL_ABSOLUTE": ("struct", "operand", (("type", P.enum(k)), ("imm_label", ("struct", "x", (("label_", l), ("offset", off & (1 << 64) - 1))))))

    def val(x):
        return op(-1, x[1]) if x[0] == "num" else op(lid(x[1]), x[2])
    for it in seq:
        s = E.setdefault(cur, [[], [], 1])
        k = it[0]
        if k == "section":
            cur = it[1]
            used.add(cur)
            o.call("asm_section", [("str", cur)])
        elif k == "quad":
            if it[1][0] == "lab":
                s[1].append((len(s[0]), "64", nm(it[1][1]), it[1][2]))
            s[0] += [(it[1][1] if it[1][0] == "num" else 0) >> 8 * j & 255 for j in range(8)]
            o.call("asm_quad", [val(it[1])])
        elif k == "byte":
            s[0].append(it[1][1] & 255)
            o.call("asm_byte", [val(it[1])])
        elif k == "zero":
            s[0] += [0] * it[1]
            o.call("asm_zero", [it[1]])
        elif k == "align":
            while len(s[0]) % it[1]:
                s[0].append(0)
            s[2] = max(s[2], it[1])
            o.call("asm_align", [it[1]])
        elif k == "label":
            syms.append((nm(it[2]), cur, len(s[0]), it[1]))
            o.call("asm_label", [it[1], lid(it[2])])
        elif k == "str":
            s[0] += list(it[1]) + [0]
            o.call("asm_string", [sv(it[1])])
        elif k == "jmp":
            if o.text:
                ins.append((cur, "jmp", [("a", nm(it[1]), 0)]))
            else:
                s[1].append((len(s[0]) + 1, "pc32", nm(it[1]), -4))
                s[0] += [0xe9, 0, 0, 0, 0]
            o.call("asm_ins1", [("str", "jmp"), op(lid(it[1]), 0)])
        elif k == "mov":
            if o.text:
                ins.append((cur, "movabsq", [("il", nm(it[1]), it[2] & (1 << 64) - 1), ("r", 7, 8)]))
            else:
                s[1].append((len(s[0]) + 2, "64", nm(it[1]), it[2]))
                s[0] += [0x48, 0xbf] + [0] * 8
            r = ("struct", "operand", (("type", P.enum("OPERAND_REG")), ("reg", ("struct", "x", (("reg", P.enum("REG_RDI")), ("upper_byte", 0), ("size", 8))))))
            o.call("asm_ins2", [("str", "movabsq"), op(lid(it[1]), it[2], "OPERAND_IMM_LABEL"), r])
        elif k == "comment":
            o.call("asm_comment", [("str", "%s"), ("str", it[1])])
        elif k == "pool":
            ids = [o.call("rodata_register", [sv(b)]) for b in it[1]]
            o.call("asm_section", [("str", ".data")])
            d = E.setdefault(".data", [[], [], 1])
            ids2 = []
            for i in ids:
                o.call("asm_quad", [op(i, 0)])
            o.call("rodata_codegen", [])
            return ("pool", it[1])
    return E, syms, ins


def pooled(prog, ss):
    """what the string pool's references denote"""
    d, r = prog.sec(".data"), prog.sec(".rodata")
    if sorted(x[0] for x in d.relocs) != [8 * i for i in range(len(ss))] or any(x[1] != "64" for x in d.relocs):
        return "references are not relocated"
    for off, _, nme, add in d.relocs:
        b = ss[off // 8] + b"\0"
        sy = prog.sym(nme)
        if len(sy) != 1 or sy[0][1] != ".rodata":
            return "label %s is defined %d times" % (nme, len(sy))
        p = sy[0][2] + add
        if bytes(x if isinstance(x, int) else 256 & 255 for x in r.data[p:p + len(b)]) != b:
            return "%r is not at its label" % b
        if sy[0][3]:
            return "string label is global"
        if p % 4:
            return "string is not aligned"
    return ""


def do_items(ctx, l, rule, modes=(0, 1)):
    P = ctx.P
    for n, seq in l:
        sn = repr(seq)
        progs = {}
        for mode in modes:
            inst = "%s in %s mode" % (sn if len(sn) < 200 else sn[:190] + "#%d" % n, "text" if mode else "object")
            o = Out(ctx, mode, tus=[P.need("assemble_instruction").file, P.need("get_reg_name").file], inline=["assemble_instruction", "get_reg_name"])
            try:
                want = emit(ctx, o, seq)
                prog = o.finish() if not o.dead else None
            except (Wrong, Limit) as e:
                ctx.ob(rule, inst, False, "assembler.c", str(e))
                continue
            if prog is None:
                ctx.ob(rule, inst, False, "assembler.c", "is refused")
                continue
            w = ""
            if want[0] == "pool":
                w = pooled(prog, want[1])
            else:
                E, syms, ins = want
                for name, (data, rel, al) in E.items():
                    s = prog.sec(name)
                    if s.data != data:
                        k = next((i for i, (a, b) in enumerate(zip(s.data, data)) if a != b), min(len(data), len(s.data)))
                        w = w or "section %s holds %s instead of %s at byte %d (%d bytes instead of %d)" % (name, s.data[k:k + 1], data[k:k + 1], k, len(s.data), len(data))
                    if sorted(s.relocs) != sorted(rel):
                        w = w or "section %s has relocations %s instead of %s" % (name, s.relocs, rel)
                    if max(s.align, 1) != al:
                        w = w or "section %s has alignment %s instead of %d" % (name, s.align, al)
                got = sorted((a, b, c, int(bool(g))) for a, b, c, g in prog.symbols if b is not None)
                if got != sorted(syms):
                    w = w or "defines %s instead of %s" % (got, sorted(syms))
                free = [a for a, b, c, g in prog.symbols if b is None and not g] if not mode else []
                if free:
                    w = w or "the undefined %s are local" % free
                for s in prog.order:
                    if s.name not in E and (s.data or s.relocs):
                        w = w or "section %s is not empty" % s.name
                if [(a,) + (parse_ins(c) or ("?", c)) for a, b, c in prog.ins] != ins:
                    w = w or "holds the instructions %s" % [c for _, _, c in prog.ins]
            ctx.ob(rule, inst, not w, "assembler.c", w)


def run(ctx):
    P = ctx.P
    quick = ctx.tier == "quick"
    for r, t in (("text", "instructions: the text names the mnemonic and the operands requested, for every register, displacement and immediate"),
                 ("object", "instructions: the bytes and relocations denote the same request"),
                 ("items", "labels, sections, data and padding: both modes give the same sections, symbols, bindings, relocations and bytes"),
                 ("strings", "strings: both modes give the same bytes, for every byte followed by every kind of character"),
                 ("driver", "selecting an output mode changes nothing but the output")):
        ctx.rule(r, t)
    jobs = c08.build(P, True, forms=False)
    # text
    txt = Txt(ctx)
    enc = c08.Enc(ctx)
    txt.I.max_steps = enc.I.max_steps = 1 << 62
    seen, tj = set(), []
    kinds = lambda ops: tuple(o[0] for o in ops)
    for rule, mn, ops, rng, req in jobs:
        if not req:
            continue
        if rule == "registers" or rule == "plain":
            k = tuple(ops) if len(ops) == 1 else (kinds(ops), ops[0], None) if ops else mn
            k2 = (kinds(ops), None, ops[-1]) if len(ops) == 2 else k
            if k in seen and k2 in seen and (mn,) in seen:
                continue
            seen |= {k, k2, (mn,)}
        if rule in ("registers", "memory", "immediates", "labels", "plain"):
            ops = [("a", -5, o[2]) if o[0] == "a" else ("il", -6, o[2]) if o[0] == "il" else o for o in ops]
            if rng and rng[0] == rng[1]:
                ops = [tuple(rng[0] if x == "?" else x for x in o) for o in ops]
            tj.append((mn, ops, rng))
    tj += [("jmp", [("a", -5, 12)], None), ("movabsq", [("i", "?"), ("r", 9, 8)], (1 << 63, (1 << 64) - 1)), ("leaq", [("m", 5, None, 1, "?"), ("r", 9, 8)], (1 << 40, 1 << 50))]

    def do_text(l):
        for mn, ops, rng in l:
            inst = "%s %s%s" % (mn, ",".join(c08.show_op(o) for o in ops), "" if rng is None else " [%d..%d]" % rng)
            try:
                w = txt.check(mn, ops, rng)
            except Wrong as e:
                w = str(e)
            ctx.ob("text", inst, not w, "asm_emit_operand", "%s %s" % (inst, w))

    def do_obj(l):
        for rule, mn, ops, rng, req in l:
            inst = "%s %s%s" % (mn, ",".join(c08.show_op(o) for o in ops), "" if rng is None else " [%d..%d]" % rng)
            try:
                w = enc.check(mn, ops, rng, req)
            except Limit:
                w = "does not terminate"
            ctx.ob("object", inst, not w, "assemble_instruction", "%s: %s" % (inst, w))
    oj = [j for i, j in enumerate(jobs) if j[4] and (j[0] in ("labels", "plain", "immediates") or not quick or i % 3 == 0)]
    tasks = [lambda k=k: do_text(tj[k::4]) for k in range(4)] + [lambda k=k: do_obj(oj[k::8]) for k in range(8)]

    its = list(enumerate(items(P)))
    tasks += [lambda k=k: do_items(ctx, its[k::8], "items") for k in range(8)]
    strs = []
    for c in range(256):
        strs.append((c, [("str", bytes([c]) + b"7"), ("str", bytes([c, c, 65, c]))]))
    if not quick:
        strs += [(1000 + c, [("str", bytes([c, d])) for d in range(256)]) for c in range(256)]
    tasks += [lambda k=k: do_items(ctx, strs[k::16], "strings") for k in range(16)]
    tasks += [lambda: driver(ctx)]
    ctx.parallel(tasks)


def driver(ctx):
    """the driver's calls with -S are those without it, but for the ones that choose the output"""
    P = ctx.P
    entry = next((f for f in P.all_funcs if f.file and f.file.endswith("main.c") and any(
        q.k == "CallExpr" and q.ch and any(r.v == "asm_init_text_out" for r in q.ch[0].walk() if r.k == "DeclRefExpr") for q in f.node.walk())), None)
    main = P.need("main")
    ctx.require(entry is not None, "no function of main.c selects the text output")
    own = [f.name for f in P.all_funcs if f.file == main.file and f.static]
    runs = {}
    for mode in ("S", "c", ""):
        for out in (0, ("str", "out")):
            for md in (0, 1):
                # helpers of the driver are evaluated with it, everything else is an event
                I = ctx.interp(inline=own)
                I.unroll, I.max_steps = 64, 400000
                args = ("struct", "arguments", tuple({"flag_S": int(mode == "S"), "flag_c": int(mode == "c"), "flag_E": 0, "flag_MD": md, "n_include": 0, "n_define": 0, "n_undefine": 0, "outfile": out,
                                                       "n_operand": 1, "mt_path": 0, "mf_path": 0}.items()))
                from absint import St
                st = St()
                st.mem[("g", "#args")] = args
                ps = []
                vals = []
                for p in entry.params:
                    vals.append(("addr", ("g", "#args")) if "arguments" in p.t[1] else ("str", "dir/x.c"))
                rs = I.call_body(st, entry, vals)
                I.take_dead()
                ctx.functions |= I.analysed
                ctx.paths += len(rs)
                seqs = set()
                for s, sig, rv in rs:
                    l, e = [], s.ev
                    while e:
                        if e[1].k in ("call", "ev") or e[1].name and e[1].k != "write":
                            l.append(e[1])
                        e = e[0]
                    seqs.add(tuple((v.name, ) for v in reversed(l)))
                runs[mode, out != 0, md] = seqs
    sel = {"asm_init_text_out", "asm_init_object", "elf_write_object", "coff_write_object", "allocate_printf", "memcpy", "snprintf"}
    for (mode, out, md), seqs in sorted(runs.items()):
        if mode == "S":
            continue
        base = {tuple(x for x in s if x[0] not in sel) for s in runs["S", out, md]}
        mine = {tuple(x for x in s if x[0] not in sel) for s in seqs}
        base = {tuple(x for x in s if not x[0].startswith("cc_") and not x[0].startswith("sv_")) for s in base}
        mine = {tuple(x for x in s if not x[0].startswith("cc_") and not x[0].startswith("sv_") and x[0] != "realloc") for s in mine}
        base = {tuple(x for x in s if x[0] != "realloc") for s in base}
        inst = "mode -%s, %s output name, %s dependencies" % (mode or "(link)", "with" if out else "no", "with" if md else "no")
        diff = ""
        if base != mine:
            a, b = sorted(base ^ mine, key=len)[:1][0], None
            diff = "the steps differ from those of -S: %s" % ", ".join(x[0] for x in a)[:300]
        ctx.ob("driver", inst, not diff, "%s:%s" % (main.file, entry.name), diff)
    # what -S, -c and neither select
    for (mode, out, md), seqs in sorted(runs.items()):
        for s in seqs:
            names = [x[0] for x in s]
            t, o = names.count("asm_init_text_out"), names.count("asm_init_object")
            ok = (t, o) == ((1, 0) if mode == "S" else (0, 1))
            ctx.ob("driver", "selection with -%s, %s output name, %s dependencies" % (mode or "(link)", "with" if out else "no", "with" if md else "no"), ok, "%s:%s" % (main.file, entry.name),
                   "selects %s" % ("text" if t else "object"))
            break
