"""Independent x86-64 instruction decoder and AT&T operand specification (Intel SDM vol. 2), both into one normal form
(operation, operand size, operands); operands are ("r", n, size), ("h", n), ("x", n), ("m", base, index, scale, displacement field),
("i", field) where a field is ("bytes", [b...], signed, relocation) and is compared with the value it has to denote."""

REG = ["RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI"] + ["R%d" % i for i in range(8, 16)]
CC = ["o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"]
CCN = {c: i for i, c in enumerate(CC)}
CCN.update({"nae": 2, "c": 2, "nb": 3, "nc": 3, "z": 4, "nz": 5, "na": 6, "nbe": 7, "pe": 10, "po": 11, "nge": 12, "nl": 13, "ng": 14, "nle": 15})
ALU = ["add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"]
SUF = {"b": 1, "w": 2, "l": 4, "q": 8}
SSE = {0x51: "sqrt", 0x58: "add", 0x59: "mul", 0x5c: "sub", 0x5d: "min", 0x5e: "div", 0x5f: "max"}
SH = ["rol", "ror", "rcl", "rcr", "sal", "shr", "sal", "sar"]


class Bad(Exception):
    pass


def decode(b, rel):
    """one instruction in bytes B (ints; displacement and immediate bytes may be anything); REL: {offset: (kind, label, addend)}"""
    i, p66, pf2, pf3, rex = 0, 0, 0, 0, None

    def op(k):
        if k >= len(b) or not isinstance(b[k], int):
            raise Bad("truncated or unknown opcode byte %d" % k)
        return b[k] & 255
    while 1:
        c = op(i)
        if c in (0x66, 0xf2, 0xf3):
            p66, pf2, pf3 = p66 or c == 0x66, pf2 or c == 0xf2, pf3 or c == 0xf3
            if rex is not None:
                rex = None
            i += 1
        elif c & 0xf0 == 0x40:
            rex = c
            i += 1
        else:
            break
    W, R, X, B = ((rex or 0) >> k & 1 for k in (3, 2, 1, 0))
    o = op(i)
    i += 1
    osz = 8 if W else 2 if p66 else 4
    state = {"i": i}

    def reg(n, sz):
        if sz == 1 and rex is None and n in (4, 5, 6, 7):
            return ("h", n - 4)
        return ("r", n, sz)

    def field(n, signed):
        k = state["i"]
        if k + n > len(b):
            raise Bad("truncated immediate or displacement")
        state["i"] = k + n
        r = rel.get(k)
        if r is not None:
            used.add(k)
            if {"64": 8, "32": 4, "pc32": 4}.get(r[0]) != n:
                raise Bad("relocation %s on a %d byte field" % (r[0], n))
        return ("bytes", b[k:k + n], signed, r, k)

    used = set()

    def modrm(size, xmm=False):
        m = op(state["i"])
        state["i"] += 1
        mod, rg, rm = m >> 6, m >> 3 & 7, m & 7
        if mod == 3:
            return rg | R << 3, rg, (("x", rm | B << 3) if xmm else reg(rm | B << 3, size))
        base, index, scale = rm | B << 3, None, 1
        if rm == 4:
            s = op(state["i"])
            state["i"] += 1
            scale, index, base = 1 << (s >> 6), (s >> 3 & 7) | X << 3, (s & 7) | B << 3
            if index == 4:
                index, scale = None, 1
            if s & 7 == 5 and mod == 0:
                base = None
        elif rm == 5 and mod == 0:
            base = "rip"
        d = field(1, True) if mod == 1 else field(4, True) if mod == 2 or base is None or base == "rip" else None
        return rg | R << 3, rg, ("m", base, index, scale, d)

    def done(name, size, ops):
        if state["i"] != len(b):
            raise Bad("%d bytes left over after the instruction" % (len(b) - state["i"]))
        if set(rel) - used:
            raise Bad("relocation at offset %d is not at an immediate" % min(set(rel) - used))
        return (name, size, ops)

    def imm(sz, opsz):
        return ("i", field(min(sz, 4), True), opsz)
    if o < 0x40 and o & 7 < 6:
        k, s = ALU[o >> 3], 1 if o & 1 == 0 else osz
        if o & 7 < 4:
            g, _, rm = modrm(s)
            a, c = rm, reg(g, s)
            return done(k, s, [a, c] if o & 2 == 0 else [c, a])
        return done(k, s, [("r", 0, s), imm(s, s)])
    if o in (0x80, 0x81, 0x83):
        s = 1 if o == 0x80 else osz
        _, e, rm = modrm(s)
        return done(ALU[e], s, [rm, ("i", field(1, True), s) if o != 0x81 else imm(s, s)])
    if o in (0x84, 0x85):
        s = 1 if o == 0x84 else osz
        g, _, rm = modrm(s)
        return done("test", s, [rm, reg(g, s)])
    if o in (0x88, 0x89, 0x8a, 0x8b):
        s = 1 if o & 1 == 0 else osz
        g, _, rm = modrm(s)
        return done("mov", s, [rm, reg(g, s)] if o < 0x8a else [reg(g, s), rm])
    if o == 0x8d:
        g, _, rm = modrm(osz)
        if rm[0] != "m":
            raise Bad("lea of a register")
        return done("lea", osz, [reg(g, osz), rm])
    if o == 0x63:
        g, _, rm = modrm(4)
        return done("movs4", osz, [reg(g, osz), rm])
    if o in (0x69, 0x6b):
        g, _, rm = modrm(osz)
        return done("imul", osz, [reg(g, osz), rm, imm(osz, osz) if o == 0x69 else ("i", field(1, True), osz)])
    if o & 0xf8 in (0x50, 0x58):
        return done("push" if o < 0x58 else "pop", 2 if p66 else 8, [("r", o & 7 | B << 3, 2 if p66 else 8)])
    if o & 0xf8 == 0xb0:
        return done("mov", 1, [reg(o & 7 | B << 3, 1), ("i", field(1, True), 1)])
    if o & 0xf8 == 0xb8:
        return done("mov", osz, [reg(o & 7 | B << 3, osz), ("i", field(osz, True), osz)])
    if o in (0xc6, 0xc7):
        s = 1 if o == 0xc6 else osz
        _, e, rm = modrm(s)
        if e:
            raise Bad("opcode %02x /%d" % (o, e))
        return done("mov", s, [rm, imm(s, s)])
    if o in (0xa8, 0xa9):
        s = 1 if o == 0xa8 else osz
        return done("test", s, [("r", 0, s), imm(s, s)])
    if o in (0xc0, 0xc1, 0xd0, 0xd1, 0xd2, 0xd3):
        s = 1 if o & 1 == 0 else osz
        _, e, rm = modrm(s)
        return done(SH[e], s, [rm, ("i", field(1, False), 1) if o < 0xd0 else ("i", 1, 1) if o < 0xd2 else ("r", 1, 1)])
    if o == 0x90 and not p66 and not pf3:
        return done("nop", 0, [])
    if o == 0x98:
        return done("cbw", osz, [])
    if o == 0x99:
        return done("cwd", osz, [])
    if o == 0xc3:
        return done("ret", 8, [])
    if o == 0xc9:
        return done("leave", 8, [])
    if o in (0xe8, 0xe9):
        return done("call" if o == 0xe8 else "jmp", 8, [("rel", field(4, True), len(b))])
    if o == 0xeb:
        return done("jmp", 8, [("rel", field(1, True), len(b))])
    if o & 0xf0 == 0x70:
        return done("j", 8, [o & 15, ("rel", field(1, True), len(b))])
    if o in (0xf6, 0xf7):
        s = 1 if o == 0xf6 else osz
        _, e, rm = modrm(s)
        if e < 2:
            return done("test", s, [rm, imm(s, s)])
        return done([None, None, "not", "neg", "mul", "imul1", "div", "idiv"][e], s, [rm])
    if o in (0xfe, 0xff):
        s = 1 if o == 0xfe else osz
        _, e, rm = modrm(s)
        if e < 2:
            return done(["inc", "dec"][e], s, [rm])
        if o == 0xff and e in (2, 4, 6):
            if rm[0] == "r":
                rm = ("r", rm[1], 8)
            return done({2: "call*", 4: "jmp*", 6: "push"}[e], 8, [rm])
        raise Bad("opcode %02x /%d" % (o, e))
    if o == 0x8f:
        _, e, rm = modrm(8)
        if e:
            raise Bad("opcode 8f /%d" % e)
        return done("pop", 8, [("r", rm[1], 8) if rm[0] == "r" else rm])
    if o != 0x0f:
        raise Bad("opcode %02x" % o)
    o = op(state["i"])
    state["i"] += 1
    if o == 0x0b:
        return done("ud2", 0, [])
    if o & 0xf0 == 0x80:
        return done("j", 8, [o & 15, ("rel", field(4, True), len(b))])
    if o & 0xf0 == 0x90:
        _, _, rm = modrm(1)
        return done("set", 1, [o & 15, rm])
    if o & 0xf0 == 0x40:
        g, _, rm = modrm(osz)
        return done("cmov", osz, [o & 15, reg(g, osz), rm])
    if o == 0xaf:
        g, _, rm = modrm(osz)
        return done("imul", osz, [reg(g, osz), rm])
    if o in (0xb6, 0xb7, 0xbe, 0xbf):
        s = 1 if o & 1 == 0 else 2
        g, _, rm = modrm(s)
        return done(("movz%d" if o < 0xb8 else "movs%d") % s, osz, [reg(g, osz), rm])
    if o == 0xba:
        _, e, rm = modrm(osz)
        if e < 4:
            raise Bad("opcode 0f ba /%d" % e)
        return done(["bt", "bts", "btr", "btc"][e - 4], osz, [rm, ("i", field(1, False), 1)])
    if pf2 + pf3 + p66 > 1:
        raise Bad("several mandatory prefixes")
    pre = "f2" if pf2 else "f3" if pf3 else "66" if p66 else ""
    if o in (0x10, 0x11) and pre in ("f2", "f3"):
        g, _, rm = modrm(8, True)
        g = ("x", g)
        return done("movsd" if pf2 else "movss", 0, [g, rm] if o == 0x10 else [rm, g])
    if o in (0x10, 0x11, 0x28, 0x29) and pre in ("", "66"):
        g, _, rm = modrm(8, True)
        g = ("x", g)
        return done(("movup" if o < 0x20 else "movap") + ("d" if p66 else "s"), 0, [g, rm] if not o & 1 else [rm, g])
    if o in (0x6e, 0x7e) and pre == "66":
        g, _, rm = modrm(8 if W else 4)
        g = ("x", g)
        return done("movd", 8 if W else 4, [g, rm] if o == 0x6e else [rm, g])
    if o == 0x7e and pre == "f3" or o == 0xd6 and pre == "66":
        g, _, rm = modrm(8, True)
        g = ("x", g)
        return done("movd", 8, [g, rm] if o == 0x7e else [rm, g])
    if o == 0x2a and pre in ("f2", "f3"):
        g, _, rm = modrm(8 if W else 4)
        return done("cvtsi2sd" if pf2 else "cvtsi2ss", 8 if W else 4, [("x", g), rm])
    if o in (0x2c, 0x2d) and pre in ("f2", "f3"):
        g, _, rm = modrm(8, True)
        return done(("cvtt" if o == 0x2c else "cvt") + ("sd2si" if pf2 else "ss2si"), 8 if W else 4, [reg(g, 8 if W else 4), rm])
    if o == 0x5a and pre in ("f2", "f3"):
        g, _, rm = modrm(8, True)
        return done("cvtsd2ss" if pf2 else "cvtss2sd", 0, [("x", g), rm])
    if o in (0x2e, 0x2f) and pre in ("", "66"):
        g, _, rm = modrm(8, True)
        return done(("ucomis" if o == 0x2e else "comis") + ("d" if p66 else "s"), 0, [("x", g), rm])
    if o in (0x54, 0x55, 0x56, 0x57) and pre in ("", "66"):
        g, _, rm = modrm(8, True)
        return done({0x54: "and", 0x55: "andn", 0x56: "or", 0x57: "xor"}[o] + "p" + ("d" if p66 else "s"), 0, [("x", g), rm])
    if o in SSE:
        g, _, rm = modrm(8, True)
        return done(SSE[o] + {"": "ps", "66": "pd", "f3": "ss", "f2": "sd"}[pre], 0, [("x", g), rm])
    raise Bad("opcode 0f %02x" % o)


# ---------------------------------------------------------------- specification of the AT&T operand forms
# operands: ("r", n, size) ("h", n) ("x", n) ("*", n) ("m", base, index, scale, disp) ("i", value) ("il", label, off) ("a", label, off)
def isrm(o, s):
    return o[0] == "m" or o[0] == "r" and o[2] == s or s == 1 and o[0] == "h"


def isr(o, s):
    return o[0] == "r" and o[2] == s or s == 1 and o[0] == "h"


def isxm(o):
    return o[0] in ("x", "m")


def isi(o):
    return o[0] in ("i", "il")


def expected(mn, ops):
    """normal form of the AT&T instruction (operands in AT&T order), None when the form does not exist, 0 for an unknown mnemonic"""
    d = list(reversed(ops))                 # destination first
    n = len(d)
    none = {"cltd": ("cwd", 4), "cqto": ("cwd", 8), "leave": ("leave", 8), "ret": ("ret", 8), "ud2": ("ud2", 0), "nop": ("nop", 0)}
    if mn in none:
        return none[mn] + ([],) if n == 0 else None
    if mn == "xor":
        if n == 2 and d[0][0] == "r":
            return expected("xor" + {v: k for k, v in SUF.items()}[d[0][2]], ops)
        return None
    if mn[:-1] in ALU + ["test", "mov"] and mn[-1] in SUF:
        k, s = mn[:-1], SUF[mn[-1]]
        if n != 2:
            return None
        if isrm(d[0], s) and (isr(d[1], s) or isi(d[1]) or d[1][0] == "m" and d[0][0] != "m"):
            return (k, s, d)
        if mn == "movq" and (d[0][0] == "x" and isrm(d[1], 8) or d[1][0] == "x" and isrm(d[0], 8) or d[0][0] == d[1][0] == "x"):
            return ("movd", 8, d)
        return None
    if mn == "movabsq":
        return ("mov", 8, d) if n == 2 and isr(d[0], 8) and isi(d[1]) else None
    if mn[:-1] == "imul" and mn[-1] in SUF:
        s = SUF[mn[-1]]
        if n == 1 and isrm(d[0], s):
            return ("imul1", s, d)
        if s == 1 or n < 2 or n > 3:
            return None
        if n == 2 and isr(d[0], s) and isi(d[1]):
            return ("imul", s, [d[0], d[0], d[1]])
        if n == 2 and isr(d[0], s) and isrm(d[1], s) or n == 3 and isr(d[0], s) and isrm(d[1], s) and isi(d[2]):
            return ("imul", s, d)
        return None
    if mn[:-1] in ("div", "idiv", "mul", "not", "neg", "inc", "dec") and mn[-1] in SUF:
        return (mn[:-1], SUF[mn[-1]], d) if n == 1 and isrm(d[0], SUF[mn[-1]]) else None
    if mn[:-1] in ("sal", "shl", "sar", "shr", "rol", "ror") and mn[-1] in SUF:
        s = SUF[mn[-1]]
        k = "sal" if mn[:-1] == "shl" else mn[:-1]
        if n == 1 and isrm(d[0], s):
            return (k, s, [d[0], ("i", 1)])
        if n == 2 and isrm(d[0], s) and (d[1] == ("r", 1, 1) or d[1][0] == "i"):
            return (k, s, d)
        return None
    if mn[:-1] in ("bt", "btc", "bts", "btr") and mn[-1] in "wlq":
        s = SUF[mn[-1]]
        return (mn[:-1], s, d) if n == 2 and isrm(d[0], s) and d[1][0] == "i" else None
    if mn[:-1] == "lea" and mn[-1] in "wlq":
        return ("lea", SUF[mn[-1]], d) if n == 2 and isr(d[0], SUF[mn[-1]]) and d[1][0] == "m" else None
    if mn[:4] in ("movz", "movs") and len(mn) == 6 and mn[4] in SUF and mn[5] in SUF and SUF[mn[4]] < SUF[mn[5]] and mn != "movzlq":
        a, b = SUF[mn[4]], SUF[mn[5]]
        return ("%s%d" % (mn[:4], a), b, d) if n == 2 and isr(d[0], b) and isrm(d[1], a) else None
    if mn in ("pushq", "popq"):
        return (mn[:-1], 8, d) if n == 1 and (isr(d[0], 8) or d[0][0] == "m") else None
    if mn.startswith("set") and mn[3:] in CCN:
        return ("set", 1, [CCN[mn[3:]]] + d) if n == 1 and isrm(d[0], 1) else None
    if mn == "jmp" or mn in ("call", "callq"):
        k = "jmp" if mn == "jmp" else "call"
        if n == 1 and d[0][0] == "a":
            return (k, 8, d)
        if n == 1 and d[0][0] == "*":
            return (k + "*", 8, [("r", d[0][1], 8)])
        return None
    if mn.startswith("j") and mn[1:] in CCN:
        return ("j", 8, [CCN[mn[1:]]] + d) if n == 1 and d[0][0] == "a" else None
    if mn in ("movsd", "movss"):
        return (mn, 0, d) if n == 2 and (d[0][0] == "x" and isxm(d[1]) or d[0][0] == "m" and d[1][0] == "x") else None
    if mn == "movd":
        if n == 2:
            for a, b in ((d[0], d[1]), (d[1], d[0])):
                if a[0] == "x" and (b[0] == "m" or isr(b, 4)):
                    return ("movd", 4, d)
                if a[0] == "x" and isr(b, 8):
                    return ("movd", 8, d)
        return None
    if mn in ("cvtsi2ss", "cvtsi2sd"):        # without a suffix the register decides; the assembler takes memory as 32 bits
        if n == 2 and d[0][0] == "x" and (d[1][0] == "m" or d[1][0] == "r" and d[1][2] in (4, 8)):
            return (mn, d[1][2] if d[1][0] == "r" else None, d)
        return None
    if mn in ("cvttss2si", "cvttsd2si", "cvtss2si", "cvtsd2si"):
        return (mn, d[0][2], d) if n == 2 and d[0][0] == "r" and d[0][2] in (4, 8) and isxm(d[1]) else None
    if mn in ("cvtsd2ss", "cvtss2sd", "ucomiss", "ucomisd", "comiss", "comisd", "xorps", "xorpd", "andps", "andpd", "orps", "orpd") or \
            mn[:-2] in SSE.values() and mn[-2:] in ("ss", "sd", "ps", "pd"):
        return (mn, 0, d) if n == 2 and d[0][0] == "x" and isxm(d[1]) else None
    return 0


def fits(lo, hi, k, opbits):
    """every value of [lo, hi] is denoted by a K bit field of an operation on OPBITS bits"""
    if k >= opbits:
        return -(1 << opbits - 1) <= lo and hi < 1 << opbits
    if -(1 << k - 1) <= lo and hi < 1 << k - 1:
        return True
    # an unsigned spelling of the same operand value
    return (1 << opbits) - (1 << k - 1) <= lo and hi < 1 << opbits


def agree(exp, got, bits, lo, hi):
    """why the decoded instruction is not the expected one ('' when it is). BITS(term, n): provenance of the bits of a byte; the one
    unknown of the instruction, if any, ranges over [LO, HI]"""
    if exp[0] != got[0]:
        return "encodes %s instead of %s" % (got[0], exp[0])
    if exp[1] is not None and exp[1] != got[1]:
        return "operates on %d bytes instead of %d" % (got[1], exp[1])
    if len(exp[2]) != len(got[2]):
        return "has %d operands instead of %d" % (len(got[2]), len(exp[2]))

    def value(f, v, opbits, what):
        _, bs, signed, rel, _k = f
        k = 8 * len(bs)
        if rel is not None:
            return "%s is relocated" % what
        if v == "?":
            want = [[("d", 8 * j + q) for q in range(8)] for j in range(len(bs))]
            a, z = lo, hi
        else:
            want = [[v >> 8 * j + q & 1 for q in range(8)] for j in range(len(bs))]
            a = z = v
        for j, x in enumerate(bs):
            if bits(x, 8) != want[j]:
                return "byte %d of %s is %s" % (j, what, x if isinstance(x, int) else "not the value's")
        if signed and not fits(a, z, k, opbits) or not signed and not -(1 << k - 1) <= a <= z < 1 << k:
            return "%s does not fit its %d bit field" % (what, k)
        return ""
    for e, g in zip(exp[2] if exp[0] not in ("test",) or exp[2] == got[2] or exp[2][1][0] in ("i", "m", "il") or exp[2][0][0] == "m" else
                    (exp[2] if _same(exp[2][0], got[2][0]) else list(reversed(exp[2]))), got[2]):
        if isinstance(e, int):
            if e != g:
                return "condition %s instead of %s" % (CC[g], CC[e])
            continue
        if e[0] in ("r", "x", "h"):
            if e != g:
                return "operand %s instead of %s" % (name(g), name(e))
        elif e[0] == "m":
            if g[0] != "m":
                return "operand %s instead of a memory operand" % name(g)
            eb, ei, es, ed = e[1:]
            gb, gi, gs, gd = g[1:]
            same = (eb, ei, es if ei is not None else 1) == (gb, gi, gs if gi is not None else 1) or \
                eb is not None and ei is not None and es == gs == 1 and (eb, ei) == (gi, gb)
            if not same:
                return "memory operand (%s,%s,%s) instead of (%s,%s,%s)" % (rn(gb), rn(gi), gs, rn(eb), rn(ei), es)
            if gd is None:
                if ed == "?" and (lo, hi) != (0, 0) or isinstance(ed, int) and ed:
                    return "displacement is lost"
            else:
                w = value(gd, ed, 64, "the displacement")
                if w:
                    return w
        elif e[0] == "i":
            if g[0] != "i":
                return "operand %s instead of an immediate" % name(g)
            if isinstance(g[1], int):
                if e[1] != g[1]:
                    return "immediate %d" % g[1]
                continue
            w = value(g[1], e[1], 8 * g[2], "the immediate")
            if w:
                return w
        elif e[0] == "il":
            if g[0] != "i" or isinstance(g[1], int):
                return "operand is not an immediate"
            _, bs, signed, rel, k = g[1]
            if rel is None:
                return "the label's immediate has no relocation"
            if rel[1] != e[1] or rel[2] != e[2] or rel[0] not in ("32", "64"):
                return "relocation %s of label %s with addend %s instead of label %s, %s" % (rel[0], rel[1], rel[2], e[1], e[2])
            if any(x != 0 for x in bs):
                return "the relocated field is not zero"
        elif e[0] == "a":
            if g[0] != "rel":
                return "operand is not a branch target"
            _, bs, signed, rel, k = g[1]
            if rel is None:
                return "the branch target has no relocation"
            if rel[0] != "pc32" or rel[1] != e[1] or rel[2] != e[2] - (g[2] - k):
                return "relocation %s of label %s with addend %s instead of pc-relative, label %s, %s" % (rel[0], rel[1], rel[2], e[1], e[2] - (g[2] - k))
    return ""


def _same(a, b):
    return a == b or a[0] == b[0] == "m"


def rn(n):
    return "none" if n is None else n if isinstance(n, str) else REG[n]


def name(o):
    if o[0] == "r":
        return "%s:%d" % (REG[o[1]], 8 * o[2])
    if o[0] == "h":
        return "high byte of %s" % REG[o[1]]
    if o[0] == "x":
        return "XMM%d" % o[1]
    if o[0] == "m":
        return "memory"
    return o[0]
