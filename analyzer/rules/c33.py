"""Emission of objects with static storage duration."""
from lib import *
from lib_asm import *
from absint import Limit
from lib_pp import union_mirror
import itertools, struct

EXPLANATION = ("The data emitter is evaluated abstractly from the registration of static objects to the emitted program, once into assembly text and "
               "once into the object being built; the bytes, alignment, binding, section and relocations read back are compared with the "
               "object image computed from the type's layout and the initialiser tree, for every basic type, bit-field placement, label "
               "address, aggregate shape, compound literal and alignment in the catalogue, alone and in sequences.")
ASSUMPTIONS = ["initialiser expressions are already folded (C06) and the initialiser tree already assigned to elements (C15)"]
FLOORS = {"object": 300, "order": 2}

INT = {"ST_BOOL": 1, "ST_CHAR": 1, "ST_SCHAR": 1, "ST_UCHAR": 1, "ST_SHORT": 2, "ST_USHORT": 2, "ST_INT": 4, "ST_UINT": 4, "ST_LONG": 8, "ST_ULONG": 8,
       "ST_LLONG": 8, "ST_ULLONG": 8}
# name: (size, alignment, union, [(type, offset, bit offset, bit size)])
LAY = {
    "ci": (8, 4, 0, [(("s", "ST_CHAR"), 0, 0, -1), (("s", "ST_INT"), 4, 0, -1)]),
    "bits": (8, 4, 0, [(("s", "ST_UINT"), 0, 0, 3), (("s", "ST_UINT"), 0, 3, 7), (("s", "ST_UINT"), 0, 10, 22), (("s", "ST_INT"), 4, 0, 5), (("s", "ST_INT"), 4, 5, 27)]),
    "bits8": (2, 1, 0, [(("s", "ST_UCHAR"), 0, 0, 1), (("s", "ST_UCHAR"), 0, 1, 6), (("s", "ST_UCHAR"), 0, 7, 1), (("s", "ST_UCHAR"), 1, 2, 4)]),
    "bits16": (4, 2, 0, [(("s", "ST_USHORT"), 0, 0, 9), (("s", "ST_USHORT"), 0, 9, 7), (("s", "ST_USHORT"), 2, 0, 16)]),
    "bits64": (16, 8, 0, [(("s", "ST_ULONG"), 0, 0, 40), (("s", "ST_ULONG"), 0, 40, 24), (("s", "ST_LONG"), 8, 0, 63), (("s", "ST_LONG"), 8, 63, 1)]),
    "nest": (24, 8, 0, [(("s", "ST_SHORT"), 0, 0, -1), (("st", "ci"), 4, 0, -1), (("s", "ST_ULONG"), 16, 0, -1)]),
    "ptr": (24, 8, 0, [(("s", "ST_CHAR"), 0, 0, -1), (("p",), 8, 0, -1), (("s", "ST_CHAR"), 16, 0, -1)]),
    "un": (8, 8, 1, [(("s", "ST_INT"), 0, 0, -1), (("s", "ST_ULONG"), 0, 0, -1), (("p",), 0, 0, -1), (("arr", ("s", "ST_CHAR"), 3), 0, 0, -1)]),
    "packed": (13, 1, 0, [(("s", "ST_CHAR"), 0, 0, -1), (("p",), 1, 0, -1), (("s", "ST_INT"), 9, 0, -1)]),
    **{"pk%d" % k: (k + 11, 1, 0, [(("arr", ("s", "ST_CHAR"), k), 0, 0, -1), (("p",), k, 0, -1), (("arr", ("s", "ST_CHAR"), 3), k + 8, 0, -1)]) for k in range(2, 18)},
    "tail": (16, 8, 0, [(("p",), 0, 0, -1), (("s", "ST_CHAR"), 8, 0, -1)]),
}


def size(t):
    return {"s": lambda: FS.get(t[1]) or INT[t[1]], "p": lambda: 8, "arr": lambda: t[2] * size(t[1]), "st": lambda: LAY[t[1]][0]}[t[0]]()


def align(t):
    return {"s": lambda: size(t), "p": lambda: 8, "arr": lambda: align(t[1]), "st": lambda: LAY[t[1]][1]}[t[0]]()


FS = {"ST_FLOAT": 4, "ST_DOUBLE": 8}


def image(t, init, data, rel, at=0, bits=None):
    """store INIT of type T into DATA / REL"""
    k = init[0]
    if k == "E":
        return
    if k == "S":
        for i, c in enumerate(init[1]):
            data[at + i] = c
    elif k == "I":
        n = size(t)
        if bits and bits[1] != -1:
            off, w = bits
            v = sum(data[at + j] << 8 * j for j in range(n))
            m = ((1 << w) - 1) << off
            v = v & ~m | (init[1] << off) & m
        else:
            v = init[1] & (1 << 8 * n) - 1
        for j in range(n):
            data[at + j] = (v >> 8 * j) & 255
    elif k == "F":
        for j, c in enumerate(struct.pack("<f" if size(t) == 4 else "<d", init[1])):
            data[at + j] = c
    elif k == "L":
        rel[at] = (init[1], init[2])
    elif k == "A":          # address of a compound literal (plus an offset)
        rel[at] = (("lit", init[1], init[2]), 0)
    elif k == "V":          # value of a compound literal
        image(t, init[1], data, rel, at)
    elif k == "B":
        for i, x in enumerate(init[1]):
            if t[0] == "arr":
                image(t[1], x, data, rel, at + i * size(t[1]))
            else:
                ct, off, bo, bs = LAY[t[1]][3][i]
                image(ct, x, data, rel, at + off, (bo, bs))


class Case:
    def __init__(self, ctx, text, abi):
        P = self.P = ctx.P
        table = {}
        mem = {}
        for n, (sz, al, un, fl) in LAY.items():
            b = ("g", "#fields_" + n)
            table[("sd:" + n, "size")] = sz
            table[("sd:" + n, "alignment")] = al
            table[("sd:" + n, "is_complete")] = 1
            table[("sd:" + n, "is_union")] = un
            table[("sd:" + n, "n")] = len(fl)
            table[("sd:" + n, "fields")] = ("addr", ("i", b, 0))
            for i, (t, off, bo, bs) in enumerate(fl):
                for a, v in (("type", self.ty(t)), ("offset", off), ("bit_offset", bo), ("bitfield", bs), ("alignment", 0)):
                    mem[("f", ("i", b, i), a)] = v
        self.k = 0
        self.ctx = ctx
        self.lits = {}
        expr = P.need("expression_to_constant").file
        o = self.o = Out(ctx, text, abi=abi, table=table, tus=[expr],
                         inline=["expression_to_constant", "constant_to_buffer", "constant_to_u64", "type_select", "type_get_offsets", "calculate_offset",
                                 "calculate_size", "calculate_alignment", "alignof_simple", "alignof_struct", "gen_mask", "evaluate_constant_expression",
                                 "constant_is_zero"],
                         models=lambda o: {"expr_new": self.m_new, "constant_cast": self.m_cast})
        o.I.mirror = union_mirror(P, ["src/parser/expression.h", "src/arch/x64.h"])
        for l, v in mem.items():
            o.st.mem[l] = v
        self.abi = abi

    def m_new(self, I, st, a, n, f):
        v = a[0]
        if isinstance(v, tuple) and v[0] == "upd" and v[1][0] == "struct":
            v = I.update(v[1], dict(v[2]), None)
        if not (isinstance(v, tuple) and v[0] == "struct"):
            raise AnalysisError("expr_new of %s" % show(v))
        k = st.mem.get(("g", "#ex"), 0) + 1
        st.mem[("g", "#ex")] = k
        o = ("ob", "made%d" % k)
        for x, y in v[2]:
            st.mem[("f", ("d", o), x)] = y
        return [(st, o)]

    def m_cast(self, I, st, a, n, f):
        # a cast between pointer types keeps the address
        return [(st, I.update(a[0], {"data_type": a[1]}, None) if isinstance(a[0], tuple) and a[0][0] == "struct" else a[0])]

    def ty(self, t):
        P = self.P
        if t[0] == "s":
            return simple(P, t[1])
        if t[0] == "p":
            return ptr(simple(P, "ST_CHAR"))
        if t[0] == "arr":
            return array(self.ty(t[1]), t[2])
        return ("ty", "struct", t[1], 0)

    def label(self, name):
        return self.o.call("register_label_name", [self.o.X.mksv(name)])

    def new(self, fields):
        self.k += 1
        o = ("ob", "x%d" % self.k)
        for a, b in fields.items():
            l = ("f", ("d", o), a)
            if isinstance(b, dict):
                for c, d in b.items():
                    if isinstance(d, dict):
                        for e, g in d.items():
                            self.o.I.write(self.o.st, ("f", ("f", l, c), e), g)
                    else:
                        self.o.I.write(self.o.st, ("f", l, c), d)
            elif isinstance(b, list):
                for i, d in enumerate(b):
                    self.o.I.write(self.o.st, ("i", l, i), d)
            else:
                self.o.I.write(self.o.st, l, b)
        return o

    def const(self, t, init):
        P = self.P
        if init[0] == "F":
            return {"type": P.enum("CONSTANT_TYPE"), "data_type": self.ty(t), "uint_d": int.from_bytes(struct.pack("<f" if size(t) == 4 else "<d", init[1]), "little")}
        c = {"type": P.enum("CONSTANT_TYPE"), "data_type": self.ty(t)}
        n = size(t) * 8
        sg = t[0] == "s" and t[1] in ("ST_CHAR", "ST_SCHAR", "ST_SHORT", "ST_INT", "ST_LONG", "ST_LLONG")
        v = init[1] & (1 << n) - 1
        c["uint_d"] = v if not (sg and v >> (n - 1)) else v - (1 << n) & (1 << 64) - 1
        c["int_d"] = v - (1 << n) if v >> (n - 1) and (sg or n == 64) else v
        return c

    def init(self, t, init):
        """C value of a struct initializer"""
        P, S = self.P, (lambda *kv: ("struct", "initializer", tuple(kv)))
        k = init[0]
        if k == "E":
            return S(("type", P.enum("INIT_EMPTY")))
        if k == "S":
            b = ("g", "#str%d" % (self.k + 1))
            self.k += 1
            for i, c in enumerate(init[1]):
                self.o.st.mem[("i", b, i)] = c - 256 if c > 127 else c
            sv = ("struct", "string_view", (("len", len(init[1])), ("str", ("addr", ("i", b, 0)))))
            return S(("type", P.enum("INIT_STRING")), ("string", sv))
        if k == "B":
            b = ("g", "#ent%d" % (self.k + 1))
            self.k += 1
            for i, x in enumerate(init[1]):
                ct = t[1] if t[0] == "arr" else LAY[t[1]][3][i][0]
                self.o.st.mem[("i", b, i)] = self.init(ct, x)
            return S(("type", P.enum("INIT_BRACE")), ("brace", ("struct", "brace", (("size", len(init[1])), ("cap", len(init[1])), ("entries", ("addr", ("i", b, 0)))))))
        E = P.enum
        if k in "IF":
            x = self.new({"type": E("E_CONSTANT"), "data_type": self.ty(t), "constant": self.const(t, init)})
        elif k == "L":
            x = self.new({"type": E("E_CONSTANT"), "data_type": self.ty(t),
                          "constant": {"type": E("CONSTANT_LABEL_POINTER"), "data_type": self.ty(t), "label": {"label": self.label(init[1]), "offset": init[2]}}})
        elif k == "V":
            x = self.new({"type": E("E_COMPOUND_LITERAL"), "data_type": self.ty(t), "compound_literal": {"type": self.ty(t), "init": self.init(t, init[1])}})
        elif k == "A":
            ct, ci, how = init[1], init[2], init[3]
            c = self.new({"type": E("E_COMPOUND_LITERAL"), "data_type": self.ty(ct), "compound_literal": {"type": self.ty(ct), "init": self.init(ct, ci)}})
            et = self.ty(ct[1]) if ct[0] == "arr" else self.ty(ct)
            x = self.new({"type": E("E_ARRAY_PTR_DECAY" if ct[0] == "arr" else "E_ADDRESS_OF"), "data_type": ptr(et), "args": [c]})
            if how == "cast":
                x = self.new({"type": E("E_CAST"), "data_type": self.ty(t), "cast": {"arg": x, "target": self.ty(t)}})
        return S(("type", E("INIT_EXPRESSION")), ("expr", x))

    def add(self, name, t, init, glob=0, al=0):
        v = self.init(t, init)
        return self.o.call("data_register_static_var", [self.o.X.mksv(name), self.ty(t), v, glob, al])


def compare(ctx, rule, inst, prog, vars_, dead, where="codegen_initializer"):
    """VARS_: [(name, type, init, global, alignment)]"""
    bad = []
    used = {}

    def place(name, t, init, glob, al, anon=False):
        s = prog.sym(name)
        if len(s) != 1:
            bad.append("%s is defined %d times" % (name, len(s)))
            return
        _, sec, at, g = s[0]
        n = size(t)
        if sec != ".data":
            bad.append("%s is in section %s" % (name, sec))
            return
        S = prog.sec(sec)
        A = al or align(t)
        if at % A or S.align % A:
            bad.append("%s at offset %d of a section aligned %d, required alignment %d" % (name, at, S.align, A))
        if g != glob:
            bad.append("%s has binding %s" % (name, g))
        if at + n > len(S.data):
            bad.append("%s extends past the section" % name)
            return
        data, rel = [0] * n, {}
        image(t, init, data, rel)
        for o in rel:
            data[o:o + 8] = [0] * 8
        if S.data[at:at + n] != data:
            bad.append("%s holds %s, required %s" % (name, S.data[at:at + n], data))
        for j in range(at, at + n):
            if used.setdefault((sec, j), name) != name:
                bad.append("%s overlaps %s" % (name, used[(sec, j)]))
                break
        got = {o - at: (sy, a) for o, kd, sy, a in S.relocs if at <= o < at + n and kd == "64"}
        other = [r for r in S.relocs if at <= r[0] < at + n and r[1] != "64"]
        if other or set(got) != set(rel) or len(got) != len([r for r in S.relocs if at <= r[0] < at + n]):
            bad.append("%s has relocations at %s, required %s" % (name, sorted(got), sorted(rel)))
            return
        for o, (target, add) in rel.items():
            sy, a = got[o]
            if isinstance(target, tuple):
                if a != add or sy in [v[0] for v in vars_]:
                    bad.append("%s+%d refers to %s+%d" % (name, o, sy, a))
                else:
                    place(sy, target[1], target[2], 0, 0, True)
            elif (sy, a) != (target, add):
                bad.append("%s+%d refers to %s%+d, required %s%+d" % (name, o, sy, a, target, add))
    if dead:
        bad.append("is rejected")
    else:
        for v in vars_:
            place(*v)
        seen = set()
        rest = [j for s in prog.order if s.name == ".data" for j in range(len(s.data)) if (".data", j) not in used and s.data[j] != 0]
        if rest:
            bad.append("bytes outside every object at %s" % rest[:4])
    ctx.ob(rule, inst, not bad, where, "; ".join(bad)[:400])


def I_(v):
    return ("I", v)


E_ = ("E",)


def catalogue():
    S = lambda s: ("s", s)
    L = []
    for s in INT:
        for v in ([0, 1] if s == "ST_BOOL" else [0, 1, -1, 0x8182838485868788, 0x7f6e5d4c3b2a1908]):
            L.append((S(s), I_(v)))
    for s in FS:
        for v in (0.0, 1.5, -2.25, 1e30):
            L.append((S(s), ("F", v)))
    P = ("p",)
    for off in (0, 1, -1, 8, 4096, -(1 << 31), 1 << 33, -7):
        L.append((P, ("L", "ext", off)))
    L += [(P, I_(0)), (P, I_(0x1122334455667788)), (P, I_((1 << 64) - 1))]
    A = lambda t, n: ("arr", t, n)
    c, i, l = S("ST_CHAR"), S("ST_INT"), S("ST_LONG")
    for n in (1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31):
        L.append((A(c, n), ("S", bytes(range(0x81, 0x81 + n)))))
        L.append((A(c, n), ("S", bytes(range(1, n)))))
        L.append((A(c, n), ("B", [E_] * (n - 1) + [I_(0x55)])))
    for n in (1, 2, 3, 5):
        L.append((A(i, n), ("B", [I_(-3 - k) for k in range(n)])))
        L.append((A(i, n), ("B", [I_(9)])))
        L.append((A(P, n), ("B", [("L", "e%d" % k, k) for k in range(n)])))
        L.append((A(P, n), ("B", [E_] * (n - 1) + [("L", "ext", 4)])))
    L.append((A(A(i, 2), 3), ("B", [("B", [I_(1), I_(2)]), E_, ("B", [E_, I_(6)])])))
    L.append((A(A(c, 3), 3), ("B", [("S", b"ab\0"), E_, ("S", b"xyz")])))
    L.append((A(c, 0), ("B", [])))
    L.append((i, ("E",)))
    L.append((A(l, 1000), ("E",)))
    L.append((A(c, 3), ("E",)))
    st = lambda n: ("st", n)
    L += [(st("ci"), ("B", [I_(0x81), I_(-2)])), (st("ci"), ("B", [E_, I_(7)])), (st("ci"), ("B", [I_(7)])), (st("ci"), E_)]
    for n in ("bits", "bits8", "bits16", "bits64"):
        fl = LAY[n][3]
        for k in range(len(fl)):
            L.append((st(n), ("B", [E_] * k + [I_(-1)])))
            L.append((st(n), ("B", [I_(0) if j == k else I_(-1) for j in range(len(fl))])))
        L.append((st(n), ("B", [I_(0x5a5a5a5a5a5a5a5a + j) for j in range(len(fl))])))
        L.append((A(st(n), 3), ("B", [("B", [I_(-1)] * len(fl)), E_, ("B", [I_(1)] * len(fl))])))
    L += [(st("nest"), ("B", [I_(1), ("B", [I_(2), I_(3)]), I_(4)])), (st("nest"), ("B", [E_, ("V", ("B", [I_(2), I_(3)]))])), (st("nest"), ("V", ("B", [I_(1), E_, I_(9)])))]
    L += [(st("ptr"), ("B", [I_(1), ("L", "ext", 12), I_(3)])), (st("packed"), ("B", [I_(1), ("L", "ext", 12), I_(3)])), (A(st("packed"), 2), ("B", [("B", [I_(1), ("L", "a", 0), I_(3)]), ("B", [I_(4), ("L", "b", 1), I_(5)])]))]
    L += [(st("pk%d" % k), ("B", [("B", [I_(j + 1) for j in range(k)]), ("L", "ext", k - 2), ("B", [I_(7), I_(8), I_(9)])])) for k in range(2, 18)]
    L += [(st("un"), ("B", [I_(-2)])), (st("un"), ("B", [E_, I_(-2)])), (st("un"), ("B", [E_, E_, ("L", "ext", 1)])), (st("un"), ("B", [E_, E_, E_, ("S", b"ab\0")]))]
    L += [(st("tail"), ("B", [("L", "q", 0), I_(3)])), (A(st("tail"), 2), ("B", [("B", [E_, I_(3)]), ("B", [("L", "q", 2), E_])]))]
    for how in ("", "cast"):
        L += [(P, ("A", A(c, 4), ("S", b"abc\0"), how)), (P, ("A", A(i, 2), ("B", [I_(1), I_(2)]), how)), (P, ("A", st("ci"), ("B", [I_(1), I_(2)]), how)),
              (P, ("A", i, I_(77), how)), (P, ("A", A(c, 3), ("S", b"ab\0"), how)),
              (A(P, 2), ("B", [("A", A(c, 3), ("S", b"ab\0"), how), ("A", A(l, 1), ("B", [I_(5)]), how)])),
              (P, ("A", A(P, 2), ("B", [("A", A(i, 1), ("B", [I_(1)]), how), ("A", A(c, 2), ("B", [I_(2), I_(3)]), how)]), how)),
              (st("ptr"), ("B", [I_(1), ("A", A(c, 5), ("S", b"abcd\0"), how), I_(2)]))]
    return L


def run(ctx):
    ctx.rule("object", "a static object is emitted with its bytes, size, alignment, binding, section and label addresses")
    ctx.rule("order", "several static objects are emitted one after the other, each once, none overlapping")
    ctx.rule("bounds", "the emitter writes only inside the image of the object")
    L = catalogue()
    for abi in ("sysv", "ms"):
        abi_env(ctx, abi)

    def one(text, abi, items):
        for n, (t, init) in items:
            if abi == "ms" and "ST_LONG" in repr(t) or abi == "ms" and "ST_ULONG" in repr(t):
                continue
            for glob, al in (((0, 0), (1, 16)) if n % 3 == 0 or ctx.tier != "quick" else ((n % 2, 0),)):
                C = Case(ctx, text, abi)
                C.o.call("asm_section", [("str", ".data")])
                C.o.call("asm_byte", [("struct", "operand", (("type", ctx.P.enum("OPERAND_IMM_LABEL_ABSOLUTE")),
                                                                ("imm_label", ("struct", "x", (("label_", -1), ("offset", 0))))))])   # misalign
                inst = "%s = %s, %s, %s, alignment %d" % (t, init, "text" if text else "object", abi, al)
                inst = inst if len(inst) < 150 else inst[:140] + "#%d" % n
                try:
                    C.add("obj", t, init, glob, al)
                    C.o.call("data_codegen", [])
                    dead = list(C.o.dead)
                    prog = None if dead else C.o.finish()
                except (Wrong, Limit) as e:
                    ctx.ob("object", inst, False, "data_codegen", str(e))
                    continue
                compare(ctx, "object", inst, prog, [("obj", t, init, glob, al)], dead)
                bounds(ctx, C, t, inst)
    items = list(enumerate(L))
    tasks = [lambda a=a, k=k, t=t: one(t, a, items[k::4]) for a in (("sysv",) if ctx.tier == "quick" else ("sysv", "ms")) for t in (0, 1) for k in range(4)]

    def seq(text):
        vs = [("v%d" % k, t, i, k % 2, 32 if k % 5 == 0 else 0) for k, (t, i) in enumerate(L[3::7])]
        C = Case(ctx, text, "sysv")
        inst = "%d objects, %s" % (len(vs), "text" if text else "object")
        try:
            for v in vs:
                C.add(*v)
            C.o.call("data_codegen", [])
            dead = list(C.o.dead)
            prog = None if dead else C.o.finish()
        except (Wrong, Limit) as e:
            ctx.ob("order", inst, False, "data_codegen", str(e))
            return
        compare(ctx, "order", inst, prog, vs, dead)
    tasks += [lambda t=t: seq(t) for t in (0, 1)]

    def nonconst(text):
        C = Case(ctx, text, "sysv")
        P = ctx.P
        x = C.new({"type": P.enum("E_CALL"), "data_type": simple(P, "ST_INT")})
        C.o.call("data_register_static_var", [C.o.X.mksv("obj"), simple(P, "ST_INT"),
                                              ("struct", "initializer", (("type", P.enum("INIT_EXPRESSION")), ("expr", x))), 0, 0])
        C.o.call("data_codegen", [])
        ctx.ob("object", "initialiser that is not constant, %s" % text, bool(C.o.dead), "codegen_initializer", "is accepted")
    tasks += [lambda t=t: nonconst(t) for t in (0, 1)]
    ctx.parallel(tasks)


def bounds(ctx, C, t, inst):
    """every array the emitter allocated has one element per byte of some object emitted"""
    st = C.o.st
    n = size(t)
    over = []
    for b, sz in C.o.sizes.items():
        if not isinstance(sz, int):
            continue
        ks = [k[2] for k in st.mem if k[0] == "i" and k[1] == b and isinstance(k[2], int)]
        if ks and (max(ks) >= sz or min(ks) < 0):
            over.append((b, max(ks), sz))
    ctx.ob("bounds", inst, not over, "codegen_initializer", "writes element %s" % over[:2])
