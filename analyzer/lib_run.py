"""Translation units, end to end: compiled abstractly (lib_tu), the emitted instructions executed on the abstract machine (lib_x86)."""
import struct
from absint import show, Ev
from front import AnalysisError, locs
from lib_asm import Wrong
from lib_tu import Unit, Crash, lex
from lib_ir import operand
from lib_x86 import Machine, execute, RSP, canon, NAMES, Bad

STK = ("v", "S", 64)


class Prog(Unit):
    """Unit whose emission is recorded with decoded operands"""
    def __init__(self, ctx, abi="sysv", models=None):
        self.abi = abi
        strtod = lambda I, st, a, n, f: [(st, ("flt", float(self.X.chars(I, st, a[0]))))]
        Unit.__init__(self, ctx, models={"strtod": strtod, **(models or {})}, record=True)
        general = self.I.repun

        def repun(v, frm, to):
            """bits of floating constants"""
            if isinstance(v, tuple) and v[0] == "flt" and frm in ("float_d", "double_d") and to in ("uint_d", "int_d"):
                return int.from_bytes(struct.pack("<f" if frm == "float_d" else "<d", v[1]), "little", signed=to == "int_d")
            return general(v, frm, to)
        self.I.repun = repun

    def parse(self, src):
        st = self.st.fork()
        # string tokens carry their terminating null character
        self.source(st, [(k, t + "\0" if k == "T_STRING" else t) for k, t in lex(src)])
        rs, dead = self.call("symbols_init", [], st)
        (st, _), = rs
        rs, dead = self.call({"sysv": "abi_init_sysv", "ms": "abi_init_microsoft"}[self.abi], [], st)
        (st, _), = rs
        return self.call("parse_into_ir", [], st)

    def name_of(self, I, st, v):
        b = self.X.new(st)
        for s, sig, rv in I.call_body(st.fork(), self.P.need("rodata_get_label"), [v, 128, ("addr", ("i", b, 0))]):
            return self.X.chars(I, s, ("addr", ("i", b, 0)))
        return "?"

    def op(self, I, st, v):
        o = operand(I, st, v)
        if o is None:
            return None
        o = list(o)
        for k in range(1, len(o)):
            if isinstance(o[k], int) and o[0] != "mem" and k == 1 and o[0] in ("imm", "abs"):
                o[k] = self.name_of(I, st, o[k]) if 0 <= sgn32(o[k]) or sgn32(o[k]) < -1 else -1
        if o[0] == "mem" and isinstance(o[4], int):
            o[4] = (o[4] & (1 << 64) - 1) - (1 << 64) if (o[4] & (1 << 64) - 1) >> 63 else o[4] & (1 << 64) - 1
        return tuple(o)

    def recording(self):
        def put(st, k, name, args, n, f):
            st.ev = (st.ev, Ev(k, name, tuple(args), locs(n), f.name if f else "?"))

        def ins(I, st, a, n, f):
            put(st, "asm", self.X.chars(I, st, a[0]), [self.op(I, st, x) for x in a[1:]], n, f)
            return [(st, 0)]

        def insn(I, st, a, n, f):
            l = I.deref(st, a[0])
            mn = self.X.chars(I, st, I.rd(st, ("f", l, "mnemonic")))
            ops = []
            for i in range(4):
                o = I.rd(st, ("i", ("f", l, "ops"), i))
                if not isinstance(o, tuple) or o[0] != "struct":
                    o = ("struct", "operand", tuple((x, I.rd(st, ("f", ("i", ("f", l, "ops"), i), x))) for x in ("type", "reg", "sse_reg", "mem", "imm_label")))
                x = self.op(I, st, o)
                if x is None:
                    break
                ops.append(x)
            put(st, "asm", mn, ops, n, f)
            return [(st, 0)]

        def label(I, st, a, n, f):
            put(st, "label", "asm_label", (a[0], self.name_of(I, st, a[1])), n, f)
            return [(st, 0)]

        def data(kind):
            def go(I, st, a, n, f):
                if kind == "section":
                    v = (self.X.chars(I, st, a[0]),)
                elif kind in ("byte", "quad"):
                    v = (self.op(I, st, a[0]),)
                elif kind == "string":
                    d = dict(a[0][2])
                    v = (self.X.chars(I, st, d["str"])[:d["len"]],)
                else:
                    v = tuple(a)
                put(st, "data", kind, v, n, f)
                return [(st, 0)]
            return go
        z = lambda I, st, a, n, f: [(st, 0)]
        return {"asm_ins": insn, "asm_ins0": ins, "asm_ins1": ins, "asm_ins2": ins, "asm_ins3": ins, "asm_label": label, "asm_comment": z, "asm_finish": z,
                "dbg_instruction": lambda I, st, a, n, f: [(st, ("str", "?"))],
                **{"asm_" + k: data(k) for k in ("section", "byte", "quad", "zero", "string", "align")}}

    def program(self, src):
        """-> {label: events} of the one accepting path; raises Wrong when the unit is rejected"""
        rs, dead = self.compile(src)
        if dead or len(rs) != 1:
            e = [e for d in dead for e in d.st.events() if e.k == "noreturn"]
            raise Wrong("not compiled (%s)" % (", ".join("%s at %s" % (x.name, x.loc) for x in e[-1:]) or "%d paths" % len(rs)))
        out, cur = {}, None
        for e in rs[0][0].events():
            if e.k == "label" and not (e.args[1].startswith(".L") and not e.args[1].startswith((".LVAR", ".Ls")) and cur is not None and code(out.get(cur, []))):
                cur = e.args[1]
                if cur in out:
                    raise Wrong("%s is defined twice" % cur)
                out[cur] = []
                out[cur].append(e)
            elif e.k == "data" and e.name == "section":
                cur = None
            elif cur is not None and e.k in ("label", "asm", "data"):
                out[cur].append(e)
        return out


def code(evs):
    return any(e.k == "asm" for e in evs)


def sgn32(v):
    v &= (1 << 32) - 1
    return v - (1 << 32) if v >> 31 else v


def contents(evs):
    """data events -> [byte value or (label, addend, index)]"""
    r = []
    for e in evs:
        if e.k == "data":
            if e.name == "zero":
                r += [0] * e.args[0]
            elif e.name == "string":
                r += [ord(c) & 255 for c in e.args[0]]
            elif e.name in ("byte", "quad"):
                o, n = e.args[0], 1 if e.name == "byte" else 8
                r += [o[2] >> 8 * k & 255 for k in range(n)] if o[1] == -1 else [(o[1], o[2], k) for k in range(n)]
    return r


def machine(sp=STK):
    m = Machine({RSP: sp})
    m.preset((m.key(STK)[0], 0), 8, ("v", "retaddr", 64))
    return m


def go(evs, m):
    """finished machines of a function"""
    ms = execute(evs, m)
    for x in ms:
        if isinstance(x.done, tuple):
            raise Wrong("%s: %s" % x.done[:2])
    return ms


def cell(m, key):
    """the byte at KEY of memory, bytes of assembled values taken apart"""
    return byteof(m.read(key, 1), 0)


def byteof(t, i):
    """byte I of value T"""
    while True:
        if isinstance(t, int):
            return t >> 8 * i & 255
        if t[0] == "cat" and i < len(t[1]):
            i, t = t[1][i]
        elif t[0] in ("zx", "sx", "lo") and 8 * i < t[1]:
            t = t[2]
        elif t[0] == "shr" and isinstance(t[3], int) and t[3] % 8 == 0 and 8 * i + t[3] < t[1]:
            i, t = i + t[3] // 8, t[2]
        elif t[0] == "v":
            return canon(("shr", 64, t, 8 * i), 8) if i else canon(t, 8)
        else:
            return canon(("shr", 64, canon(t, 8 * i + 8), 8 * i), 8) if i else canon(t, 8)
