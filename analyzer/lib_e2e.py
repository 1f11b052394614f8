"""One expression, end to end: lowering, emission, symbolic execution, comparison of memory with a specification."""
from absint import show
from front import AnalysisError
from lib import *
from lib_ir import *
from lib_x86 import *

STK = ("v", "S", 64)


def val(name, w):
    return ("v", name, w)


def memkey(name):
    """key of the object a symbolic pointer NAME designates"""
    return Machine().key(val(name, 64))


class Case:
    """operands and result object of one expression under test"""
    model = "CODE_MODEL_SMALL"

    def __init__(self, ctx, abi):
        self.ctx, self.abi, self.P = ctx, abi, ctx.P
        self.low = Lower(ctx, abi)
        self.pre = {}        # node -> term preset in its slot
        self.mem = []        # (pointer name, offset, size, term)
        self.k = 0

    def T(self, s):
        return simple(self.P, s)

    def size(self, t):
        if t[1] == "struct":
            return self.low.tab[("sd:" + t[2], "size")]
        if t[1] == "array":
            return t[3] * self.size(t[2])
        return self.low.size(t)

    def width(self, t):
        if t[1] == "simple" and t[2] == self.P.enum("ST_BOOL"):
            return 1
        return 8 * self.size(t)

    def struct(self, name, size):
        t = struct(name)
        self.low.tab[("sd:" + name, "size")] = size
        self.low.tab[("sd:" + name, "alignment")] = 1
        self.low.tab[("sd:" + name, "is_complete")] = 1
        return t

    def value(self, name, t):
        """rvalue operand with unknown value NAME"""
        e, n = self.low.value(name, t, self.size(t))
        v = val(name, self.width(t))
        self.pre[n] = v
        return e, v

    def lvalue(self, name, t, content=None, kind="IR_PHI"):
        """object *NAME of type T with unknown content (content: term, None = unknown)"""
        e, n = self.low.lvalue(name, t, kind)
        self.pre[n] = val("&" + name, 64)
        v = val(name, self.width(t)) if content is None else content
        if self.width(t) <= 64:
            self.mem.append(("&" + name, 0, self.size(t), v))
        return e, v

    def bitfield(self, name, t, offset, bits):
        sg = t[2] in [self.P.enum(s) for s in SIGNED]
        e, n = self.low.bitfield(name, t, offset, bits, sg)
        self.pre[n] = val("&" + name, 64)
        v = val(name, 8 * self.size(t))
        self.mem.append(("&" + name, 0, self.size(t), v))
        return e, v

    def expr(self, kind, t, args=(), **fields):
        self.k += 1
        if args:
            fields["args"] = ("arr", tuple(enumerate(args)))
        return self.low.expr("e%d" % self.k, t, None, kind, **fields)

    def const(self, t, value, **kw):
        """expression evaluating to a constant struct"""
        c = ("struct", "constant", tuple([("type", self.P.enum("CONSTANT_TYPE")), ("data_type", t), ("int_d", value), ("uint_d", value)]))
        self.k += 1
        return self.low.expr("c%d" % self.k, t, self.low.EE("EE_CONSTANT", t, constant=c), "E_CONSTANT", constant=c)

    def run(self, e, machine=None):
        """-> list of (Machine, memory path) or raises AnalysisError; [] with self.err when the expression is rejected"""
        low = self.low
        self.err = None
        I = low.interp_ir()
        m = low.start(I)
        ps = self.ctx.run(I, "expression_evaluate", args={0: e}, mem=m)
        d = I.take_dead()
        if d and not ps:
            self.err = "lowering stops: %s" % (d[0].events()[-1],)
            return []
        if len(ps) != 1 or d:
            self.err = "lowering takes %d paths (%d stop)" % (len(ps), len(d))
            return []
        p = ps[0]
        self.events, self.ret, self.lowst, self.I = p.events, p.ret, p.st, I
        G = self.G = Graph(self.P, I, p.st)
        mem = dict(p.mem)
        R = low.node(0, "IR_RETURN")
        for k, v in low.mem.items():
            mem.setdefault(k, v)
        nodes = [n for n in G.nodes() if n not in (low.F, low.B)]
        given = [n for n in nodes if n in low.mem_nodes()]
        order = given + [n for n in nodes if n not in low.mem_nodes()]
        return self.emit(mem, [(low.B, order, R)], machine)

    def emit(self, mem, blocks, machine=None):
        low = self.low
        E = Emit(low)
        mem.setdefault(("f", ("g", "codegen_flags"), "code_model"), self.P.enum(self.model))
        mem.setdefault(("f", ("g", "codegen_flags"), "debug_stack_size"), 0)
        ps = E.run(mem, low.F, blocks)
        d = E.I.take_dead()
        if not ps:
            self.err = "code emission stops: %s" % (d[0].events()[-1] if d else "no path",)
            return []
        out = []
        for p in ps:
            M = Machine({RSP: STK})
            M.preset((M.key(STK)[0], 0), 8, val("retaddr", 64))
            self.slots = {}
            for n, v in self.pre.items():
                loc = p.st.mem.get(nf(n, "cg_info", "stack_location"))
                if not isinstance(loc, int):
                    raise AnalysisError("no stack slot for an operand node")
                size = mem[nf(n, "size")]
                M.preset((M.key(STK)[0], -8 - loc), size, v)
            for nm, off, size, v in self.mem:
                M.preset((M.key(val(nm, 64))[0], off), size, v)
            if machine:
                machine(M)
            self.asm = [x for x in p.events if x.k in ("asm", "label")]
            for m in execute(p.events, M):
                out.append(m)
        return out


def asmtext(case):
    out = []
    for e in getattr(case, "asm", []):
        if e.k == "asm":
            out.append(e.name)
    return " ".join(out)


def outside_writes(m):
    """writes to memory not in the function's own frame: {base: set of byte offsets}"""
    S = m.key(STK)[0]
    r = {}
    for b, o, n in m.wlog:
        if b == S and o < 0:
            continue
        r.setdefault(b, set()).update(range(o, o + n))
    return r


def outside_reads(m):
    S = m.key(STK)[0]
    r = {}
    for b, o, n in m.rlog:
        if b == S:
            continue
        r.setdefault(b, set()).update(range(o, o + n))
    return r


def check(case, ms, targets, reads=None):
    """targets: {pointer name: [(offset, size, term, width or None)]}: final contents; every byte written is inside.
    -> None or a message"""
    if case.err:
        return case.err
    if not ms:
        return "no machine path"
    for m in ms:
        if m.done != "ret":
            return "the code ends with %s" % (m.done,)
        ow = outside_writes(m)
        for nm, specs in targets.items():
            b = m.key(val(nm, 64))[0]
            allowed = set()
            for off, size, term, w in specs:
                allowed.update(range(off, off + size))
                got = m.read((b, off), size)
                if not same(got, term, 8 * size if w is None else w):
                    return "%s holds %s, must be %s%s" % (nm, sh(canon(got, 8 * size)), sh(canon(term, 8 * size)), cond(m))
            extra = ow.pop(b, set()) - allowed
            if extra:
                return "bytes %s of %s are written, outside the %d-byte object" % (sorted(extra)[:4], nm, max(allowed) + 1)
        if ow:
            return "memory at %s is written" % ", ".join(show(b)[:60] for b in ow)
        if reads is not None:
            for b, offs in outside_reads(m).items():
                for nm, n in reads.items():
                    if m.key(val(nm, 64))[0] == b and (offs - set(range(n))):
                        return "bytes %s of %s are read, outside the %d-byte object" % (sorted(offs - set(range(n)))[:4], nm, n)
    return None


def cond(m):
    return " when %s" % (sh(m.conds),) if m.conds else ""


def sh(t):
    if isinstance(t, tuple):
        if t and t[0] == "v":
            return t[1]
        return "(" + " ".join(sh(x) for x in t) + ")"
    if isinstance(t, list):
        return " ".join(sh(x) for x in t)
    if isinstance(t, int) and t > 1 << 20:
        return hex(t)
    return str(t)
