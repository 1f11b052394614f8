"""Abstract IR graphs: lowering functions evaluated with symbolic node objects, code emission of a graph."""
from absint import show, Ev, Interp
from front import AnalysisError, locs
from lib import *
from lib_expr import World

NODE0 = {"ob"}


def isnode(v):
    return isinstance(v, tuple) and v and v[0] == "ob" and v[1].startswith("n#")


def nf(n, *path):
    """location of a field of node N"""
    l = ("d", n)
    for p in path:
        l = ("i", l, p) if isinstance(p, int) else ("f", l, p)
    return l


def root_node(loc):
    while loc[0] in ("f", "i"):
        loc = loc[1]
    if loc[0] == "d" and isnode(loc[1]):
        return loc[1]
    return None


def node_hook(I, st, loc):
    """fields of a node that nothing wrote are zero (ALLOC of a compound literal)"""
    if loc[0] in ("f", "i"):
        if root_node(loc) is not None:
            return 0
        # uses[k] of a node
        if loc[0] == "i" and loc[1][0] == "d" and isinstance(loc[1][1], tuple) and loc[1][1][0] == "ob" \
                and loc[1][1][1].startswith("uses#"):
            return 0
    if loc[0] == "d" and isinstance(loc[1], tuple) and loc[1][0] == "b" and loc[1][1] == "+":
        b = loc[1][2]
        if isinstance(b, tuple) and b[0] == "ob" and b[1].startswith("uses#"):
            return st.mem.get(("i", ("d", b), loc[1][3]), 0)
    if loc[0] == "d" and isinstance(loc[1], tuple) and loc[1][0] == "ob" and loc[1][1].startswith("uses#"):
        return st.mem.get(("i", ("d", loc[1]), 0), 0)
    return None


def m_ir_new(I, st, a, n, f):
    k = st.mem.get(("g", "#nodes"), 0) + 1
    st.mem[("g", "#nodes")] = k
    o = ("ob", "n#%d" % k)
    st.mem[nf(o, "type")] = a[0]
    st.mem[nf(o, "size")] = a[1]
    st.mem[nf(o, "index")] = k
    st.ev = (st.ev, Ev("node", "ir_new", (o, a[0], a[1]), locs(n), f.name if f else "?"))
    return [(st, o)]


def m_set_arg(I, st, a, n, f):
    nd, i, v = a
    if not isnode(nd) or not isinstance(i, int):
        return None
    P = I.P
    old = st.mem.get(nf(nd, "arguments", i), 0)
    st.mem[nf(nd, "arguments", i)] = v
    if isnode(old) and old != v:
        uses_remove(st, old, nd)
    if isnode(v):
        uses_add(st, v, nd)
        if st.mem.get(nf(nd, "type")) == P.enum("IR_PROJECT"):
            ix = I.rd(st, nf(nd, "project", "index"))
            if isinstance(ix, int):
                st.mem[nf(v, "projects", ix)] = nd
    st.ev = (st.ev, Ev("arg", "node_set_argument", (nd, i, v), locs(n), f.name if f else "?"))
    return [(st, 0)]


def uses_add(st, v, u):
    k = st.mem.get(nf(v, "use_size"), 0)
    b = ("ob", "uses#" + v[1])
    st.mem[nf(v, "uses")] = b
    st.mem[("i", ("d", b), k)] = u
    st.mem[nf(v, "use_size")] = k + 1


def uses_remove(st, v, u):
    k = st.mem.get(nf(v, "use_size"), 0)
    b = ("ob", "uses#" + v[1])
    l = [st.mem.get(("i", ("d", b), i)) for i in range(k)]
    if u in l:
        l.remove(u)
        for i, x in enumerate(l):
            st.mem[("i", ("d", b), i)] = x
        st.mem[nf(v, "use_size")] = k - 1


IR_MODELS = {"ir_new": m_ir_new, "node_set_argument": m_set_arg}
# functions of ir.c that build nodes: transparent
IR_SKIP = {"ir_reset", "ir_schedule_blocks", "ir_local_schedule", "ir_local_schedule_recursive", "ir_get_node_list",
           "ir_calculate_block_local_variables", "ir_seal_blocks", "ir_new", "node_set_argument"}


def ir_inline(P):
    return [n for n, f in P.funcs.items() if f.file == "src/ir/ir.c" and n not in IR_SKIP]


class Graph:
    """read access to the nodes of a state"""
    def __init__(self, P, I, st):
        self.P, self.I, self.st = P, I, st
        self.names = {}
        for k in P.enum_names("IR_ADD"):
            self.names.setdefault(P.enum(k), k)

    def g(self, n, *path):
        return self.I.rd(self.st, nf(n, *path))

    def type(self, n):
        t = self.g(n, "type")
        return self.names.get(t, t)

    def args(self, n):
        return [self.g(n, "arguments", i) for i in range(4)]

    def nodes(self):
        out = []
        for k, v in self.st.mem.items():
            if k[0] == "f" and k[2] == "type" and k[1][0] == "d" and isnode(k[1][1]):
                out.append(k[1][1])
        return sorted(out, key=lambda o: int(o[1][2:]))


class Lower(World):
    """expression_evaluate and friends on abstract operands"""
    def __init__(self, ctx, abi="sysv"):
        super().__init__(ctx, abi)
        self.ee = {}
        self.mem = {}
        self.k = 0

    def node(self, size, kind="IR_PHI", name=None):
        """an opaque value node"""
        self.k += 1
        o = ("ob", "n#%d" % (900 + self.k))
        self.mem[nf(o, "type")] = self.E(kind)
        self.mem[nf(o, "size")] = size
        self.mem[nf(o, "index")] = 900 + self.k
        return o

    def mem_nodes(self):
        return {k[1][1] for k in self.mem if k[0] == "f" and k[2] == "type" and k[1][0] == "d" and isnode(k[1][1])}

    def expr(self, name, t, ee=None, kind="E_SYMBOL", **fields):
        """operand expression of type T; ee = evaluated form (struct value)"""
        o = ("ob", name)
        self.tab[(name, "data_type")] = t
        self.tab[(name, "type")] = self.E(kind)
        for k, v in fields.items():
            self.tab[(name, k)] = v
        if ee is not None:
            self.ee[o] = ee
        return o

    def EE(self, kind, t, **fields):
        d = [("type", self.E(kind)), ("data_type", t)]
        for k, v in fields.items():
            d.append(("pointer" if k == "variable" else k, v))
        return ("struct", "evaluated_expression", tuple(d))

    def value(self, name, t, size=None):
        """operand that evaluates to an opaque value node"""
        n = self.node(self.size(t) if size is None else size)
        return self.expr(name, t, self.EE("EE_VARIABLE", t, variable=n)), n

    def lvalue(self, name, t, kind="IR_PHI"):
        n = self.node(8, kind)
        return self.expr(name, t, self.EE("EE_POINTER", t, pointer=n, is_lvalue=1)), n

    def bitfield(self, name, t, offset, bits, signed):
        n = self.node(8)
        bp = ("struct", "b", (("pointer", n), ("bitfield", bits), ("offset", offset), ("sign_extend", int(signed))))
        return self.expr(name, t, self.EE("EE_BITFIELD_POINTER", t, bitfield_pointer=bp, is_lvalue=1)), n

    def size(self, t):
        if t[1] == "simple":
            for s in ARITH:
                if self.E(s) == t[2]:
                    return sizes(self.abi)[s]
        if t[1] == "ptr":
            return 8
        raise AnalysisError("size of %s" % show(t))

    def m_eval(self, I, st, a, n, f):
        e = a[0]
        if e in self.ee:
            st.ev = (st.ev, Ev("eval", e[1], (e,), locs(n), f.name if f else "?"))
            return [(st, self.ee[e])]
        return None

    def m_expr_new(self, I, st, a, n, f):
        """constants built while lowering (sizes); other kinds are not needed for the operand types used here"""
        v = a[0]
        if isinstance(v, tuple) and v[0] == "upd" and v[1][0] == "struct":
            v = I.update(v[1], dict(v[2]), None)
        d = dict(v[2]) if isinstance(v, tuple) and v[0] == "struct" else {}
        if d.get("type") != self.E("E_CONSTANT"):
            return None
        k = st.mem.get(("g", "#exprs"), 0) + 1
        st.mem[("g", "#exprs")] = k
        o = ("ob", "x#%d" % k)
        for x, y in d.items():
            st.mem[("f", ("d", o), x)] = y
        st.mem[("f", ("d", o), "data_type")] = I.rd(st, ("f", ("f", ("d", o), "constant"), "data_type"))
        return [(st, o)]

    def interp_ir(self, extra=None, inline=(), more_hooks=(), tus=(), **kw):
        m = dict(TYPE_MODELS)
        m.update(IR_MODELS)
        m["expression_evaluate"] = self.m_eval
        m["expr_new"] = self.m_expr_new
        m.update(extra or {})
        I = self.ctx.interp(inline=["calculate_size", "type_has_variable_size", "expression_evaluate", "evaluated_expression_to_var",
                                    "evaluated_expression_to_address", "evaluated_expression_cast", "type_sizeof", "gen_mask",
                                    "constant_simple_unsigned", "constant_simple_signed", "expression_to_ir",
                                    "expression_to_int", "expression_to_size_t", "expression_to_void", "expression_to_address",
                                    "expression_to_ir_clear_temp"]
                            + ir_inline(self.P) + TYPE_PREDS + abi_inline(self.ctx, self.abi) + list(inline),
                            inline_tus=["src/parser/expression_to_ir.c", "src/ir/ir.c"] + list(tus), models=m,
                            globals_const=self.genv,
                            load_hook=hooks(type_hook, obj_hook(self.tab), self.hook, node_hook, *more_hooks), **kw)
        I.max_rec = 6
        I.union_alias = {"variable": "pointer"}
        return I

    def start(self, I):
        """memory with a current function and an open block"""
        F, B = self.node(0, "IR_FUNCTION"), self.node(0, "IR_REGION")
        self.F, self.B = F, B
        self.mem[nf(B, "block_info", "is_sealed")] = 1
        self.mem[nf(B, "arguments", 0)] = F
        self.mem[nf(B, "parent_function")] = F
        m = dict(self.mem)
        p = I.run("set_current_function", args={0: F}, mem=m)[0]
        p = I.run("ir_block_start", args={0: B}, mem=p.mem)[0]
        I.take_dead()
        return p.mem


# ------------------------------------------------------------------ code emission
def operand(I, st, v):
    """struct operand value -> tuple"""
    P = I.P
    d = {}

    def get(x, f, dflt=0):
        if isinstance(x, tuple) and x[0] == "struct":
            for k, y in x[2]:
                if k == f:
                    return y
            return dflt
        st.cnt[0] += 1
        l = ("v", "op", "op%d" % st.cnt[0], 0)
        st.mem[l] = x
        return I.rd(st, ("f", l, f))
    t = get(v, "type")
    if t == 0 or v == 0:
        return None
    names = {P.enum(n): n for n in P.enum_names("OPERAND_EMPTY")}
    k = names.get(t)
    if k == "OPERAND_EMPTY":
        return None
    if k in ("OPERAND_REG", "OPERAND_STAR_REG"):
        r = get(v, "reg")
        return ("reg" if k == "OPERAND_REG" else "star", get(r, "reg"), get(r, "size"), get(r, "upper_byte"))
    if k == "OPERAND_SSE_REG":
        return ("xmm", get(v, "sse_reg"))
    if k in ("OPERAND_IMM_LABEL", "OPERAND_IMM_LABEL_ABSOLUTE"):
        r = get(v, "imm_label")
        return ("imm" if k == "OPERAND_IMM_LABEL" else "abs", get(r, "label_"), get(r, "offset"))
    if k == "OPERAND_MEM":
        r = get(v, "mem")
        return ("mem", get(r, "base"), get(r, "index"), get(r, "scale"), get(r, "offset"))
    raise AnalysisError("operand of unknown kind %s" % show(v))


def m_asm(k):
    def m(I, st, a, n, f):
        st.ev = (st.ev, Ev("asm", a[0][1] if isinstance(a[0], tuple) and a[0][0] == "str" else a[0],
                           tuple(operand(I, st, x) for x in a[1:]), locs(n), f.name if f else "?"))
        return [(st, 0)]
    return m


def m_asm_ins(I, st, a, n, f):
    l = I.deref(st, a[0])
    mn = I.rd(st, ("f", l, "mnemonic"))
    ops = []
    for i in range(4):
        o = I.rd(st, ("i", ("f", l, "ops"), i))
        if not isinstance(o, tuple) or o[0] != "struct":
            o = ("struct", "operand", tuple((x, I.rd(st, ("f", ("i", ("f", l, "ops"), i), x)))
                                            for x in ("type", "reg", "sse_reg", "mem", "imm_label")))
        x = operand(I, st, o)
        if x is None:
            break
        ops.append(x)
    if not (isinstance(mn, tuple) and mn[0] == "str"):
        raise AnalysisError("mnemonic %s of a table instruction cannot be evaluated at %s" % (show(mn), locs(n)))
    st.ev = (st.ev, Ev("asm", mn[1], tuple(ops), locs(n), f.name if f else "?"))
    return [(st, 0)]


def m_label(I, st, a, n, f):
    st.ev = (st.ev, Ev("label", "asm_label", a, locs(n), f.name if f else "?"))
    return [(st, 0)]


def m_reglabel(I, st, a, n, f):
    k = st.mem.get(("g", "#labels"), 0) + 1
    st.mem[("g", "#labels")] = k
    return [(st, 1000 + k)]


ASM_MODELS = {"asm_ins": m_asm_ins, "asm_ins0": m_asm(0), "asm_ins1": m_asm(1), "asm_ins2": m_asm(2), "asm_ins3": m_asm(3),
              "asm_label": m_label, "asm_comment": lambda I, st, a, n, f: [(st, 0)], "register_label": m_reglabel,
              "register_label_name": m_reglabel, "dbg_instruction": lambda I, st, a, n, f: [(st, ("str", "?"))],
              "asm_section": lambda I, st, a, n, f: [(st, 0)]}


class Emit:
    """run codegen() on one function whose graph is given as memory"""
    def __init__(self, low, extra=None, inline=(), opaque=()):
        self.low, self.ctx, self.P = low, low.ctx, low.P
        m = dict(TYPE_MODELS)
        m.update(IR_MODELS)
        m.update(ASM_MODELS)
        m.update(extra or {})
        names = [n for n, f in self.P.funcs.items() if f.file in ("src/codegen/codegen.c", "src/codegen/registers.c", "src/arch/x64.c")]
        self.I = self.ctx.interp(inline=names + ["calculate_size", "gen_mask", "round_up_to_nearest", "abi_emit_va_arg",
                                                 "abi_emit_va_start", "abi_emit_function_preamble", "node_is_control"]
                                 + ir_inline(self.P) + TYPE_PREDS + abi_inline(self.ctx, self.low.abi) + list(inline),
                                 inline_tus=["src/codegen/codegen.c", "src/codegen/registers.c", "src/arch/x64.c"], models=m,
                                 opaque=opaque, globals_const=self.low.genv,
                                 load_hook=hooks(type_hook, obj_hook(self.low.tab), node_hook))
        self.I.max_rec = 4

    def block(self, mem, B, nodes, end=0, next=0):
        prev = None
        for n in nodes:
            if prev is None:
                mem[nf(B, "child")] = n
            else:
                mem[nf(prev, "next")] = n
            mem[nf(n, "block")] = B
            prev = n
        if prev is None:
            mem[nf(B, "child")] = 0
        else:
            mem[nf(prev, "next")] = 0
        mem[nf(B, "block_info", "end")] = end
        mem[nf(B, "next")] = next

    def run(self, mem, F, blocks):
        """blocks: [(B, nodes, end)]"""
        mem = {k: v for k, v in mem.items() if k[0] != "v"}
        for i, (B, nodes, end) in enumerate(blocks):
            self.block(mem, B, nodes, end, blocks[i + 1][0] if i + 1 < len(blocks) else 0)
        mem[nf(F, "child")] = blocks[0][0]
        mem[nf(F, "next")] = 0
        mem[nf(F, "function", "name")] = ("str", "f")
        mem[("g", "first_function")] = F
        ps = self.ctx.run(self.I, "codegen", mem=mem)
        return ps

    def ret(self, low):
        r = low.node(0, "IR_RETURN")
        return r


def topo(G, roots):
    """nodes reachable from ROOTS through arguments, operands first"""
    out, seen = [], set()

    def go(n):
        if not isnode(n) or n in seen:
            return
        seen.add(n)
        for a in G.args(n):
            go(a)
        out.append(n)
    for r in roots:
        go(r)
    return out
