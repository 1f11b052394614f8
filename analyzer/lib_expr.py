"""Abstract elaboration of expressions: expr_new on abstract operands, then lowering to IR-builder calls.

Operands are opaque lvalue objects with a concrete abstract type.  Conversions made by
expression_cast are kept as ('fn','cast',(operand, type)); IR builder calls stay events."""
from absint import show
from lib import *
from front import AnalysisError


class World:
    def __init__(self, ctx, abi="sysv"):
        self.ctx, self.P, self.abi = ctx, ctx.P, abi
        self.tab = {}
        self.genv = abi_genv(ctx, abi)
        self.E = self.P.enum

    # ---- objects
    def operand(self, name, t, bitfield=None, kind="E_SYMBOL"):
        o = ("ob", name)
        self.tab[(name, "data_type")] = t
        self.tab[(name, "type")] = self.E(kind if bitfield is None else "E_DOT_OPERATOR")
        if bitfield is not None:
            self.tab[(name, "member")] = ("struct", "m", (("lhs", ("ob", name + ".s")), ("member_idx", 0)))
            self.tab[(name + ".s", "data_type")] = struct(name + ".sd")
            self.tab[("sd:" + name + ".sd", "bf")] = bitfield
        return o

    def null_const(self, name, t=None):
        o = ("ob", name)
        t = t or simple(self.P, "ST_INT")
        self.tab[(name, "data_type")] = t
        self.tab[(name, "type")] = self.E("E_CONSTANT")
        self.tab[(name, "constant")] = ("struct", "constant", (("type", self.E("CONSTANT_TYPE")), ("data_type", t),
                                                               ("int_d", 0), ("uint_d", 0)))
        return o

    def hook(self, I, st, loc):
        if loc[0] != "f":
            return None
        b = loc[1]
        # fields of the struct a bit-field operand belongs to
        if b[0] in ("i", "d") and loc[2] == "bitfield":
            arr = b[1]
            own = None
            while isinstance(arr, tuple) and arr[0] in ("b", "addr", "i", "d"):
                arr = arr[2] if arr[0] == "b" else arr[1]
            if isinstance(arr, tuple) and arr[0] == "f" and arr[2] == "fields" and arr[1][0] == "d":
                own = arr[1][1]
            if isinstance(own, tuple) and own[0] == "ob" and (own[1], "bf") in self.tab:
                if loc[2] == "bitfield":
                    return self.tab[(own[1], "bf")]
        if b[0] == "d" and isinstance(b[1], tuple) and b[1][:2] == ("fn", "cast"):
            e, t = b[1][2]
            if loc[2] == "data_type":
                return t
            if loc[2] == "type":
                return self.E("E_CAST")
            if loc[2] == "pos":
                return ("p", "pos")
        if b[0] == "f" and b[2] == "cast" and b[1][0] == "d" and isinstance(b[1][1], tuple) \
                and b[1][1][:2] == ("fn", "cast"):
            return {"arg": b[1][1][2][0], "target": b[1][1][2][1]}.get(loc[2])
        if b[0] == "d" and isinstance(b[1], tuple) and b[1][:2] == ("fn", "expr"):
            for k, v in b[1][2][0][2]:
                if k == loc[2]:
                    return v
            return 0
        return None

    # ---- models
    def m_cast(self, I, st, a, n, f):
        e, t = a
        d = I.load(st, ("f", ("d", e), "data_type"), None)
        return [(st, e if d == t else ("fn", "cast", (e, t)))]

    def m_memcpy(self, I, st, a, n, f):
        if isinstance(a[1], tuple) and a[1][0] == "addr":
            v = I.rd(st, a[1][1])
            if isinstance(v, tuple) and v[0] == "upd" and v[1][0] == "struct":
                v = I.update(v[1], dict(v[2]), None)
            if a[0] == ("ob", "heap"):
                return [(st, ("fn", "expr", (v,)))]
        return None

    def models(self, extra=None):
        m = dict(TYPE_MODELS)
        m.update({"expression_cast": self.m_cast, "memcpy": self.m_memcpy,
                  "cc_malloc": lambda I, st, a, n, f: [(st, ("ob", "heap"))],
                  "evaluate_constant_expression": lambda I, st, a, n, f: [(st, 0)]})
        m.update(extra or {})
        return m

    INL = ["operators_get_result_type", "constant_is_zero", "is_null_pointer_constant", "calculate_size",
           "expression_to_constant"]

    def interp(self, extra=None, inline=(), **kw):
        I = self.ctx.interp(inline=self.INL + TYPE_PREDS + abi_inline(self.ctx, self.abi) + list(inline),
                            inline_tus=["src/parser/expression.c"], models=self.models(extra), globals_const=self.genv,
                            load_hook=hooks(type_hook, obj_hook(self.tab), self.hook), **kw)
        I.max_rec = 4
        return I

    # ---- elaboration
    def new(self, I, kind, args=(), **fields):
        """-> list of result expression values (fields dict), number of error paths"""
        fs = [("type", self.E(kind))]
        if args:
            fs.append(("args", ("arr", tuple(enumerate(args)))))
        fs += sorted(fields.items())
        ps = self.ctx.run(I, "expr_new", args={0: ("struct", "expr", tuple(fs))})
        bad = I.take_dead()
        return [p.ret for p in ps], bad

    def fields(self, v):
        if isinstance(v, tuple) and v[:2] == ("fn", "expr") and v[2][0][0] == "struct":
            return dict(v[2][0][2])
        return None

    def argv(self, v):
        a = self.fields(v).get("args")
        if isinstance(a, tuple) and a[0] == "arr":
            return [x for _, x in sorted(a[1])]
        return []


def peel(v):
    """expression value -> (operand, [types converted to, innermost first])"""
    ts = []
    while isinstance(v, tuple) and v[:2] == ("fn", "cast"):
        ts.append(v[2][1])
        v = v[2][0]
    ts.reverse()
    return v, ts


def rng(st, abi, bits=None):
    w = bits if bits is not None else sizes(abi)[st] * 8
    if st == "ST_BOOL":
        return (0, 1)
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if st in SIGNED else (0, (1 << w) - 1)


def chain_equiv(src, chain, dst, abi, bits=None):
    """does converting src through chain give the same value as converting src to dst directly?"""
    FL = ("ST_FLOAT", "ST_DOUBLE")
    cur, cb = src, bits
    seq = [src] + list(chain)
    if seq[-1] != dst:
        return False
    mids = seq[1:-1]
    for m in mids:
        if cur in FL:
            if m in FL:
                if sizes(abi)[m] < sizes(abi)[cur]:
                    return False
                cur = m
                continue
            return False
        if m in FL:
            return False
        if m == "ST_BOOL":
            return False
        lo, hi = rng(cur, abi, cb)
        ml, mh = rng(m, abi)
        if ml <= lo and hi <= mh:
            continue        # value preserved: keep the narrower source range
        if dst not in FL and dst != "ST_BOOL" and sizes(abi)[m] >= sizes(abi)[dst]:
            return True     # modular reduction to a narrower type commutes
        return False
    return True


def lin(t):
    """linear form of an integer term: {atom: coef}, atom None for the constant"""
    if isinstance(t, int):
        return {None: t}
    if isinstance(t, tuple) and t[0] == "b" and t[1] in ("+", "-", "*"):
        a, b = lin(t[2]), lin(t[3])
        if t[1] == "*":
            if set(a) <= {None}:
                return {k: v * a.get(None, 0) for k, v in b.items()}
            if set(b) <= {None}:
                return {k: v * b.get(None, 0) for k, v in a.items()}
            return {t: 1}
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[1] == "+" else -v)
        return {k: v for k, v in r.items() if v or k is None}
    if isinstance(t, tuple) and t[0] == "b" and t[1] == "<<" and isinstance(t[3], int):
        return {k: v << t[3] for k, v in lin(t[2]).items()}
    return {t: 1}


def lineq(a, b):
    c = lambda d: {k: v for k, v in d.items() if v}
    return c(a) == c(b)
