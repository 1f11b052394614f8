"""Shared abstract objects and models: types, struct values, strings."""
from absint import show


def simple(P, st, const=0):
    return ("ty", "simple", P.enum(st) if isinstance(st, str) else st, const)


def ptr(child, const=0):
    return ("ty", "ptr", child, const)


def array(child, n, const=0):
    return ("ty", "array", child, n, const)


def incarray(child, const=0):
    return ("ty", "incarray", child, const)


def vla(child, const=0):
    return ("ty", "vla", child, const)


def func(ret, params=(), variadic=0, const=0):
    return ("ty", "func", ret, tuple(params), variadic, const)


def struct(name, const=0):
    return ("ty", "struct", name, const)


TYK = {"simple": "TY_SIMPLE", "ptr": "TY_POINTER", "array": "TY_ARRAY", "incarray": "TY_INCOMPLETE_ARRAY",
       "vla": "TY_VARIABLE_LENGTH_ARRAY", "func": "TY_FUNCTION", "struct": "TY_STRUCT"}


def ty_children(t):
    if t[1] in ("ptr", "array", "incarray", "vla"):
        return (t[2],)
    if t[1] == "func":
        return (t[2],) + t[3]
    return ()


def type_hook(I, st, loc):
    """contents of abstract type objects"""
    if loc[0] == "f":
        b = loc[1]
        if b[0] == "d" and isinstance(b[1], tuple) and b[1][0] == "ty":
            t = b[1]
            if loc[2] == "type":
                return I.P.enum(TYK[t[1]])
            if loc[2] == "simple":
                return t[2] if t[1] == "simple" else None
            if loc[2] == "is_const":
                return t[-1]
            if loc[2] == "n":
                return len(ty_children(t))
            if loc[2] == "struct_data" and t[1] == "struct":
                return ("ob", "sd:" + t[2])
        if b[0] == "f" and b[1][0] == "d" and isinstance(b[1][1], tuple) and b[1][1][0] == "ty":
            t = b[1][1]
            if b[2] == "array" and loc[2] == "length" and t[1] == "array":
                return t[3]
            if b[2] == "function" and loc[2] == "is_variadic" and t[1] == "func":
                return t[4]
    # t->children[i]
    c = None
    if loc[0] == "i" and loc[1][0] == "f" and loc[1][2] == "children":
        c, base = loc[2], loc[1][1]
    elif loc[0] == "d" and isinstance(loc[1], tuple):
        pass
    if c is not None and base[0] == "d" and isinstance(base[1], tuple) and base[1][0] == "ty":
        ch = ty_children(base[1])
        if isinstance(c, int) and 0 <= c < len(ch):
            return ch[c]
    if loc[0] == "f" and loc[2] == "children" and loc[1][0] == "d" and isinstance(loc[1][1], tuple) \
            and loc[1][1][0] == "ty":
        return ("arr", tuple(enumerate(ty_children(loc[1][1]))))
    return None


def isty(t, k=None):
    return isinstance(t, tuple) and t[0] == "ty" and (k is None or t[1] == k)


def m_type_simple(I, st, a, n, f):
    return [(st, ("ty", "simple", a[0], 0))] if isinstance(a[0], int) else None


def m_type_pointer(I, st, a, n, f):
    return [(st, ("ty", "ptr", a[0], 0))]


def m_type_deref(I, st, a, n, f):
    if isty(a[0], "ptr"):
        return [(st, a[0][2])]
    if isty(a[0]):
        return dead(I, st, "type_deref of non-pointer", n, f)
    return [(st, ("fn", "type_deref", a))]


def dead(I, st, what, n, f):
    from absint import Ev
    from front import locs
    st.ev = (st.ev, Ev("noreturn", what, (), locs(n), f.name if f else "?"))
    st.dead = True
    I.dead_states().append(st)
    return []


def m_make_const(I, st, a, n, f):
    if isty(a[0]) and isinstance(a[1], int):
        return [(st, a[0][:-1] + (int(bool(a[1])),))]
    return [(st, ("fn", "type_make_const", a))]


def m_unqual(I, st, a, n, f):
    if isty(a[0]):
        return [(st, a[0][:-1] + (0,))]
    return [(st, ("fn", "type_remove_qualifications", a))]


def m_type_array(I, st, a, n, f):
    return [(st, ("ty", "array", a[0], a[1], 0))]


def m_type_struct(I, st, a, n, f):
    v = a[0]
    return [(st, ("ty", "struct", v[1][3:] if v[0] == "ob" else show(v), 0))]


TYPE_MODELS = {"type_simple": m_type_simple, "type_pointer": m_type_pointer, "type_deref": m_type_deref,
               "type_make_const": m_make_const, "type_remove_qualifications": m_unqual,
               "type_array": m_type_array, "type_struct": m_type_struct}

# pure predicates over types: transparent wherever they are called
TYPE_PREDS = ["type_is_integer", "type_is_floating", "type_is_arithmetic", "type_is_pointer", "type_is_simple",
              "type_is_aggregate", "is_scalar", "is_signed", "type_rank", "to_unsigned", "is_contained_in", "get_range"]


def hooks(*hs):
    def h(I, st, loc):
        for x in hs:
            r = x(I, st, loc)
            if r is not None:
                return r
        return None
    return h


def obj_hook(table):
    """table: {(objname, field): value}"""
    def h(I, st, loc):
        if loc[0] == "f" and loc[1][0] == "d" and isinstance(loc[1][1], tuple) and loc[1][1][0] == "ob":
            return table.get((loc[1][1][1], loc[2]))
        return None
    return h


def sv(chars):
    """abstract string_view value: CHARS is a list of ints or (lo, hi) classes -> (struct value, facts, mem)"""
    base = ("ob", "bytes")
    mem = {}
    return base, mem


# ------------------------------------------------------------ ABI selection (anchor: the init functions)
ST_ALL = ["ST_VOID", "ST_CHAR", "ST_SCHAR", "ST_UCHAR", "ST_SHORT", "ST_USHORT", "ST_INT", "ST_UINT", "ST_LONG",
          "ST_ULONG", "ST_LLONG", "ST_ULLONG", "ST_FLOAT", "ST_DOUBLE", "ST_LDOUBLE", "ST_BOOL"]
INTS = [s for s in ST_ALL if s not in ("ST_VOID", "ST_FLOAT", "ST_DOUBLE", "ST_LDOUBLE")]
ARITH = INTS + ["ST_FLOAT", "ST_DOUBLE"]
SIGNED = {"ST_CHAR", "ST_SCHAR", "ST_SHORT", "ST_INT", "ST_LONG", "ST_LLONG"}
RANK = {"ST_BOOL": 0, "ST_CHAR": 1, "ST_SCHAR": 1, "ST_UCHAR": 1, "ST_SHORT": 2, "ST_USHORT": 2, "ST_INT": 3,
        "ST_UINT": 3, "ST_LONG": 4, "ST_ULONG": 4, "ST_LLONG": 5, "ST_ULLONG": 5}
UNSIGNED_OF = {"ST_INT": "ST_UINT", "ST_LONG": "ST_ULONG", "ST_LLONG": "ST_ULLONG"}


def sizes(abi):
    d = {"ST_VOID": 0, "ST_BOOL": 1, "ST_CHAR": 1, "ST_SCHAR": 1, "ST_UCHAR": 1, "ST_SHORT": 2, "ST_USHORT": 2,
         "ST_INT": 4, "ST_UINT": 4, "ST_LONG": 8, "ST_ULONG": 8, "ST_LLONG": 8, "ST_ULLONG": 8, "ST_FLOAT": 4,
         "ST_DOUBLE": 8, "ST_LDOUBLE": 16}
    if abi == "ms":
        d["ST_LONG"] = d["ST_ULONG"] = 4
    return d


def promote(st, abi, bits=None):
    """C11 6.3.1.1p2"""
    w = bits if bits is not None else sizes(abi)[st] * 8
    if st == "ST_BOOL":
        return "ST_INT"
    if RANK[st] > RANK["ST_INT"] and bits is None:
        return st
    if st in SIGNED:
        return "ST_INT" if w <= 32 else st
    return "ST_INT" if w < 32 else st


def usual(a, b, abi):
    for f in ("ST_LDOUBLE", "ST_DOUBLE", "ST_FLOAT"):
        if a == f or b == f:
            return f
    a, b = promote(a, abi), promote(b, abi)
    if a == b:
        return a
    sa, sb = a in SIGNED, b in SIGNED
    if sa == sb:
        return a if RANK[a] > RANK[b] else b
    u, s = (b, a) if sa else (a, b)
    if RANK[u] >= RANK[s]:
        return u
    if sizes(abi)[s] > sizes(abi)[u]:
        return s
    return UNSIGNED_OF[s]


ABI_INIT = {"sysv": "abi_init_sysv", "ms": "abi_init_microsoft"}
_abi_cache = {}


def abi_env(ctx, abi):
    """globals written by the ABI's initialiser: name/field -> value"""
    if abi in _abi_cache:
        return _abi_cache[abi]
    I = ctx.interp(record_writes=True)
    ps = ctx.run(I, ABI_INIT[abi])
    ctx.require(len(ps) >= 1, "ABI initialiser has no normal path")
    p = ps[0]
    env = {}
    for e in p.events:
        if e.k == "write":
            loc, v = e.args
            if loc[0] == "g":
                env[loc[1]] = v
            elif loc[0] == "f" and loc[1][0] == "g":
                env.setdefault(loc[1][1], {})
                if isinstance(env[loc[1][1]], dict):
                    env[loc[1][1]][loc[2]] = v
    out = {}
    for k, v in env.items():
        if isinstance(v, dict):
            out[k] = ("struct", k, tuple(sorted(v.items())))
        else:
            out[k] = v
    ctx.require(isinstance(out.get("abi_sizeof_simple"), tuple) and out["abi_sizeof_simple"][0] == "func",
                "ABI initialiser does not select a size function")
    _abi_cache[abi] = (out, p)
    return _abi_cache[abi]


def abi_genv(ctx, abi):
    """constants for the interpreter: the ABI's size function and type choices"""
    env, _ = abi_env(ctx, abi)
    return {k: v for k, v in env.items() if k in ("abi_sizeof_simple", "abi_info")}


def abi_inline(ctx, abi):
    env, _ = abi_env(ctx, abi)
    return [env["abi_sizeof_simple"][1]]


def abi_calls(ctx, abi):
    """(globals, functions, files) binding every function pointer the ABI's initialiser sets"""
    env, _ = abi_env(ctx, abi)
    g = {k: v for k, v in env.items() if isinstance(v, tuple) and v[0] == "func"}
    fs = [v[1] for v in g.values()]
    return g, fs, sorted({ctx.P.funcs[f].file for f in fs})
