"""Interning of types: one object per distinct type."""
from lib import *
from lib_tok import init_globals
from absint import Ev, St, show
import zlib
import random
from front import AnalysisError, locs

EXPLANATION = ("The type constructors are evaluated abstractly on one evolving abstract heap: a catalogue of types covering every kind, "
               "qualification, basic kind, length, variadicity, aggregate identity and component position is built, each several times, in "
               "several orders and by every constructor that can make it; two results must be the same object exactly when the structural "
               "descriptions are equal. The bucket hash is run as written and, in a second mode, forced to collide, so the comparison "
               "decides alone; a who-may-write rule over the syntax trees shows that no other code changes what identifies a type.")
ASSUMPTIONS = ["array lengths, member lists and nesting beyond the catalogue are handled by the same code paths (comparison and hashing are "
               "per-field and recursive over components)"]
FLOORS = {"identity": 300, "frozen": 1}
IDENT = {"type", "simple", "array", "length", "function", "is_variadic", "struct_data", "is_const", "n", "children", "length_expr"}


class Types:
    def __init__(self, ctx, collide):
        self.ctx, self.P, self.collide = ctx, ctx.P, collide
        self.st = St()
        self.n = 0
        self.alloc = []
        I = self.I = ctx.interp(inline=["type_create", "type_simple", "type_pointer", "type_struct", "type_array", "type_make_const",
                                        "type_remove_qualifications", "type_adjust_parameter", "type_deref", "type_evaluate_vla", "type_select"] +
                                ([] if collide else ["hash32"]),
                                inline_tus=[self.P.need("type_create").file], models=self.models(), load_hook=hooks(init_globals, self.zero))
        I.unroll, I.max_depth, I.max_rec, I.max_steps = 5000, 60, 30, 30000000
        I.mirror = {}

    def zero(self, I, st, loc):
        # cells of the bucket table and of nodes not yet written
        while loc[0] in ("f", "i"):
            loc = loc[1]
        return 0 if loc == ("g", "#table") else None

    def models(self):
        P = self.P

        def m_malloc(I, st, a, n, f):
            self.n += 1
            if self.n == 1 and not any(True for _ in ()):
                pass
            sz = a[0]
            if isinstance(sz, int) and sz >= 1024:
                return [(st, ("addr", ("i", ("g", "#table"), 0)))]
            o = ("ob", "T%d" % self.n)
            self.alloc.append((o, sz, locs(n)))
            return [(st, o)]

        def m_copy(I, st, a, n, f):
            d, s = I.deref(st, a[0]), I.deref(st, a[1])
            if not isinstance(a[2], int):
                raise AnalysisError("memcpy of %s bytes" % show(a[2]))
            cells = a[2] // 8
            if cells == 0:
                return [(st, a[0])]
            d = d if d[0] == "i" else ("i", d, 0)
            if s[0] != "i":
                vals = [I.rd(st, s)] + [I.rd(st, ("i", s, k)) for k in range(1, cells)]
            else:
                vals = [I.rd(st, ("i", s[1], s[2] + k)) for k in range(cells)]
            for k, v in enumerate(vals):
                I.write(st, ("i", d[1], d[2] + k), v)
            return [(st, a[0])]

        def m_hash(I, st, a, n, f):
            if self.collide:
                return [(st, 0)]
            if isinstance(a[0], int):
                return None
            return [(st, zlib.crc32(show(a[0]).encode()))]

        def m_size(I, st, a, n, f):
            k = ("ob", "node:%s" % show(a[0]))
            st.ev = (st.ev, Ev("sizeof", show(a[0]), (), locs(n), f.name if f else "?"))
            return [(st, k)]
        return {"cc_malloc": m_malloc, "calloc": m_malloc, "malloc": m_malloc, "memcpy": m_copy, "hash32": m_hash, "expression_to_size_t": m_size}

    def call(self, fn, args):
        rs = [r for r in self.I.call_body(self.st, self.P.need(fn), list(args)) if r[1] is None]
        dead = self.I.take_dead()
        self.ctx.functions |= self.I.analysed
        self.ctx.paths += len(rs)
        if len(rs) != 1 or dead:
            raise AnalysisError("%s has %d results, %d errors" % (fn, len(rs), len(dead)))
        self.st = rs[0][0]
        return rs[0][2]

    def create(self, fields, kids):
        P, st = self.P, self.st
        self.k = getattr(self, "k", 0) + 1
        loc = ("v", "params", self.k)
        arr = ("v", "kids", self.k)
        for a, b in dict({"is_const": 0, "next": 0, "n": len(kids)}, **fields).items():
            l = loc
            for p in a.split("."):
                l = ("f", l, p)
            self.I.write(st, l, b)
        for i, k in enumerate(kids):
            self.I.write(st, ("i", arr, i), k)
        return self.call("type_create", [("addr", loc), ("addr", ("i", arr, 0)) if kids else 0])

    # ------------------------------------------------------------ descriptions -> objects
    def make(self, d, how=0):
        P = self.P
        k, const = d[0], d[-1]
        if k == "simple":
            v = P.enum(d[1])
            if how % 2 == 0 and not const:
                return self.call("type_simple", [v])
            if how % 2:
                return self.create({"type": P.enum("TY_SIMPLE"), "simple": v, "is_const": const}, [])
        elif k == "ptr":
            c = self.make(d[1], how)
            if how % 2 == 0 and not const:
                return self.call("type_pointer", [c])
            if how % 2:
                return self.create({"type": P.enum("TY_POINTER"), "is_const": const}, [c])
        elif k == "arr":
            c = self.make(d[1], how)
            if how % 2 == 0 and not const and d[2] < 1 << 31:
                return self.call("type_array", [c, d[2]])
            if how % 2 or d[2] >= 1 << 31:
                return self.create({"type": P.enum("TY_ARRAY"), "array.length": d[2], "is_const": const}, [c])
        elif k == "struct":
            o = ("ob", "sd:" + d[1])
            if how % 2 == 0 and not const:
                return self.call("type_struct", [o])
            if how % 2:
                return self.create({"type": P.enum("TY_STRUCT"), "struct_data": o, "is_const": const}, [])
        elif k == "inc":
            c = self.make(d[1], how)
            if how % 2 or not const:
                return self.create({"type": P.enum("TY_INCOMPLETE_ARRAY"), "is_const": const}, [c])
        elif k == "vla":
            c = self.make(d[1], how)
            if how % 2 or not const:
                return self.create({"type": P.enum("TY_VARIABLE_LENGTH_ARRAY"), "variable_length_array.length_expr": ("ob", "ex:" + d[2]),
                                    "variable_length_array.is_evaluated": 0, "variable_length_array.length_var": 0, "is_const": const}, [c])
        elif k == "fn":
            cs = [self.make(c, how) for c in d[1]]
            if how % 2 or not const:
                return self.create({"type": P.enum("TY_FUNCTION"), "function.is_variadic": d[2], "is_const": const}, cs)
        # qualified through the qualifying constructor
        u = self.make(d[:-1] + (0,), how)
        return self.call("type_make_const", [u, 1])


def catalogue(P, small):
    S = lambda s, c=0: ("simple", s, c)
    R = lambda t, c=0: ("ptr", t, c)
    A = lambda t, n, c=0: ("arr", t, n, c)
    F = lambda ts, v=0: ("fn", tuple(ts), v, 0)
    V = lambda t, e: ("vla", t, e, 0)
    N = lambda t, c=0: ("inc", t, c)
    i, c, v = S("ST_INT"), S("ST_CHAR"), S("ST_VOID")
    L = [S(s) for s in ST_ALL] + [i[:-1] + (1,), c[:-1] + (1,)]
    s1, s2 = ("struct", "one", 0), ("struct", "two", 0)
    L += [s1, s2, s1[:-1] + (1,)]
    L += [R(i), R(c), R(i, 1), R(S("ST_INT", 1)), R(R(i)), R(R(R(i))), R(R(i, 1)), R(R(S("ST_INT", 1))), R(s1), R(s2), R(v)]
    L += [A(i, 0), A(i, 1), A(i, 2), A(i, 3), A(c, 2), A(i, 2, 1), A(A(i, 2), 3), A(A(i, 3), 2), A(i, (1 << 32) + 2), A(R(i), 2), R(A(i, 2)), R(A(i, 3)),
          A(S("ST_INT", 1), 2), A(A(i, 1 << 40), 2)]
    L += [N(i), N(c), R(N(i)), N(A(i, 2)), N(i, 1)]
    L += [V(i, "e1"), V(i, "e2"), V(c, "e1"), R(V(i, "e1")), V(V(i, "e1"), "e2"), V(V(i, "e2"), "e1"), A(V(i, "e1"), 2)]
    L += [F([i]), F([v]), F([i], 1), F([i, i]), F([i, c]), F([c, i]), F([c]), F([i, i], 1), F([i, i, i]), F([i, R(i)]), F([i, R(c)]), R(F([i])), R(F([c])),
          R(F([i, i])), R(F([i, i], 1)), F([R(F([i]))]), F([R(F([i, i]))]), F([i, c, i]), F([i, i, c]), F([s1]), F([s2]), F([v, s1]), F([v, s2])]
    if not small:
        L += [R(R(F([i, R(N(i))]))), R(R(F([i, R(A(i, 4))]))), F([R(s1), R(s2)]), F([R(s2), R(s1)]), A(A(A(i, 2), 2), 2), A(A(A(c, 2), 2), 2), R(S("ST_DOUBLE", 1), 1)]
    return L


def key_of(d):
    return d


def run(ctx):
    P = ctx.P
    ctx.rule("identity", "two type constructions yield the same object exactly when they denote the same type")
    ctx.rule("content", "the object a construction yields holds the kind, qualification, components and attributes asked for")
    ctx.rule("room", "a type object is allocated with room for its components")
    ctx.rule("frozen", "no code outside the interning constructor changes what identifies a type")
    ctx.rule("derive", "qualifying, unqualifying, adjusting and evaluating give the interned type, and hash and comparison ignore what may change later")

    def one(collide, order):
        T = Types(ctx, collide)
        try:
            seq(ctx, T, collide, order)
        except AnalysisError as e:
            if "results" in str(e):
                ctx.ob("identity", "collide=%s order=%s" % (collide, order), False, "type_create", str(e))
            else:
                raise
    ctx.parallel([lambda c=c, o=o: one(c, o) for c in (0, 1) for o in ((0, 1, 2) if ctx.tier == "quick" else range(6))])
    frozen(ctx)


def seq(ctx, T, collide, order):
    P = ctx.P
    L = catalogue(P, ctx.tier == "quick" and collide)
    rnd = random.Random(order)
    rounds = []
    for r in range(2):
        x = list(L)
        if order:
            rnd.shuffle(x)
        rounds.append(x)
    seen, rev = {}, {}
    tag = "%s, order %d" % ("colliding" if collide else "hashed", order)
    for r, x in enumerate(rounds):
        for d in x:
            o = T.make(d, r + order)
            if d in seen:
                ctx.ob("identity", "%s again (%s)" % (d, tag), seen[d] == o, "type_create", "a second object for the same type")
            else:
                seen[d] = o
                ctx.ob("identity", "%s (%s)" % (d, tag), o not in rev, "type_create", "shares its object with %s" % (rev.get(o),))
                rev.setdefault(o, d)
                content(ctx, T, d, o, seen, tag)
        if r == 0:
            for d in L:
                if d[0] == "vla":
                    T.call("type_evaluate_vla", [seen[d]])
    # operations on types
    g = lambda d: seen.get(d) or T.make(d)
    i = ("simple", "ST_INT", 0)
    for d in L:
        o = seen[d]
        for c in (0, 1):
            want = d[:-1] + (c,)
            r = T.call("type_make_const", [o, c])
            ctx.ob("derive", "const=%d of %s (%s)" % (c, d, tag), r == g(want), "type_make_const", "is not the interned type")
        r = T.call("type_remove_qualifications", [o])
        ctx.ob("derive", "unqualified %s (%s)" % (d, tag), r == g(d[:-1] + (0,)), "type_remove_qualifications", "is not the interned type")
        if d[0] == "ptr":
            ctx.ob("derive", "pointee of %s (%s)" % (d, tag), T.call("type_deref", [o]) == g(d[1]), "type_deref", "is not the pointee")
        r = T.call("type_adjust_parameter", [o])
        want = ("ptr", d[1], d[-1]) if d[0] in ("arr", "inc", "vla") else ("ptr", d, 0) if d[0] == "fn" else d
        ctx.ob("derive", "parameter %s (%s)" % (d, tag), r == g(want), "type_adjust_parameter", "is not adjusted to %s" % (want,))
    # every allocated node has room for its components
    base = 8
    for o, sz, w in T.alloc:
        n = T.I.rd(T.st, ("f", ("d", o), "n"))
        sz = size_val(sz)
        ok = isinstance(sz, int) and isinstance(n, int) and sz >= sizeof_type(P) + 8 * n
        ctx.ob("room", "%s components (%s)" % (n, tag), ok or not isinstance(n, int), w, "%s bytes for a type with %s components" % (show(sz), show(n)))


def size_val(t):
    if isinstance(t, tuple) and t[0] == "sizeof":
        return 48 if t[1] == "struct type" else None
    if isinstance(t, tuple) and t[0] == "b" and t[1] in "+*-":
        a, b = size_val(t[2]), size_val(t[3])
        return None if a is None or b is None else a + b if t[1] == "+" else a * b if t[1] == "*" else a - b
    if isinstance(t, tuple) and t[0] == "cast":
        return size_val(t[-1])
    return t if isinstance(t, int) else None


def sizeof_type(P):
    # the fixed part: kind, union (3 words), qualification, link, component count
    return 48


def content(ctx, T, d, o, seen, tag):
    P, I, st = ctx.P, T.I, T.st
    kind = {"simple": "TY_SIMPLE", "ptr": "TY_POINTER", "arr": "TY_ARRAY", "struct": "TY_STRUCT", "inc": "TY_INCOMPLETE_ARRAY",
            "vla": "TY_VARIABLE_LENGTH_ARRAY", "fn": "TY_FUNCTION"}[d[0]]
    rd = lambda *p: I.rd(st, _loc(o, p))
    kids = {"simple": [], "struct": [], "ptr": [d[1]], "arr": [d[1]], "inc": [d[1]], "vla": [d[1]], "fn": list(d[1]) if d[0] == "fn" else []}[d[0]]
    ok = rd("type") == P.enum(kind) and bool(rd("is_const")) == bool(d[-1]) and rd("n") == len(kids)
    if d[0] == "simple":
        ok = ok and rd("simple") == P.enum(d[1])
    elif d[0] == "struct":
        ok = ok and rd("struct_data") == ("ob", "sd:" + d[1])
    elif d[0] == "arr":
        ok = ok and rd("array", "length") == d[2]
    elif d[0] == "vla":
        ok = ok and rd("variable_length_array", "length_expr") == ("ob", "ex:" + d[2])
    elif d[0] == "fn":
        ok = ok and rd("function", "is_variadic") == d[2]
    for i, k in enumerate(kids):
        ch = I.rd(st, ("i", ("f", ("d", o), "children"), i))
        if k not in seen:
            seen[k] = ch
        ok = ok and ch == seen[k]
    ctx.ob("content", "%s (%s)" % (d, tag), ok, "type_create", "the object holds other values")


def _loc(o, p):
    l = ("d", o)
    for x in p:
        l = ("f", l, x)
    return l


def frozen(ctx):
    """who may write: members that identify a type are assigned only by the interning constructor"""
    P = ctx.P
    home = P.need("type_create")
    allowed = {"type_create"} | {f.name for f in P.funcs.values() if f.file == home.file and f.static}
    sites = 0
    for f in P.funcs.values():
        if f.file == home.file and (f.name in allowed or f.name not in ctx.base):
            continue
        for q in f.node.walk():
            if q.k in ("BinaryOperator", "CompoundAssignOperator") and q.ch and (q.k == "CompoundAssignOperator" or q.v == "="):
                l = q.ch[0]
            elif q.k == "UnaryOperator" and q.v in ("++", "--"):
                l = q.ch[0]
            else:
                continue
            fields = []
            while l.k in ("MemberExpr", "ParenExpr", "ArraySubscriptExpr", "ImplicitCastExpr"):
                if l.k == "MemberExpr":
                    fields.append((l.v or "").lstrip("->."))
                    b = l.ch[0]
                    bt = b.t or ("", "")
                    if l.x and l.x.get("arrow") and "struct type *" in [x.replace("const ", "").strip() for x in bt]:
                        sites += 1
                        mut = {"is_evaluated", "length_var", "next"}
                        bad = not (set(fields) & mut)
                        ctx.ob("frozen", "%s.%s" % (f.name, ".".join(reversed(fields))), not bad, locs(q), "changes a shared type object")
                        break
                l = l.ch[0]
    ctx.ob("frozen", "scan", True, "all units", "")
    ctx.functions |= set(P.funcs)
    ctx.notes.append("%d writes through type pointers outside the constructor" % sites)
