"""Structure and union layout, member lookup, packing."""
import random
from lib import *
from lib_decl import *

EXPLANATION = ("Abstract interpretation of the declaration parser together with the layout code on structure/union declarations "
               "(token streams; opaque constant expressions): the resulting member list, offsets, bit offsets, size and "
               "alignment are compared with the platform ABI's layout rules; the member search and offset queries are evaluated "
               "on the resulting abstract types; the #pragma pack handler is evaluated on directive sequences.")
FLOORS = {"layout": 300, "member": 60, "pack": 12, "query": 40, "bitfield": 100, "access": 60}
ASSUMPTIONS = ["bit-fields follow the System V rule under both ABIs (the repository's own tests demand it for the Windows target)",
               "declared shapes are enumerated (all basic types, all packings) and seeded random up to nesting depth 2"]

C = {"ST_CHAR": "char", "ST_SCHAR": "signed char", "ST_UCHAR": "unsigned char", "ST_SHORT": "short", "ST_USHORT": "unsigned short",
     "ST_INT": "int", "ST_UINT": "unsigned", "ST_LONG": "long", "ST_ULONG": "unsigned long", "ST_LLONG": "long long",
     "ST_ULLONG": "unsigned long long", "ST_FLOAT": "float", "ST_DOUBLE": "double", "ST_BOOL": "_Bool"}


# field: (name, type, bits or None, alignas);  type: "ST_x" | ("ptr",t) | ("arr",n,t) | ("flex",t) | ("agg", union, packed, fields)
def ctoks(t, name):
    """declarator text of NAME with type T"""
    d = name
    while not isinstance(t, str) and t[0] != "agg":
        if t[0] == "ptr":
            d = "* " + d
            if not isinstance(t[1], str) and t[1][0] in ("arr", "flex"):
                d = "( %s )" % d
            t = t[1]
        elif t[0] == "arr":
            d = "%s [ %d ]" % (d, t[1])
            t = t[2]
        else:
            d = "%s [ ]" % d
            t = t[1]
    return t, d


def text_of(t):
    if isinstance(t, str):
        return C[t]
    _, un, packed, fields = t
    r = "union" if un else "struct"
    if packed == "before":
        r += " __attribute__ ( ( packed ) )"
    r += " {"
    for nm, ft, bits, al in fields:
        base, d = ctoks(ft, nm)
        r += " " + ("_Alignas ( %d ) " % al if al else "") + text_of(base) + " " + d
        if bits is not None:
            r += " : %d" % bits
        r += " ;"
    r += " }"
    if packed == "after":
        r += " __attribute__ ( ( packed ) )"
    return r


def rup(a, b):
    return (a + b - 1) // b * b


class Layout:
    """the ABI's rules"""
    def __init__(self, abi, pack):
        self.sz, self.pack = sizes(abi), pack

    def sa(self, t):
        if isinstance(t, str):
            return self.sz[t], self.sz[t]
        if t[0] == "ptr":
            return 8, 8
        if t[0] == "arr":
            s, a = self.sa(t[2])
            return t[1] * s, a
        if t[0] == "flex":
            return 0, self.sa(t[1])[1]
        l = self.agg(t)
        return l[1], l[2]

    def agg(self, t):
        """-> ([(name, offset, bitoffset or None, bits, type)] of named/anonymous members, size, alignment)"""
        _, un, packed, fields = t
        pk = 1 if packed else self.pack
        end, mx, al, out = 0, 0, 1, []
        for nm, ft, bits, fa in fields:
            s, a = self.sa(ft)
            if pk:
                a = min(a, pk)
            a = max(a, fa or 1)
            pos = 0 if un else end
            if bits is None:
                pos = rup(pos, 8 * a)
                end = pos + 8 * s
                out.append((nm, pos // 8, 0, -1, ft))
                al = max(al, a)
            elif bits == 0:
                pos = rup(pos, 8 * a)
                end = pos
            else:
                if pos // (8 * s) != (pos + bits - 1) // (8 * s):
                    pos = rup(pos, 8 * s)
                end = pos + bits
                if nm:
                    out.append((nm, pos // (8 * s) * s, pos % (8 * s), bits, ft))
                    al = max(al, a)
                    mx = max(mx, (pos // (8 * s) + 1) * 8 * s)
            mx = max(mx, end)
        return out, rup(rup(mx, 8) // 8, al), al


class Src:
    def __init__(self, ctx, abi, t, pack):
        self.ctx, self.abi, self.t = ctx, abi, t
        self.D = D = Decl(ctx, abi)
        z = lambda v: (lambda I, st, a, n, f: [(st, v)])
        src = text_of(t) + " x ;"
        self.src = ("#pragma pack(%d) " % pack if pack else "") + src
        from_types = [n for n, f in ctx.P.funcs.items() if f.file == "src/types.c"]
        arch = ["calculate_offsets", "calculate_offset", "calculate_size", "calculate_alignment", "calculate_alignment_with_max", "alignof_simple", "alignof_struct",
                "round_up_to_nearest"]
        ps, bad = D.run(src, "parse_declaration", args={0: 1},
                        inline=arch + ["type_search_member", "type_get_offsets", "type_select"],
                        extra={"get_current_packing": z(pack), "type_contains_unevaluated_vla": z(0)})
        self.bad = bad
        self.p = ps[0] if len(ps) == 1 and not bad else None
        self.n = len(ps)
        if self.p:
            T = [e for e in self.p.events if e.k == "symbol" and e.name == "ident"]
            ctx.require(len(T) == 1, "declaration of x does not add one identifier (%s)" % src)
            o = T[0].args[1]
            self.ty = D.I.rd(self.p.st, ("f", ("f", ("d", o), "label"), "type"))

    def sd(self, ty):
        return ("d", ("ob", "sd:" + ty[2]))

    def shape(self, ty, depth=0):
        """abstract type -> description comparable with the specification's types"""
        P = self.ctx.P
        if ty[1] == "simple":
            return {P.enum(s): s for s in ST_ALL}[ty[2]]
        if ty[1] == "ptr":
            return ("ptr", self.shape(ty[2], depth))
        if ty[1] == "array":
            return ("arr", ty[3], self.shape(ty[2], depth))
        if ty[1] == "incarray":
            return ("flex", self.shape(ty[2], depth))
        if ty[1] == "struct":
            return ("agg",) + self.agg(ty)
        return ("?", show(ty))

    def agg(self, ty):
        g = lambda *f: self.D.I.rd(self.p.st, self.D.loc(self.sd(ty), *f))
        n, fs = g("n"), g("fields")
        r = []
        if not isinstance(n, int):
            return (("?n", show(n)),)
        for i in range(n):
            e = lambda f: self.D.I.rd(self.p.st, ("f", self.D.elem_loc(self.D.I, self.p.st, fs, i), f))
            r.append((text(e("name")) or "", e("offset"), e("bit_offset") if e("bitfield") != -1 else 0, e("bitfield"), self.shape(e("type"))))
        return (tuple(r), g("size"), g("alignment"), g("is_complete"))

    def call(self, fn, *a):
        r = self.D.I.call_body(self.p.st.fork(), self.ctx.P.need(fn), list(a))
        self.D.I.take_dead()
        return r


def spec_shape(L, t):
    if isinstance(t, str):
        return t
    if t[0] == "ptr":
        return ("ptr", spec_shape(L, t[1]))
    if t[0] == "arr":
        return ("arr", t[1], spec_shape(L, t[2]))
    if t[0] == "flex":
        return ("flex", spec_shape(L, t[1]))
    m, s, a = L.agg(t)
    return ("agg", tuple((nm, o, b, w, spec_shape(L, ft)) for nm, o, b, w, ft in m), s, a, 1)


def diff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "agg" == b[0] and len(a) == len(b):
        for nm, i in (("size", 2), ("alignment", 3), ("completeness", 4)):
            if a[i] != b[i] and [x[0] for x in a[1]] == [x[0] for x in b[1]] and a[1] == b[1]:
                return "%s%s is %s, must be %s" % (path, nm, show(a[i]), b[i])
        if len(a[1]) != len(b[1]) or [x[0] for x in a[1]] != [x[0] for x in b[1]]:
            return "%smembers are %s, must be %s" % (path, [x[0] for x in a[1]], [x[0] for x in b[1]])
        for x, y in zip(a[1], b[1]):
            for nm, i in (("offset", 1), ("bit offset", 2), ("width", 3)):
                if x[i] != y[i]:
                    return "%s%s of member %s is %s, must be %s" % (path, nm, x[0] or "<anonymous>", show(x[i]), y[i])
            d = diff(x[4], y[4], path + (x[0] or "<anonymous>") + ".")
            if d:
                return d
    return "%s is %s, must be %s" % (path or "type", a, b)


def shapes(tier, seed):
    """[(instance, type, packing)]"""
    r = []
    S = lambda *f: ("agg", 0, None, tuple(f))
    U = lambda *f: ("agg", 1, None, tuple(f))
    m = lambda n, t, b=None, a=0: (n, t, b, a)
    for s in C:
        r.append(("char-then-%s" % s, S(m("a", "ST_CHAR"), m("b", s), m("c", "ST_CHAR")), 0))
        r.append(("union-%s" % s, U(m("a", "ST_CHAR"), m("b", s)), 0))
        for pk in (1, 2, 4, 8, 16):
            r.append(("pack%d-%s" % (pk, s), S(m("a", "ST_CHAR"), m("b", s), m("c", "ST_SHORT")), pk))
        r.append(("array-%s" % s, S(m("a", "ST_CHAR"), m("b", ("arr", 3, s)), m("c", "ST_CHAR")), 0))
        r.append(("flexible-%s" % s, S(m("a", "ST_CHAR"), m("b", ("flex", s))), 0))
        if s in INTS:
            for w in sorted({1, 3, 7, 8, sizes("sysv")[s] * 8 - 1} if s != "ST_BOOL" else {1}):
                if w <= min(sizes("sysv")[s], sizes("ms")[s]) * 8:
                    r.append(("bits-%s-%d" % (s, w), S(m("a", "ST_CHAR", 3), m("b", s, w), m("c", s, 1), m("d", "ST_CHAR")), 0))
                    r.append(("bits-after-%s-%d" % (s, w), S(m("a", "ST_CHAR"), m("b", s, w), m("c", "ST_SHORT")), 0))
            r.append(("zero-width-%s" % s, S(m("a", "ST_CHAR", 3), m("", s, 0), m("b", "ST_CHAR", 2), m("c", "ST_CHAR")), 0))
            if s != "ST_BOOL":
                r.append(("unnamed-%s" % s, S(m("a", "ST_CHAR", 3), m("", s, 2), m("b", "ST_CHAR", 2)), 0))
                r.append(("union-bits-%s" % s, U(m("a", s, 3), m("b", "ST_CHAR", 7), m("c", "ST_SHORT")), 0))
        for al in (1, 2, 8, 16, 32):
            if al >= max(sizes("sysv")[s], sizes("ms")[s]):
                r.append(("alignas%d-%s" % (al, s), S(m("a", "ST_CHAR"), m("b", s, None, al), m("c", "ST_CHAR")), 0))
    inner = S(m("p", "ST_CHAR"), m("q", "ST_INT"))
    anon = S(m("a", "ST_CHAR"), m("", U(m("p", "ST_SHORT"), m("", S(m("q", "ST_CHAR"), m("r", "ST_DOUBLE"))))), m("z", "ST_CHAR"))
    r += [("nested", S(m("a", "ST_CHAR"), m("b", inner), m("c", "ST_SHORT")), 0),
          ("nested-array", S(m("a", "ST_SHORT"), m("b", ("arr", 3, inner)), m("c", "ST_CHAR")), 0),
          ("pointer-to-array", S(m("a", "ST_CHAR"), m("b", ("ptr", ("arr", 3, "ST_INT"))), m("c", ("arr", 2, ("ptr", "ST_INT")))), 0),
          ("anonymous", anon, 0), ("anonymous-packed", anon, 2),
          ("anonymous-inner-first", S(m("", inner), m("z", "ST_DOUBLE")), 0),
          ("packed-before", ("agg", 0, "before", (m("a", "ST_CHAR"), m("b", "ST_DOUBLE"), m("c", "ST_INT"))), 0),
          ("packed-after", ("agg", 0, "after", (m("a", "ST_CHAR"), m("b", "ST_DOUBLE"), m("c", "ST_INT"))), 0),
          ("packed-over-pragma", ("agg", 0, "after", (m("a", "ST_CHAR"), m("b", "ST_DOUBLE"), m("c", "ST_INT"))), 4),
          ("nested-packed", S(m("a", "ST_CHAR"), m("b", ("agg", 0, "after", (m("x", "ST_CHAR"), m("y", "ST_INT")))), m("c", "ST_INT")), 0),
          ("packed-alignas", ("agg", 0, "after", (m("a", "ST_CHAR"), m("b", "ST_INT", None, 4), m("c", "ST_CHAR"))), 0),
          ("bits-straddle", S(m("a", "ST_INT", 30), m("b", "ST_INT", 3), m("c", "ST_INT", 29)), 0),
          ("bits-fill", S(m("a", "ST_INT", 16), m("b", "ST_INT", 16), m("c", "ST_INT", 1)), 0),
          ("bits-mixed-units", S(m("a", "ST_CHAR", 7), m("b", "ST_INT", 10), m("c", "ST_CHAR", 6), m("d", "ST_LLONG", 40)), 0),
          ("two-arrays", S(m("a", ("arr", 2, ("arr", 3, "ST_SHORT"))), m("b", "ST_LLONG")), 0)]
    R = random.Random(seed)

    def rnd(depth, lab):
        fs = []
        un = R.random() < .25
        for i in range(R.randint(1, 6)):
            nm = "%s%d" % (lab, i)
            k = R.random()
            if k < .45:
                fs.append(m(nm, R.choice(list(C)), None, R.choice([0, 0, 0, 0, 8, 16])))
            elif k < .7:
                s = R.choice([x for x in INTS if x != "ST_BOOL"])
                w = R.randint(1, min(sizes("sysv")[s], sizes("ms")[s]) * 8)
                fs.append(m("" if R.random() < .15 else nm, s, w) if R.random() < .9 else m("", s, 0))
            elif k < .8:
                fs.append(m(nm, ("arr", R.randint(1, 5), R.choice(list(C)))))
            elif k < .85:
                fs.append(m(nm, ("ptr", R.choice(list(C)))))
            elif depth:
                t = rnd(depth - 1, nm + "_")
                fs.append(m("" if R.random() < .4 else nm, t))
            else:
                fs.append(m(nm, "ST_INT"))
        if all(not f[0] and f[2] is not None for f in fs):
            fs.append(m(lab + "z", "ST_CHAR"))
        return ("agg", int(un), None, tuple(fs))

    def bits_in(t):
        return not isinstance(t, str) and (t[0] == "agg" and any(f[2] is not None or bits_in(f[1]) for f in t[3]))
    for i in range(60 if tier == "quick" else 900):
        t = rnd(2, "m")
        pk = R.choice([0, 0, 0, 1, 2, 4, 8])
        if bits_in(t):
            pk = 0
        r.append(("random%d" % i, t, pk))
    return r


def members(t, L, base=0, pre=()):
    """every name reachable from T by member access -> (indices, offset, bits, type)"""
    out = {}
    ms = L.agg(t)[0]
    for i, (nm, o, b, w, ft) in enumerate(ms):
        if nm:
            out.setdefault(nm, (pre + (i,), base + o, b, w, ft))
        elif not isinstance(ft, str) and ft[0] == "agg":
            for k, v in members(ft, L, base + o, pre + (i,)).items():
                out.setdefault(k, v)
    return out


def run(ctx):
    P = ctx.P
    ctx.rule("layout", "the declared members appear in order with the ABI's offset, bit offset and width; the type has the ABI's "
                       "size and alignment under natural, #pragma pack(n), packed and _Alignas alignment")
    ctx.rule("member", "searching a member name yields the path through anonymous members that leads to it; absent names are not found")
    ctx.rule("query", "selecting the i-th member/element gives its declared type, offset, bit offset and width")
    ctx.rule("pack", "#pragma pack(n), (), (push), (push,n), (pop) maintain the current packing as a stack")
    for abi in ("sysv", "ms"):
        abi_env(ctx, abi)
    tasks = []
    ss = shapes(ctx.tier, ctx.seed)
    for abi in ("sysv", "ms"):
        for c in range(4):
            tasks.append(lambda abi=abi, c=c: layouts(ctx, abi, ss[c::4]))
    import rules.c07 as c07
    ctx.rule("bitfield", "reading, assigning and updating a bit-field touch exactly its bits and yield its value, extended by its declared signedness")
    ctx.rule("access", "a member designates the object at the structure's address plus its offset")
    for abi in ("sysv", "ms"):
        abi_env(ctx, abi)
        tasks += [lambda abi=abi: c07.bitfields(ctx, abi, 0), lambda abi=abi: c07.bitfields(ctx, abi, 1),
                  lambda abi=abi: c07.member_bitfields(ctx, abi), lambda abi=abi: c07.access(ctx, abi)]
    tasks.append(lambda: packs(ctx))
    tasks.append(lambda: packed_bits(ctx))
    ctx.parallel(tasks)


def layouts(ctx, abi, ss):
    for inst, t, pk in ss:
        L = Layout(abi, pk)
        s = Src(ctx, abi, t, pk)
        key = "layout:%s.%s" % (abi, inst)
        if s.p is None:
            ctx.ob("layout", "%s.%s" % (abi, inst), False, "parse_struct", "%s: accepted on %d path(s), rejected on %d (%s)" %
                   (s.src, s.n, len(s.bad), [b.events[-1].name for b in s.bad if b.events][:1]))
            continue
        d = diff(s.shape(s.ty), spec_shape(L, t))
        ctx.ob("layout", "%s.%s" % (abi, inst), d is None, "calculate_offsets", "%s x; %s" % (s.src, d))
        if d is None and not inst.startswith(("pack", "alignas", "union-ST", "flexible", "char-then")):
            search(ctx, abi, inst, s, t, L)


def search(ctx, abi, inst, s, t, L):
    I, D, P = s.D.I, s.D, ctx.P
    want = members(t, L)
    nml = lambda x: ("struct", "string_view", (("len", len(x)), ("str", ("str", x))))
    hidden = [k for f in L.agg(t)[0] if f[0] and not isinstance(f[4], str) and f[4][0] == "agg" for k in members(f[4], L) if k not in want]
    for nm in list(want) + ["absent"] + hidden:
        st = s.p.st.fork()
        st.mem[("g", "#n")], st.mem[("g", "#idx")] = 0, 0
        r = I.call_body(st, P.need("type_search_member"), [s.ty, nml(nm), ("addr", ("g", "#n")), ("addr", ("g", "#idx"))])
        I.take_dead()
        ok, msg = False, "search forks into %d paths" % len(r)
        if len(r) == 1:
            st2, _, rv = r[0]
            if nm not in want:
                ok, msg = rv == 0, "found a member named %s" % nm
            elif rv in (0, None):
                msg = "%s not found" % nm
            else:
                n = st2.mem.get(("g", "#n"))
                p = I.rd(st2, ("g", "#idx"))
                path = tuple(I.rd(st2, D.elem_loc(I, st2, p, n - 1 - i)) for i in range(n)) if isinstance(n, int) else None
                ok = path == want[nm][0]
                msg = "%s is found at path %s, must be %s" % (nm, path, want[nm][0])
        ctx.ob("member", "%s.%s.%s" % (abi, inst, nm), ok, "type_search_member", s.src + ": " + msg)
    ms = L.agg(t)[0]
    for i, (nm, o, b, w, ft) in enumerate(ms):
        st = s.p.st.fork()
        outs = [("g", "#o"), ("g", "#b"), ("g", "#w")]
        r = I.call_body(st, P.need("type_get_offsets"), [s.ty, i] + [("addr", x) for x in outs])
        got = tuple(r[0][0].mem.get(x) for x in outs) if len(r) == 1 else None
        if got and w == -1:
            got = (got[0], 0, got[2])
        ctx.ob("query", "%s.%s.offsets%d" % (abi, inst, i), got == (o, b, w), "type_get_offsets",
               "%s: member %d has offset/bit offset/width %s, must be %s" % (s.src, i, got, (o, b, w)))
        r = I.call_body(s.p.st.fork(), P.need("type_select"), [s.ty, i])
        ok = len(r) == 1 and isty(r[0][2]) and s.shape(r[0][2]) == spec_shape(L, ft)
        ctx.ob("query", "%s.%s.select%d" % (abi, inst, i), ok, "type_select", "%s: member %d has another type" % (s.src, i))
        r = I.call_body(s.p.st.fork(), P.need("calculate_offset"), [s.ty, i])
        ctx.ob("query", "%s.%s.offset%d" % (abi, inst, i), len(r) == 1 and r[0][2] == o, "calculate_offset",
               "%s: member %d is at %s, must be at %d" % (s.src, i, [show(x[2]) for x in r], o))
        if not isinstance(ft, str) and ft[0] == "arr":
            es = L.sa(ft[2])[0]
            at = I.call_body(s.p.st.fork(), P.need("type_select"), [s.ty, i])[0][2]
            for k in (0, 2):
                st = s.p.st.fork()
                r = I.call_body(st, P.need("type_get_offsets"), [at, k] + [("addr", x) for x in outs])
                got = tuple(r[0][0].mem.get(x) for x in outs) if len(r) == 1 else None
                ctx.ob("query", "%s.%s.element-offsets%d.%d" % (abi, inst, i, k), got == (k * es, 0, -1), "type_get_offsets",
                       "%s: element %d of member %d has offset/bit offset/width %s" % (s.src, k, i, got))
                r = I.call_body(s.p.st.fork(), P.need("calculate_offset"), [at, k])
                ctx.ob("query", "%s.%s.element%d.%d" % (abi, inst, i, k), len(r) == 1 and r[0][2] == k * es, "calculate_offset",
                       "%s: element %d of member %d is at %s" % (s.src, k, i, [show(x[2]) for x in r]))
    I.take_dead()


def packed_bits(ctx):
    t = ("agg", 0, "after", (("a", "ST_CHAR", None, 0), ("b", "ST_INT", 3, 0)))
    s = Src(ctx, "sysv", t, 0)
    sz = s.D.I.rd(s.p.st, ("f", s.sd(s.ty), "size")) if s.p else None
    ctx.ob("layout", "sysv.packed-bits.size", sz == 2, "calculate_offsets", "%s x; has size %s, the platform's is 2" % (s.src, show(sz)))


def packs(ctx):
    P = ctx.P
    DIR = ("PP_DIRECTIVE", "#")
    seqs = {
        "n": ["pack ( 4 )"], "reset": ["pack ( 4 )", "pack ( )"], "push-pop": ["pack ( 2 )", "pack ( push )", "pack ( 8 )", "pack ( pop )"],
        "push-keeps": ["pack ( 2 )", "pack ( push )"], "push-n": ["pack ( push , 1 )"],
        "push-n-pop": ["pack ( push , 1 )", "pack ( pop )"], "push-n-pop-n": ["pack ( 8 )", "pack ( push , 1 )", "pack ( pop )"],
        "nested": ["pack ( push , 1 )", "pack ( push , 2 )", "pack ( pop )"],
        "nested-2": ["pack ( push , 1 )", "pack ( push , 2 )", "pack ( push , 4 )", "pack ( pop )", "pack ( pop )"],
        "nested-all": ["pack ( 16 )", "pack ( push , 1 )", "pack ( push , 2 )", "pack ( pop )", "pack ( pop )"],
        "again": ["pack ( push , 1 )", "pack ( pop )", "pack ( push , 8 )", "pack ( 2 )", "pack ( pop )"],
        "pop-empty": ["pack ( 4 )", "pack ( pop )"], "16": ["pack ( 16 )"], "none": [],
        "push-reset-pop": ["pack ( 4 )", "pack ( push )", "pack ( )", "pack ( pop )"],
    }
    want = {"n": 4, "reset": 0, "push-pop": 2, "push-keeps": 2, "push-n": 1, "push-n-pop": 0, "push-n-pop-n": 8, "nested": 1, "nested-2": 1,
            "nested-all": 16, "again": 0, "pop-empty": 4, "16": 16, "none": 0, "push-reset-pop": 4}

    def m_num(I, st, a, n, f):
        v = int(text(a[0]))
        return [(st, ("struct", "constant", (("type", P.enum("CONSTANT_TYPE")), ("data_type", simple(P, "ST_INT")), ("int_d", v), ("uint_d", v))))]
    for inst, ds in seqs.items():
        toks = []
        for d in ds:
            toks += [DIR, ("T_IDENT", "pragma")] + [("T_NUM" if w.isdigit() else DTOK.get(w, "T_IDENT"), w) for w in d.split()]
        T = Tokens(P, toks)
        m = T.models()
        m["constant_from_string"] = m_num
        I = ctx.interp(inline=["parse_handle_pragma", "get_current_packing"] + TYPE_PREDS, models=m,
                       load_hook=hooks(type_hook, obj_hook(T.tab), init_globals))
        I.unroll = 50
        fn = P.need("parse_handle_pragma")
        r = ctx.run(I, "get_current_packing")
        states = [r[0].st]
        for d in ds:
            states = [x[0] for s in states for x in I.call_body(s, fn, [])]
        got = [x[2] for s in states for x in I.call_body(s, P.need("get_current_packing"), [])]
        bad = I.take_dead()
        end = all(T.pos(s) == len(toks) for s in states)
        ctx.ob("pack", inst, got == [want[inst]] and end, "parse_handle_pragma",
               "after %s the packing is %s, must be %d%s" % ("; ".join(ds), [show(x) for x in got], want[inst], "" if end else " (tokens left over)"))
    # a new file starts with natural packing
    ctx.functions.add("parse_handle_pragma")
