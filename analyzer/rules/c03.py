"""Declaration specifiers and declarators."""
import itertools, random
from lib import *
from lib_decl import *

EXPLANATION = ("Abstract interpretation of the declaration parser on token streams: every multiset of type specifiers of up to five "
               "keywords is evaluated in its orders and the type given to the declared name (or the rejection) is compared with "
               "C11 6.7.2; qualifiers, storage classes and alignment are observed on the symbols created; declarators are "
               "generated from types and must denote the type they were generated from.")
ASSUMPTIONS = ["_Complex and _Atomic types are outside the supported language", "long double is treated as double by this compiler (recorded in known findings)"]
FLOORS = {"multiset": 340, "order": 150, "storage": 20, "qualifier": 40, "declarator": 100, "alignment": 20, "name": 20, "parameter": 40}

KWS = ["void", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "_Bool"]
TABLE = {}


def add(st, *alts):
    for a in alts:
        TABLE[tuple(sorted(a.split()))] = st


add("ST_VOID", "void")
add("ST_CHAR", "char")
add("ST_SCHAR", "signed char")
add("ST_UCHAR", "unsigned char")
add("ST_SHORT", "short", "signed short", "short int", "signed short int")
add("ST_USHORT", "unsigned short", "unsigned short int")
add("ST_INT", "int", "signed", "signed int")
add("ST_UINT", "unsigned", "unsigned int")
add("ST_LONG", "long", "signed long", "long int", "signed long int")
add("ST_ULONG", "unsigned long", "unsigned long int")
add("ST_LLONG", "long long", "signed long long", "long long int", "signed long long int")
add("ST_ULLONG", "unsigned long long", "unsigned long long int")
add("ST_FLOAT", "float")
add("ST_DOUBLE", "double")
add("ST_LDOUBLE", "long double")
add("ST_BOOL", "_Bool")


class One:
    """one declaration evaluated: .ok, .ty (type of x), .sym (location of the symbol), .err"""
    def __init__(self, ctx, src, abi="sysv", entry="parse_declaration", external=1, typedefs=None, name="x", extra=None, etypes=None):
        z = lambda v: (lambda I, st, a, n, f: [(st, v)])
        self.D = D = Decl(ctx, abi)
        D.etypes.update(etypes or {})
        ex = {"type_contains_unevaluated_vla": z(0), "calculate_offsets": z(0), "type_has_variable_size": z(0)}
        ex.update(extra or {})
        ps, bad = D.run(src, entry, args={0: external} if entry == "parse_declaration" else {}, typedefs=typedefs, extra=ex)
        self.ps, self.bad = ps, bad
        self.err = [b.events[-1].name for b in bad if b.events]
        self.ok = len(ps) == 1 and not bad
        self.ty = self.sym = None
        self.kind = None
        if self.ok:
            self.p = ps[0]
            self.all = D.T.pos(self.p.st) == len(D.T.toks)
            for e in self.p.events:
                if e.k == "symbol" and e.name in ("ident", "typedef") and e.args[0] == name:
                    self.sym, self.kind = ("d", e.args[1]), e.name
            if self.sym:
                if self.kind == "typedef":
                    self.ty = self.g("data_type")
                else:
                    self.ty = self.g("label", "type")
        elif entry == "parse_type_name" and ps:
            pass

    def g(self, *f):
        return self.D.I.rd(self.p.st, self.D.loc(self.sym, *f))


def tn(P, t):
    if isty(t, "simple"):
        s = {P.enum(s): s for s in ST_ALL}.get(t[2], t[2])
        return ("const " if t[-1] else "") + str(s)
    if not isty(t):
        return show(t)
    return show(t)


def run(ctx):
    ctx.rule("multiset", "every multiset of at most five type-specifier keywords denotes the type of C11 6.7.2p2 or is rejected")
    ctx.rule("order", "the order of the specifiers does not matter, also when mixed with qualifiers and storage classes")
    ctx.rule("storage", "a storage-class specifier determines linkage/definition of exactly the declaration it appears in")
    ctx.rule("qualifier", "const applies to the type it qualifies and to nothing else")
    ctx.rule("alignment", "_Alignas is recorded for the declaration it appears in, the strictest one winning")
    ctx.rule("name", "typedef names act as type specifiers only where no other type specifier has appeared")
    ctx.rule("declarator", "a declarator denotes the type it spells (C11 6.7.6), for every combination of pointer, array and function parts")
    ctx.rule("parameter", "array and function parameters are adjusted to pointers; (void), () and ... are recorded")
    abi_env(ctx, "sysv")
    abi_env(ctx, "ms")
    allsets = []
    for n in range(1, 6 if ctx.tier == "thorough" else 5):
        for c in itertools.combinations_with_replacement(KWS, n):
            # beyond three keywords only multisets extending an integer spelling stay interesting
            if n >= 4 and not (set(c) <= {"long", "int", "signed", "unsigned", "short"} or n == 4 and ctx.tier == "thorough"):
                continue
            allsets.append(c)
    tasks = []
    for k in range(4):
        tasks.append(lambda k=k: multisets(ctx, allsets[k::4]))
    tasks += [lambda: orders(ctx), lambda: storage(ctx), lambda: quals(ctx), lambda: aligns(ctx), lambda: names(ctx), lambda: params(ctx)]
    for k in range(3):
        tasks.append(lambda k=k: declarators(ctx, k))
    ctx.parallel(tasks)


def judge(ctx, rule, inst, src, want, **kw):
    P = ctx.P
    o = One(ctx, src, **kw)
    if want is None:
        ok = not o.ps and bool(o.bad)
        msg = "must be rejected, is accepted as %s" % (tn(P, o.ty) if o.ok else "something")
    else:
        ok = o.ok and o.ty == want and o.all
        msg = "must denote %s, %s" % (tn(P, want), "denotes %s" % tn(P, o.ty) if o.ok else "is rejected (%s)" % (o.err[:1],))
    key = None
    if isty(want, "simple") and want[2] == P.enum("ST_LDOUBLE") and o.ok:
        key = "long double=%s" % tn(P, o.ty).replace("const ", "")       # one finding for every spelling
    ctx.ob(rule, inst, ok, "parse_specifiers", "'%s' %s" % (src, msg), key)
    return o


def multisets(ctx, sets):
    P = ctx.P
    R = random.Random(ctx.seed)
    for c in sets:
        st = TABLE.get(tuple(sorted(c)))
        c = list(c)
        R.shuffle(c)
        judge(ctx, "multiset", "+".join(sorted(c)), " ".join(c) + (" x ;" if st != "ST_VOID" else " * x ;"),
              None if st is None else simple(P, st) if st != "ST_VOID" else ptr(simple(P, st)))


def orders(ctx):
    P = ctx.P
    R = random.Random(ctx.seed + 1)
    for c, st in sorted(TABLE.items()):
        if st == "ST_VOID":
            continue
        perms = sorted(set(itertools.permutations(c)))
        for i, pm in enumerate(perms):
            judge(ctx, "order", "%s" % " ".join(pm), " ".join(pm) + " x ;", simple(P, st))
            q = list(pm)
            q.insert(R.randrange(len(q) + 1), "const")
            q.insert(R.randrange(len(q) + 1), R.choice(["static", "extern", "volatile"]))
            judge(ctx, "order", "mixed:%s" % " ".join(pm), " ".join(q) + " x ;", simple(P, st, 1))
    for c in ("int struct s", "struct s int", "enum e long", "struct s { int a ; } unsigned", "float struct s { int a ; }"):
        judge(ctx, "order", "tag+keyword:" + c, c + " x ;", None)


def storage(ctx):
    P = ctx.P
    it = simple(P, "ST_INT")
    reg = {"data_register_static_var": None}

    def run1(src, external):
        ev = []

        def m_reg(I, st, a, n, f):
            st.ev = (st.ev, Ev("static", text(a[0]), tuple(a), locs(n), f.name))
            return [(st, 0)]

        def m_alloc(I, st, a, n, f):
            st.ev = (st.ev, Ev("alloc", "x", tuple(a), locs(n), f.name))
            return [(st, ("ob", "node"))]
        return One(ctx, src, external=external, extra={"data_register_static_var": m_reg, "ir_allocate": m_alloc,
                   "parse_initializer": init_model(), "ir_init_ptr": lambda I, st, a, n, f: [(st, 0)], "calculate_size": lambda I, st, a, n, f: [(st, 4)]})

    def init_model():
        def m(I, st, a, n, f):
            st.mem[Tokens.POS] = st.mem.get(Tokens.POS, 0) + 1
            return [(st, ("struct", "initializer", (("type", 1),)))]
        return m
    E = P.enum

    def chk(inst, src, external, **want):
        o = run1(src, external)
        if not o.ok or not o.sym:
            ctx.ob("storage", inst, want.get("err", False) and not o.ps, "parse_init_declarator", "'%s' is %s" % (src, "rejected" if not o.ps else "not declared"))
            return
        got = {"typedef": int(o.kind == "typedef")}
        if o.kind == "ident":
            got["global"] = o.g("is_global")
            got["tentative"] = o.g("is_tentative")
            got["definition"] = o.g("has_definition")
            got["static"] = [show(e.args[3]) for e in o.p.events if e.k == "static"]
            got["auto"] = len([e for e in o.p.events if e.k == "alloc"])
            got["label"] = int(o.g("type") == E("IDENT_LABEL"))
            got["register"] = o.g("is_register")
        for k, v in want.items():
            ctx.ob("storage", inst + "." + k, got.get(k) == v, "parse_init_declarator", "'%s' (%s scope): %s is %s, must be %s" %
                   (src, "file" if external else "block", k, got.get(k), v))
    chk("file.plain", "int x ;", 1, **{"global": 1, "tentative": 1, "definition": 0, "label": 1, "static": [], "typedef": 0})
    chk("file.init", "int x = 1 ;", 1, **{"global": 1, "tentative": 0, "definition": 1, "label": 1, "static": ["1"]})
    chk("file.static", "static int x ;", 1, **{"global": 0, "tentative": 1, "definition": 0, "label": 1, "static": []})
    chk("file.static-init", "static int x = 1 ;", 1, **{"global": 0, "definition": 1, "static": ["0"]})
    chk("file.extern", "extern int x ;", 1, **{"tentative": 0, "definition": 0, "label": 1, "static": []})
    chk("file.static-last", "int static x ;", 1, **{"global": 0, "tentative": 1})
    chk("file.extern-last", "int extern x ;", 1, **{"tentative": 0, "definition": 0})
    chk("block.plain", "int x ;", 0, **{"auto": 1, "label": 0, "static": [], "definition": 1})
    chk("block.init", "int x = 1 ;", 0, **{"auto": 1, "label": 0, "static": []})
    chk("block.auto", "auto int x ;", 0, **{"auto": 1, "label": 0, "static": []})
    chk("block.register", "register int x ;", 0, **{"auto": 1, "label": 0, "register": 1})
    chk("block.static", "static int x ;", 0, **{"auto": 0, "label": 1, "static": ["0"], "register": 0})
    chk("block.static-init", "static int x = 1 ;", 0, **{"auto": 0, "label": 1, "static": ["0"]})
    chk("block.extern", "extern int x ;", 0, **{"auto": 0, "label": 1, "static": []})
    for e in (0, 1):
        chk("typedef.%d" % e, "typedef int x ;", e, typedef=1)
        chk("typedef-last.%d" % e, "int typedef x ;", e, typedef=1)
    # every declarator of the declaration shares them; the next declaration does not
    for src, w in (("static int a , x ;", 0), ("int a , x ;", 1)):
        chk("shared.%s" % src, src, 1, **{"global": w})
    o = One(ctx, "typedef int a , * x ;")
    ctx.ob("storage", "typedef-shared", o.ok and o.kind == "typedef" and o.ty == ptr(it), "parse_declaration", "typedef applies to every declarator")


def quals(ctx):
    P = ctx.P
    c = lambda s="ST_INT": simple(P, s, 1)
    i = simple(P, "ST_INT")
    cases = {"const int x ;": c(), "int const x ;": c(), "const int * x ;": ptr(c()), "int const * x ;": ptr(c()), "int * const x ;": ptr(i, 1),
             "const int * const x ;": ptr(c(), 1), "int * * const x ;": ptr(ptr(i), 1), "int * const * x ;": ptr(ptr(i, 1)),
             "const int * const * x ;": ptr(ptr(c(), 1)), "const char x [ 3 ] ;": array(c("ST_CHAR"), 3), "const int * x [ 3 ] ;": array(ptr(c()), 3),
             "int * const x [ 3 ] ;": array(ptr(i, 1), 3), "const int x ( void ) ;": func(c(), ()), "int ( * const x ) ( void ) ;": ptr(func(i), 1),
             "volatile int x ;": i, "int * restrict x ;": ptr(i), "int * volatile x ;": ptr(i), "const volatile int x ;": c(), "volatile const int x ;": c(),
             "int * volatile const x ;": ptr(i, 1), "const const int x ;": c(), "int * const const x ;": ptr(i, 1), "const int const x ;": c(),
             "const int a , x ;": c(), "int * const a , x ;": i, "int * const a , * x ;": ptr(i), "const int * a , x ;": c(),
             "int ( * const x ) [ 3 ] ;": ptr(array(i, 3), 1), "const int ( * x ) [ 3 ] ;": ptr(array(c(), 3))}
    for s, w in cases.items():
        judge(ctx, "qualifier", s, s, w)
    for s in ("char", "short", "long", "long long", "unsigned char", "float", "double", "_Bool"):
        st = TABLE[tuple(sorted(s.split()))]
        judge(ctx, "qualifier", "const " + s, "const " + s + " x ;", simple(P, st, 1))
        judge(ctx, "qualifier", s + " * const", s + " * const x ;", ptr(simple(P, st), 1))
    td = {"T": i, "CT": c(), "PT": ptr(i)}
    for s, w in {"const T x ;": c(), "T const x ;": c(), "CT x ;": c(), "const CT x ;": c(), "const PT x ;": ptr(i, 1), "PT const x ;": ptr(i, 1),
                 "CT * x ;": ptr(c()), "volatile CT x ;": c()}.items():
        judge(ctx, "qualifier", "typedef:" + s, s, w, typedefs=td)


def aligns(ctx):
    P = ctx.P

    def chk(inst, src, want, external=1, name="x", **kw):
        o = One(ctx, src, external=external, name=name, extra={"data_register_static_var": lambda I, st, a, n, f: [(st, 0)],
                "ir_allocate": lambda I, st, a, n, f: [(st, ("ob", "node"))], "calculate_size": lambda I, st, a, n, f: [(st, 4)]}, **kw)
        got = o.g("alignment") if o.ok and o.sym else None
        ctx.ob("alignment", inst, got == want, "parse_specifier", "'%s': alignment of %s is %s, must be %d" % (src, name, show(got), want))
    for ext in (0, 1):
        k = "block." if not ext else "file."
        for n in (1, 2, 4, 8, 16, 32, 64):
            chk(k + "value%d" % n, "_Alignas ( %d ) char x ;" % n, n, ext)
        chk(k + "none", "char x ;", 0, ext)
        chk(k + "after-type", "char _Alignas ( 16 ) x ;", 16, ext)
        for t, a in (("int", 4), ("double", 8), ("char", 1), ("char *", 8), ("short", 2), ("int [ 3 ]", 4)):
            chk(k + "type-" + t, "_Alignas ( %s ) char x ;" % t, a, ext)
        chk(k + "strictest-last", "_Alignas ( 4 ) _Alignas ( 16 ) char x ;", 16, ext)
        chk(k + "strictest-first", "_Alignas ( 16 ) _Alignas ( 4 ) char x ;", 16, ext)
        chk(k + "zero", "_Alignas ( 16 ) _Alignas ( 0 ) char x ;", 16, ext)
        chk(k + "shared", "_Alignas ( 16 ) char a , x ;", 16, ext)


def names(ctx):
    P = ctx.P
    i, d = simple(P, "ST_INT"), simple(P, "ST_DOUBLE")
    td = {"T": d, "U": ptr(i), "x": i}
    td2 = {"T": d, "U": ptr(i)}
    for s, w in {"T x ;": d, "U x ;": ptr(i), "T * x ;": ptr(d), "const T x ;": simple(P, "ST_DOUBLE", 1), "static T x ;": d, "T static x ;": d,
                 "T x [ 2 ] ;": array(d, 2), "U * x [ 2 ] ;": array(ptr(ptr(i)), 2), "T ( * x ) ( T ) ;": ptr(func(d, (d,))), "T x ( U , T ) ;": func(d, (ptr(i), d)),
                 "unsigned x ;": simple(P, "ST_UINT"), "int x ;": i, "long x ;": simple(P, "ST_LONG")}.items():
        judge(ctx, "name", s, s, w, typedefs=td2)
    # a typedef name redeclared: after another type specifier it is the declared identifier
    for s, w in {"int T ;": i, "unsigned T ;": simple(P, "ST_UINT"), "const int T ;": simple(P, "ST_INT", 1), "T U ;": d, "U T ;": ptr(i), "short T [ 2 ] ;": array(simple(P, "ST_SHORT"), 2),
                 "T T ;": d, "struct s { int a ; } T ;": None}.items():
        nm = s.split()[-2] if s[-3] != "]" else "T"
        o = One(ctx, s, typedefs=td2, name=nm)
        ok = o.ok and o.sym is not None and o.kind == "ident" and (w is None and isty(o.ty, "struct") or o.ty == w)
        ctx.ob("name", "redeclared:" + s, ok, "parse_specifier", "'%s' must declare an object %s of the given type (%s)" % (s, nm, tn(P, o.ty) if o.ok else o.err[:1]))
    for s in ("T int x ;", "T unsigned x ;", "T U x ;", "long T x ;", "T T x ;"):
        judge(ctx, "name", "two:" + s, s, None, typedefs=td2)
    for s in ("x ;", "const x ;", "y x ;"):
        o = One(ctx, s, typedefs=td2)
        ctx.ob("name", "undeclared:" + s, not (o.ok and o.sym and o.ret_ok if hasattr(o, "ret_ok") else o.ok and o.sym is not None), "parse_specifiers", "'%s' declares x without a type" % s)
    # tags
    for kw in ("struct", "union"):
        o = One(ctx, "%s s { int a ; } * x [ 2 ] ;" % kw)
        ok = o.ok and isty(o.ty, "array") and isty(o.ty[2], "ptr") and isty(o.ty[2][2], "struct")
        ctx.ob("name", kw + "-declarator", ok, "parse_struct", "%s s {..} *x[2] denotes %s" % (kw, tn(P, o.ty) if o.ok else o.err[:1]))
    o = One(ctx, "enum e { A , B } x ;")
    ctx.ob("name", "enum", o.ok and o.ty == i, "parse_enum", "enum object has type %s" % (tn(P, o.ty) if o.ok else o.err[:1]))


# ------------------------------------------------------------------ declarators generated from types
def spell(t, name):
    """(base type, declarator text)"""
    d, prev = name, None
    while t[1] in ("ptr", "array", "incarray", "func"):
        if t[1] == "ptr":
            d = "* " + ("const " if t[-1] else "") + d
            prev = "ptr"
        else:
            if prev == "ptr":
                d = "( %s )" % d
            if t[1] == "array":
                d += " [ %d ]" % t[3]
            elif t[1] == "incarray":
                d += " [ ]"
            else:
                ps = [" ".join(x for x in (BASE[b], dd) if x) for b, dd in (spell(p, "") for p in t[3])]
                a = " , ".join(ps) if ps else ("void" if not t[4] else "")
                if ps and t[4]:
                    a += " , ..."
                d += " ( %s )" % a
            prev = "suffix"
        t = t[2]
    return t, d


BASE = {}


def declarators(ctx, part):
    P = ctx.P
    b = [simple(P, s) for s in ("ST_INT", "ST_CHAR", "ST_DOUBLE", "ST_ULONG")]
    for t, s in zip(b, ("int", "char", "double", "unsigned long")):
        BASE[t] = s
    v = simple(P, "ST_VOID")
    BASE[v] = "void"
    R = random.Random(ctx.seed * 7 + 5)

    def grow(t, d):
        """all types one constructor larger"""
        out = [ptr(t), ptr(t, 1)]
        if t[1] not in ("func", "incarray") and t != v:
            out += [array(t, 3), ]
        if t[1] not in ("func", "array", "incarray"):
            out += [func(t, ()), func(t, (b[0],)), func(t, (b[1], ptr(b[0])), 1), func(t, (), 1)]
        return out
    depth = 4 if ctx.tier == "quick" else 5
    level = [b[0]]
    all_ = []
    for k in range(depth):
        level = [x for t in level for x in grow(t, k)]
        R.shuffle(level)
        level = level[:90 if ctx.tier == "quick" else 500]
        all_ += level
    fp = ptr(func(b[0], (b[1],)))
    all_ += [func(fp, (b[0], fp)), func(ptr(array(b[0], 3)), (b[2],)), array(ptr(func(ptr(func(v, (b[0],))), ())), 2), incarray(ptr(func(b[0], (b[0], b[1]), 1))),
             func(v, (ptr(v),)), ptr(func(ptr(v), (ptr(v), b[3]))), incarray(array(b[0], 4)), array(array(array(b[2], 2), 3), 4)]
    for i, t in enumerate(all_):
        if i % 3 != part:
            continue
        base, d = spell(t, "x")
        src = "%s %s ;" % (BASE[base], d)
        judge(ctx, "declarator", src, src, t)
        # as a type name: the same declarator without the identifier
        if t[1] != "func" or True:
            base, d = spell(t, "")
            s2 = ("%s %s" % (BASE[base], d)).strip() + " )"
            if "incarray" in str(t) and t[1] != "incarray":
                continue
            if t[1] in ("func",) and False:
                continue
            D = Decl(ctx, "sysv")
            ps, bad = D.run(s2, "parse_type_name")
            got = ps[0].ret if len(ps) == 1 and not bad else None
            ctx.ob("declarator", "typename:" + s2, got == t and D.T.pos(ps[0].st) == len(D.T.toks) - 1, "parse_type_name",
                   "type name '%s' denotes %s, must be %s" % (s2[:-2], tn(P, got) if got else "nothing", tn(P, t)))


def params(ctx):
    P = ctx.P
    i, c = simple(P, "ST_INT"), simple(P, "ST_CHAR")
    F = lambda *a, **k: func(i, a, **k)
    cases = {"int x ( void ) ;": F(), "int x ( ) ;": F(variadic=1), "int x ( int ) ;": F(i), "int x ( int a ) ;": F(i), "int x ( int a , char b ) ;": F(i, c),
             "int x ( int , ... ) ;": F(i, variadic=1), "int x ( int a [ 3 ] ) ;": F(ptr(i)), "int x ( int a [ ] ) ;": F(ptr(i)), "int x ( int [ ] ) ;": F(ptr(i)),
             "int x ( int [ 3 ] ) ;": F(ptr(i)), "int x ( int a [ 2 ] [ 3 ] ) ;": F(ptr(array(i, 3))), "int x ( int f ( char ) ) ;": F(ptr(F(c))),
             "int x ( int ( char ) ) ;": F(ptr(F(c))), "int x ( int ( * f ) ( char ) ) ;": F(ptr(F(c))), "int x ( int * a [ ] ) ;": F(ptr(ptr(i))),
             "int x ( int a [ static 3 ] ) ;": F(ptr(i)), "int x ( int a [ const 3 ] ) ;": F(ptr(i, 1)), "int x ( int a [ const ] ) ;": F(ptr(i, 1)),
             "int x ( int a [ restrict ] ) ;": F(ptr(i)), "int x ( register int a ) ;": F(i), "int x ( const int a ) ;": F(simple(P, "ST_INT", 1)),
             "int x ( const char * s , ... ) ;": F(ptr(simple(P, "ST_CHAR", 1)), variadic=1), "int x ( void * p ) ;": F(ptr(simple(P, "ST_VOID"))),
             "int x ( unsigned , long ) ;": F(simple(P, "ST_UINT"), simple(P, "ST_LONG")), "int ( x ) ( int ) ;": F(i), "int * x ( int ) ;": func(ptr(i), (i,)),
             "int ( * x ( int ) ) ( char ) ;": func(ptr(F(c)), (i,)), "int ( * x ) ( int a , int ( * b ) ( int c ) ) ;": ptr(F(i, ptr(F(i))))}
    for s, w in cases.items():
        o = judge(ctx, "parameter", s, s, w)
        if o.ok:
            fr = o.D.frames(o.p.st)
            ctx.ob("parameter", "scope:" + s, len(fr) == 1, "parse_init_declarator", "'%s' leaves %d prototype scope(s) open" % (s, len(fr) - 1))
    td = {"T": i}
    for s, w in {"int x ( T ) ;": F(i), "int x ( T a ) ;": F(i), "int x ( T , T ) ;": F(i, i), "int x ( T [ 3 ] ) ;": F(ptr(i)), "int x ( T ( * ) ( T ) ) ;": F(ptr(F(i))),
                 "int x ( int ( T ) ) ;": F(ptr(F(i))), "int x ( int T ) ;": F(i)}.items():
        judge(ctx, "parameter", "typedef:" + s, s, w, typedefs=td)
    # parameter names and types reach the function definition
    got = []

    def m_pf(I, st, a, n, f):
        args = a[3]
        k = a[2]
        r = []
        if isinstance(k, int):
            for j in range(k):
                l = I.deref(st, args)
                s = I.rd(st, ("i", l[1], l[2] + j) if l[0] == "i" else ("i", l, j))
                r.append((s[1].split(":")[-1] if isinstance(s, tuple) and s[0] == "ob" else show(s), I.rd(st, ("f", ("f", ("d", s), "parameter"), "type"))))
        got.append((text(a[0]), a[1], tuple(r), a[4]))
        st.mem[("g", "#frames")] = len(I_frames(st))
        return [(st, 0)]

    def I_frames(st):
        return st.mem.get(Decl.SCOPES, ((),))
    for s, w in {"int f ( int a , char b ) {": ("f", F(i, c), (("a", i), ("b", c)), 1), "int f ( void ) {": ("f", F(), (), 1), "static int f ( int a [ 3 ] ) {": ("f", F(ptr(i)), (("a", ptr(i)),), 0),
                 "int * f ( int a ) {": ("f", func(ptr(i), (i,)), (("a", i),), 1), "int ( * f ( int a , char b ) ) ( double ) {":
                 ("f", func(ptr(F(simple(P, "ST_DOUBLE"))), (i, c)), (("a", i), ("b", c)), 1), "int f ( int a , ... ) {": ("f", F(i, variadic=1), (("a", i),), 1),
                 "int f ( int g ( int z ) , char b ) {": ("f", F(ptr(F(i)), c), (("g", ptr(F(i))), ("b", c)), 1), "extern int f ( int a ) {": ("f", F(i), (("a", i),), 1)}.items():
        got.clear()
        o = One(ctx, s, extra={"parse_function": m_pf})
        ctx.ob("parameter", "definition:" + s, o.ok and got == [w], "parse_init_declarator", "'%s' defines %s, must be %s" %
               (s, [(g[0], tn(P, g[1]), [(x, tn(P, y)) for x, y in g[2]], g[3]) for g in got], (w[0], tn(P, w[1]), [(x, tn(P, y)) for x, y in w[2]], w[3])))
