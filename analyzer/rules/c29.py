"""C29 (determinism). Structural absence of every source of variation:
sources - a result of time, clock, environment, random or process functions may reach only the replacement of __DATE__ and __TIME__;
addresses - a pointer converted to an integer may only select a bucket of a hash table (through hash functions and %), no table indexed in
this way is iterated bucket by bucket, no address is printed, and pointers into different objects are not ordered;
assigned - definite assignment: no automatic object (member by member) is read before it is assigned, no fresh heap object escapes with
unassigned members, no element appended to a growable array is left unassigned;
filled - every array allocated without initialisation is filled (for arrays of scalars: on every path through the block that allocates it).
The bytes of the outputs themselves are decided with C18, C19, C20 and C33, whose abstract heap has no value for unassigned storage; their
obligations on the writers are repeated here."""
from absint import AnalysisError
from definit import ALLOCATORS, FILL, Definit
from flow import Flow, strip
from front import callee_name, locs
from rules import c18, c19, c20, c33

EXPLANATION = __doc__
FLOORS = {"sources": 2, "addresses": 1, "assigned": 80, "filled": 25}
ASSUMPTIONS = ["a function that receives the address of an object may assign it", "C library functions other than those listed are functions of their arguments and of the files read"]

VARY = {"time", "clock", "rand", "random", "srand", "drand48", "lrand48", "getenv", "secure_getenv", "getpid", "getppid", "gettid", "gettimeofday", "clock_gettime",
        "timespec_get", "localtime", "gmtime", "ctime", "asctime", "localtime_r", "gmtime_r", "tmpnam", "tmpfile", "mkstemp", "getcwd", "gethostname", "getuid", "getlogin",
        "uname", "sysconf", "isatty", "ttyname", "readdir", "opendir", "stat", "fstat", "lstat", "rdtsc", "__rdtsc", "getrandom", "arc4random", "random_r", "rand_r",
        "pthread_self", "sbrk", "times", "getrusage", "setlocale", "localeconv", "nl_langinfo", "access", "mktime", "difftime"}
CONV = {"localtime", "gmtime", "localtime_r", "gmtime_r", "strftime", "asctime", "ctime", "allocate_printf", "snprintf", "sprintf", "sv_from_str", "strdup", "mktime"}
DATES = ("__DATE__", "__TIME__", "__TIMESTAMP__")


def base_var(n):
    n = strip(n)
    while n.k in ("MemberExpr", "ArraySubscriptExpr", "ParenExpr", "ImplicitCastExpr", "CStyleCastExpr") or n.k == "UnaryOperator" and n.v in ("*", "&"):
        n = strip(n.ch[0])
    return n.x.get("id") if n.k == "DeclRefExpr" else None


# ------------------------------------------------------------------------------------------------ sources
def sources(ctx, Fl, nr):
    P = ctx.P
    for f in Fl.trees:
        calls = [n for n in f.body.walk() if n.k == "CallExpr" and callee_name(n) in VARY and (P.func(callee_name(n), f.tu) is None or P.func(callee_name(n), f.tu).body is None)]
        if not calls:
            continue
        # calls in diagnostics: arguments of a function that does not return
        dead = set()
        for n in f.body.walk():
            if n.k == "CallExpr" and callee_name(n) and P.func(callee_name(n), f.tu) in nr:
                dead |= {id(q) for q in n.walk()}
        calls = [n for n in calls if id(n) not in dead]
        if not calls:
            continue
        tainted = set()

        def dirty(n):
            return any(q.k == "CallExpr" and callee_name(q) in VARY or q.k == "DeclRefExpr" and q.x.get("id") in tainted for q in n.walk() if q is not None)
        while True:
            before = len(tainted)
            for n in f.body.walk():
                if n.k == "VarDecl" and any(c is not None and dirty(c) for c in n.ch):
                    tainted.add(n.x["id"])
                if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.v.endswith("=") and n.v not in ("==", "!=", "<=", ">=") and dirty(n.ch[1]) and base_var(n.ch[0]):
                    tainted.add(base_var(n.ch[0]))
                if n.k == "CallExpr" and callee_name(n) in CONV | VARY and any(dirty(c) for c in n.ch[1:]):
                    for c in n.ch[1:]:
                        c = strip(c)
                        b = base_var(c)
                        if b and ("[" in (c.t[1] if c.t else "") or c.k == "UnaryOperator" and c.v == "&"):
                            tainted.add(b)
            if len(tainted) == before:
                break
        bad = []
        autos = {n.x["id"] for n in f.body.walk() if n.k == "VarDecl" and (n.x or {}).get("storageClass") not in ("static", "extern")}
        for n in f.body.walk():
            if n.k == "CallExpr" and any(dirty(c) for c in n.ch[1:]) and callee_name(n) not in CONV | VARY:
                names = [q.v.strip('"') for c in n.ch[1:] for q in c.walk() if q.k == "StringLiteral"]
                if not any(d in x for d in DATES for x in names):
                    bad.append((n, "is passed to %s" % callee_name(n)))
            if n.k in ("IfStmt", "WhileStmt", "SwitchStmt", "ConditionalOperator", "DoStmt") and dirty(n.ch[1] if n.k == "DoStmt" else n.ch[0]):
                bad.append((n, "decides a branch"))
            if n.k == "ReturnStmt" and n.ch and dirty(n.ch[0]):
                bad.append((n, "is returned"))
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.v.endswith("=") and n.v not in ("==", "!=", "<=", ">=") and dirty(n.ch[1]) and base_var(n.ch[0]) not in autos:
                bad.append((n, "is stored"))
        for n in calls:
            ctx.ob("sources", "%s calls %s" % (f.name, callee_name(n)), not bad, locs(bad[0][0]) if bad else locs(n),
                   "a value that varies from run to run (%s) %s" % (callee_name(n), bad[0][1]) if bad else "")
    ctx.ob("sources", "program", True, "src", "")
    for f in Fl.trees:
        for n in f.body.walk():
            if n.k == "DeclRefExpr" and n.v == "environ":
                ctx.ob("sources", "%s: environ" % f.name, False, locs(n), "%s reads the environment" % f.name)


# ------------------------------------------------------------------------------------------------ addresses
def addresses(ctx, Fl):
    P = ctx.P
    hashed = set()                    # functions whose result may depend on an address

    def isaddr(n, tainted):
        return any(q.k in ("ImplicitCastExpr", "CStyleCastExpr") and q.v == "PointerToIntegral" or q.k == "DeclRefExpr" and q.x.get("id") in tainted
                   or q.k == "CallExpr" and P.func(callee_name(q) or "", None) in hashed for q in n.walk())

    def taint(f):
        t = set()
        while True:
            k = len(t)
            for n in f.body.walk():
                if n.k == "VarDecl" and any(c is not None and isaddr(c, t) for c in n.ch) and integer(n.t):
                    t.add(n.x["id"])
                if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.v.endswith("=") and n.v not in ("==", "!=", "<=", ">=") and isaddr(n.ch[1], t) and integer(n.ch[0].t) and base_var(n.ch[0]):
                    if strip(n.ch[0]).k == "DeclRefExpr":
                        t.add(base_var(n.ch[0]))
            if len(t) == k:
                return t

    def integer(t):
        return t is not None and "*" not in t[1] and "struct" not in t[1] and "union" not in t[1]
    work = True
    while work:
        work = False
        for f in Fl.trees:
            if f in hashed:
                continue
            t = taint(f)
            if any(n.k == "ReturnStmt" and n.ch and isaddr(n.ch[0], t) and integer(n.ch[0].t) for n in f.body.walk()):
                hashed.add(f)
                work = True
    tables = set()
    for f in Fl.trees:
        t = taint(f)
        if not t and not any(isaddr(n, t) for n in f.body.walk() if n.k in ("ImplicitCastExpr", "CStyleCastExpr", "CallExpr")):
            continue
        parent = {}
        for n in f.body.walk():
            for c in n.ch:
                if c is not None:
                    parent[id(c)] = n
        bad = None
        for n in f.body.walk():
            if n.k == "ArraySubscriptExpr" and isaddr(n.ch[1], t):
                tables.add(table_of(n.ch[0], f, Fl))
            if n.k == "CallExpr" and any(isaddr(c, t) for c in n.ch[1:]):
                g = P.func(callee_name(n) or "", f.tu)
                if g not in hashed and not pure_int(P, g):
                    bad = bad or (n, "is passed to %s" % callee_name(n))
            if n.k in ("IfStmt", "WhileStmt", "SwitchStmt", "ConditionalOperator") and isaddr(n.ch[0], t) and not equality(n.ch[0]):
                bad = bad or (n, "decides a branch")
            if n.k == "InitListExpr" and any(c is not None and c.k != "InitListExpr" and integer(c.t) and isaddr(c, t) for c in n.ch):
                bad = bad or (n, "is stored")
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.v.endswith("=") and n.v not in ("==", "!=", "<=", ">="):
                if isaddr(n.ch[1], t) and integer(n.ch[0].t) and strip(n.ch[0]).k != "DeclRefExpr":
                    bad = bad or (n, "is stored")
        ctx.ob("addresses", f.name, bad is None, locs(bad[0]) if bad else f.file, "an address converted to an integer %s in %s" % (bad[1], f.name) if bad else "")
    # tables selected by address are not iterated
    for f in Fl.trees:
        for n in f.body.walk():
            if n.k == "ForStmt":
                iv = {base_var(q.ch[0]) for q in (n.ch[3].walk() if n.ch[3] is not None else []) if q.k == "UnaryOperator" and q.v in ("++", "--") or q.k == "CompoundAssignOperator"}
                for q in n.ch[4].walk():
                    if q.k == "ArraySubscriptExpr" and base_var(q.ch[1]) in iv and table_of(q.ch[0], f, Fl) in tables - {None}:
                        p = [x for x in n.ch[4].walk() if x.k == "BinaryOperator" and x.v == "=" and strip(x.ch[0]) is strip(q)]
                        if not p:
                            ctx.ob("addresses", "%s iterates a table" % f.name, False, locs(n), "%s goes through a hash table whose order depends on addresses" % f.name)
    for f in Fl.trees:
        for n in f.body.walk():
            if n.k == "StringLiteral" and "%p" in (n.v or ""):
                ctx.ob("addresses", "%s prints an address" % f.name, False, locs(n), "%s prints an address" % f.name)
            if n.k == "BinaryOperator" and n.v in ("<", ">", "<=", ">=") and n.ch[0].t and "*" in n.ch[0].t[1] and n.ch[1].t and "*" in n.ch[1].t[1]:
                a, b = base_var(n.ch[0]), base_var(n.ch[1])
                t0 = (n.ch[0].t[1] or "")
                ok = "char" in t0 and a is not None
                ctx.ob("addresses", "%s orders pointers (%s)" % (f.name, t0), ok, locs(n), "%s orders two pointers of type %s" % (f.name, t0) if not ok else "")
            if n.k == "CallExpr" and callee_name(n) == "qsort":
                g = [q for q in n.ch[-1].walk() if q.k == "DeclRefExpr" and q.x.get("rk") == "FunctionDecl"]
                g = P.func(g[0].v, f.tu) if g else None
                ok = g is not None and not any(q.k in ("ImplicitCastExpr", "CStyleCastExpr") and q.v == "PointerToIntegral" or q.k == "BinaryOperator" and q.v in ("-", "<", ">", "<=", ">=")
                                               and q.ch[0].t and "*" in q.ch[0].t[1] for q in g.body.walk())
                ctx.ob("addresses", "%s sorts" % f.name, ok, locs(n), "%s sorts by address" % f.name if not ok else "")


def equality(n):
    n = strip(n)
    return n.k == "BinaryOperator" and n.v in ("==", "!=") or n.k == "BinaryOperator" and n.v in ("&&", "||") and all(equality(c) for c in n.ch)


def pure_int(P, g):
    """an arithmetic function: integers in, integer out, no effects"""
    if g is None or g.body is None:
        return False
    if any(p.t and ("*" in p.t[1]) for p in g.params):
        return False
    return not any(n.k == "CallExpr" for n in g.body.walk())


def table_of(n, f, Fl):
    n = strip(n)
    if n.k == "MemberExpr":
        b = strip(n.ch[0])
        t = b.t[1] if b.t else ""
        return (t.replace("*", "").replace("const ", "").strip(), n.v)
    if n.k == "DeclRefExpr":
        return n.x.get("id")
    return None


# ------------------------------------------------------------------------------------------------ assigned
def assigned(ctx, Fl, nr):
    P = ctx.P

    def job(fs):
        def go():
            for f in fs:
                d = Definit(P, f, nr)
                bad = {}
                for u, n, how in d.hits.values():
                    bad.setdefault(u[0], (u, n, how))
                for k, name in d.objects.items():
                    b = bad.pop(k, None)
                    ctx.ob("assigned", "%s: %s" % (f.name, name), b is None, locs(b[1]) if b else f.file,
                           "%s: %s%s may be %s before it is assigned" % (f.name, name, "." + b[0][1] if b[0][1] else "", "read" if b[2].startswith("read") else "handed on") if b else "")
                for k, (u, n, how) in bad.items():
                    ctx.ob("assigned", "%s: new object" % f.name, False, locs(n), "%s hands on a new object whose members were never assigned" % f.name)
                ctx.functions.add(f.name)
        return go
    fs = list(Fl.trees)
    ctx.parallel([job(fs[k::8]) for k in range(8)])


# ------------------------------------------------------------------------------------------------ filled
def text(n):
    n = strip(n)
    if n.k == "DeclRefExpr":
        return "%s" % n.x.get("id")
    if n.k == "MemberExpr":
        return text(n.ch[0]) + "." + n.v
    if n.k == "UnaryOperator" and n.v in ("*", "&", "++", "--"):
        return text(n.ch[0])
    if n.k == "ArraySubscriptExpr":
        return text(n.ch[0])
    if n.k == "BinaryOperator" and n.v in "+-":
        return text(n.ch[0])
    return "?"


class Fill:
    def __init__(self, P):
        self.P = P

    def fills(self, f, body, keys, always, depth=0):
        """is there a store through one of the names (ALWAYS: outside of conditionals)?"""
        for q in body.walk():
            # aliases: T *p = name + i, &name[i]
            if q.k == "VarDecl" and q.ch and q.ch[-1] is not None and q.t and "*" in q.t[1] and text(q.ch[-1]) in keys:
                keys = keys | {q.x["id"]}
            if q.k == "BinaryOperator" and q.v == "=" and q.ch[0].t and "*" in q.ch[0].t[1] and text(q.ch[1]) in keys and strip(q.ch[0]).k == "DeclRefExpr":
                keys = keys | {text(q.ch[0])}

        def skips(n):
            return n is not None and (n.k == "ContinueStmt" or n.k not in ("ForStmt", "WhileStmt", "DoStmt") and any(skips(c) for c in n.ch))

        def go(n):
            if n is None:
                return False
            if always and n.k in ("ForStmt", "WhileStmt", "DoStmt"):
                # the body up to the first statement that may skip the rest
                for c in n.ch:
                    for q in (c.ch if c is not None and c.k == "CompoundStmt" else [c]):
                        if skips(q):
                            return False
                        if go(q):
                            return True
                return False
            if always and n.k in ("IfStmt", "SwitchStmt", "ConditionalOperator"):
                if n.k != "SwitchStmt" and len(n.ch) > 2 and go(n.ch[1]) and go(n.ch[2]):
                    return True
                return go(n.ch[0])
            if n.k == "BinaryOperator" and n.v == "=":
                b = strip(n.ch[0])
                while b.k in ("MemberExpr", "ArraySubscriptExpr", "UnaryOperator"):
                    if b.k == "ArraySubscriptExpr" or b.k == "UnaryOperator" and b.v == "*" or b.k == "MemberExpr" and b.x.get("arrow"):
                        if text(b.ch[0]) in keys:
                            return True
                    b = strip(b.ch[0])
            if n.k == "CallExpr":
                nm = callee_name(n)
                if nm in FILL or nm in ("vsprintf",):
                    if text(n.ch[1 + FILL.get(nm, 0)]) in keys:
                        return True
                elif nm:
                    g = self.P.func(nm, f.tu)
                    if g is not None and g.body is not None and depth < 4:
                        for i, a in enumerate(n.ch[1:]):
                            if i < len(g.params) and text(a) in keys and self.fills(g, g.body, {"%s" % g.params[i].x["id"]}, always, depth + 1):
                                return True
            return any(go(c) for c in n.ch)
        return go(body)


def grown(n):
    """elements added to a growable array: (..realloc.., size += n, p + size - n)"""
    n = strip(n)
    return n.k == "BinaryOperator" and n.v == "," and any(q.k == "CallExpr" and callee_name(q) == "cc_realloc" for q in n.walk()) and any(q.k == "CompoundAssignOperator" and q.v == "+=" for q in n.walk())


def filled(ctx, Fl):
    P = ctx.P
    F = Fill(P)
    for f in Fl.trees:
        for block in [n for n in f.body.walk() if n.k == "CompoundStmt"]:
            own = []

            def collect(n):
                if n is None or n.k == "CompoundStmt":
                    return
                own.append(n)
                for c in n.ch:
                    collect(c)
            for c in block.ch:
                collect(c)
            for n in own:
                if n.k == "BinaryOperator" and n.v == "=":
                    tgt, r, key, t = n.ch[0], strip(n.ch[1]), text(n.ch[0]), n.ch[0].t
                elif n.k == "VarDecl" and n.ch and n.ch[-1] is not None:
                    tgt, r, key, t = n, strip(n.ch[-1]), n.x["id"], n.t
                else:
                    continue
                if grown(r):
                    ok = F.fills(f, block, {key}, True)
                    ctx.ob("filled", "%s: bytes appended (%s)" % (f.name, strip(tgt).v or "?"), ok, locs(n), "%s appends elements to an array and does not fill them" % f.name if not ok else "")
                    continue
                if r.k != "CallExpr" or callee_name(r) not in ALLOCATORS or f.name in ALLOCATORS:
                    continue
                if strip(r.ch[1]).k == "UnaryExprOrTypeTraitExpr":
                    continue          # a single object: definite assignment
                d = strip(tgt)
                if d.k == "DeclRefExpr" and any(q.k == "VarDecl" and q.x.get("id") == d.x.get("id") and (q.x or {}).get("storageClass") == "static" for q in f.body.walk()) and "char *" in (t[1] or ""):
                    continue          # scratch buffer for messages
                scalar = t is not None and (t[1].count("*") > 1 or "struct" not in t[1] and "union" not in t[1])
                ok = F.fills(f, block, {key}, scalar)
                ctx.ob("filled", "%s: %s" % (f.name, d.v or "?"), ok, locs(n), "%s allocates %s and does not fill it%s" % (f.name, d.v or "an array", " on every path" if scalar else "") if not ok else "",
                       )


def run(ctx):
    for k, t in {"sources": "nothing that varies from run to run reaches more than __DATE__ and __TIME__", "addresses": "addresses only select hash buckets",
                 "assigned": "no object is read or handed on before it is assigned", "filled": "every allocated array is filled"}.items():
        ctx.rule(k, t)
    Fl = Flow(ctx.P)
    nr = Fl.never_returns()
    ctx.require(len(nr) >= 3, "the error routines that end the run were not found")
    sources(ctx, Fl, nr)
    addresses(ctx, Fl)
    assigned(ctx, Fl, nr)
    filled(ctx, Fl)
    # the writers: what they emit is a function of the program alone
    plain = ctx.ob, ctx.rule
    for mod, name in ((c18, "ELF"), (c19, "COFF"), (c20, "linked"), (c33, "data")):
        ctx.ob = lambda rid, *a, name=name, **k: plain[0]("%s: %s" % (name, rid), *a, **k)
        ctx.rule = lambda rid, text, name=name: plain[1]("%s: %s" % (name, rid), text)
        mod.run(ctx)
    del ctx.ob, ctx.rule
    ctx.paths += len(Fl.trees)
