"""Definite assignment: for every automatic object without initialiser (structures field by field) and every object allocated singly on the
heap, the set of its parts that may still be unassigned is propagated through the syntax tree of the function. A read of a part that may be
unassigned - and an escape (return, store, argument) of a heap object with unassigned parts - is reported."""
from front import callee_name, locs
from flow import NORETURN, strip

ALLOCATORS = {"malloc", "cc_malloc"}
FILL = {"memset": 0, "memcpy": 0, "memmove": 0, "fread": 0, "strcpy": 0, "strncpy": 0, "snprintf": 0, "sprintf": 0, "vsnprintf": 0}
NONE = frozenset()


class State:
    """U: part that may be unassigned -> facts that hold whenever it is; F: what is known of conditions on unaliased locals: text -> truth"""
    def __init__(self, U=None, F=None):
        self.U, self.F = U or {}, F or {}

    def __sub__(self, us):
        return State({u: t for u, t in self.U.items() if u not in us}, self.F)

    def __or__(self, us):
        U = dict(self.U)
        U.update((u, NONE) for u in us)
        return State(U, self.F)

    def live(self, us):
        return [u for u in us if u in self.U and not any(self.F.get(c) is (not v) for c, v in self.U[u])]

    def know(self, text, val, names):
        F = dict(self.F)
        F[(text, names)] = val
        return State(self.U, F)

    def forget(self, var):
        if not any(var in c[1] for c in self.F) and not any(var in c[1] for t in self.U.values() for c, _ in t):
            return self
        return State({u: frozenset((c, v) for c, v in t if var not in c[1]) for u, t in self.U.items()}, {c: v for c, v in self.F.items() if var not in c[1]})

    def same(self, o):
        return o is not None and self.U == o.U


def y_is(F, c, v):
    return F.get(c) is v


def appended(n):
    """the address of an element just added to a growable array: &*(..realloc.., p + n++)"""
    n = strip(n)
    if n.k != "UnaryOperator" or n.v != "&" or not any(q.k == "CallExpr" and callee_name(q) in ("cc_realloc", "realloc") for q in n.walk()):
        return False
    q = n.ch[0]
    while q.k in ("ParenExpr", "ImplicitCastExpr") or q.k == "UnaryOperator" and q.v == "*" or q.k == "BinaryOperator" and q.v == ",":
        q = q.ch[-1]
    return q.k == "BinaryOperator" and q.v == "+" and any(c.k == "UnaryOperator" and c.v == "++" for c in q.walk())


class Definit:
    def __init__(self, P, f, noreturn, param=None, depth=0):
        self.P, self.f, self.nr, self.param, self.depth = P, f, noreturn, param, depth
        self.final, self.left = set(), set()
        self.hits, self.objects = {}, {}
        self.names, self.recs = {}, {}
        self.brk, self.cont, self.labels, self.arrays, self.appends = [], [], {}, set(), set()
        self.aliased = {strip(n.ch[0]).x.get("id") for n in f.body.walk() if n.k == "UnaryOperator" and n.v == "&" and strip(n.ch[0]).k == "DeclRefExpr"}
        self.autos = {p.x["id"] for p in f.params} | {n.x["id"] for n in f.body.walk() if n.k == "VarDecl" and (n.x or {}).get("storageClass") not in ("static", "extern")}
        for _ in range(3):
            self.pending, self.final = {}, set()
            st = State()
            if param is not None:
                p = f.params[param]
                t = p.t
                st = st | self.declare(("*", p.x["id"]), (t[0].rstrip()[:-1].strip(), t[1].rstrip()[:-1].strip()), p.v)
                st = st.know("v%s" % p.x["id"], True, frozenset([p.x["id"]]))
            st = self.stmt(f.body, st)
            self.leave(st, f.body)
            if all(k in self.labels and set(self.labels[k].U) >= set(v.U) for k, v in self.pending.items()):
                break
            for k, v in self.pending.items():
                self.labels[k] = self.join(self.labels.get(k), v)
            self.hits = {}

    def leave(self, st, n):
        """the end of the function: elements appended to arrays are complete"""
        if st is None:
            return
        self.left |= {u for u in st.U if u[0] == ("*", self.f.params[self.param].x["id"]) and st.live([u])} if self.param is not None else set()
        for key in self.appends:
            self.use(self.units(key), st, n, "left")

    def handed(self, n, st):
        """arguments that point to an object under construction: what the callee assigns counts; returns (state, arguments dealt with)"""
        done = set()
        if st is None:
            return st, done
        g = self.P.func(callee_name(n) or "", self.f.tu)
        if g is None or g.body is None or self.depth > 3:
            return st, done
        for i, a in enumerate(n.ch[1:]):
            q = strip(a)
            key = ("*", q.x.get("id")) if q.k == "DeclRefExpr" else None
            if key not in self.recs or i >= len(g.params) or not any(u[0] == key for u in st.U):
                continue
            if "*" not in (g.params[i].t[1] if g.params[i].t else ""):
                continue
            d = self.summary(g, i)
            if d is None:
                continue
            for u, m, how in d.hits.values():
                if u[0] == ("*", g.params[i].x["id"]) and how.startswith("read"):
                    self.use(self.units(key, u[1]), st, n, "read")
            left = {u[1] for u in d.left}
            got = {u for u in self.units(key) if u[1] not in left}
            if got:
                st = st - got
                done.add(id(a))
        return st, done

    CACHE = {}

    def summary(self, g, i):
        """function g, given in parameter i a pointer to an object of which nothing is assigned"""
        k = (id(g), i)
        if k not in Definit.CACHE:
            Definit.CACHE[k] = None        # a recursive call assigns nothing and reads nothing
            Definit.CACHE[k] = Definit(self.P, g, self.nr, i, self.depth + 1)
        return Definit.CACHE[k]

    def reads(self, n, st):
        """&x as an argument: the members of x that the callee reads before it assigns them"""
        g = self.P.func(callee_name(n) or "", self.f.tu)
        if st is None or g is None or g.body is None or self.depth > 3:
            return
        for i, a in enumerate(n.ch[1:]):
            q = strip(a)
            if q.k != "UnaryOperator" or q.v != "&" or i >= len(g.params):
                continue
            q = self.place(q.ch[0])
            if q is None or q[0] in self.arrays or not any(u[0] == q[0] for u in st.U):
                continue
            whole = q[1] is None and q[2]
            d = self.summary(g, i)
            key = ("*", g.params[i].x["id"])
            for u, m, how in (d.hits.values() if d else ()):
                if u[0] == key and how.startswith("read"):
                    self.use(self.units(q[0], u[1] if whole else q[1]), st, n, "read")

    # ---------------------------------------------------------------- objects
    def parts(self, t):
        rec = self.P.record(t[1] if t else None) if t else None
        if rec and rec[0] != "union" and "*" not in t[1] and "[" not in t[1]:
            return [x[0] for x in rec[1]]
        return None

    def declare(self, key, t, name):
        ps = self.parts(t)
        self.names[key] = name
        self.objects[key] = name
        self.recs[key] = ps
        if t and "[" in t[1]:
            self.arrays.add(key)
        return frozenset((key, p) for p in ps) if ps else frozenset([(key, None)])

    def units(self, key, fld=None):
        if key not in self.recs:
            return NONE
        ps = self.recs[key]
        if fld is not None and ps and fld in ps:
            return frozenset([(key, fld)])
        return frozenset((key, p) for p in ps) if ps else frozenset([(key, None)])

    def place(self, n):
        """(key, field, exact): the object an lvalue belongs to; exact = the whole object or field"""
        n = self.paren(n)
        if n.k == "DeclRefExpr":
            i = n.x.get("id")
            return (i, None, True) if i in self.recs else None
        if n.k == "MemberExpr":
            if n.x.get("arrow"):
                q = strip(n.ch[0])
                if q.k == "DeclRefExpr" and ("*", q.x.get("id")) in self.recs:
                    return ("*", q.x["id"]), n.v, True
                return None
            p = self.place(n.ch[0])
            if p is None:
                return None
            if p[1] is None and p[2] and self.recs[p[0]] and n.v in self.recs[p[0]]:
                return p[0], n.v, True
            return p[0], p[1], False
        if n.k == "ArraySubscriptExpr":
            b = n.ch[0]
            while b.k in ("ParenExpr", "ImplicitCastExpr"):
                if b.k == "ImplicitCastExpr" and b.v == "LValueToRValue":
                    return None
                b = b.ch[0]
            p = self.place(b)
            return (p[0], p[1], False) if p else None
        if n.k == "UnaryOperator" and n.v == "*":
            q = strip(n.ch[0])
            if q.k == "DeclRefExpr" and ("*", q.x.get("id")) in self.recs:
                return ("*", q.x["id"]), None, True
        return None

    @staticmethod
    def paren(n):
        while n.k in ("ParenExpr", "ConstantExpr") or n.k == "ImplicitCastExpr" and n.v == "NoOp":
            n = n.ch[0]
        return n

    def hit(self, unit, n, how):
        self.hits.setdefault((unit, id(n)), (unit, n, how))

    def use(self, us, st, n, how="read"):
        if st is None:
            return
        if self.param is not None and any(p.x["id"] in c[1] for c in st.F for j, p in enumerate(self.f.params) if j != self.param):
            return          # depends on the other arguments of the call
        bad = st.live(us)
        if bad and len(bad) == len([u for u in us]) or bad and how == "read" and len(us) == 1:
            for u in bad:
                self.hit(u, n, how)
        elif bad:
            # a structure read as a whole with some members unassigned: unions and flags are legitimately partial
            for u in bad:
                self.hit(u, n, how + " partly")

    # ---------------------------------------------------------------- expressions: state -> state
    def expr(self, n, st):
        if n is None or st is None:
            return st
        k = n.k
        if k in ("UnaryExprOrTypeTraitExpr", "OffsetOfExpr"):
            return st
        if k in ("ParenExpr", "ConstantExpr"):
            return self.expr(n.ch[0], st)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            if n.v == "ToVoid" and self.paren(n.ch[0]).k == "DeclRefExpr" or n.v == "ToVoid" and strip(n.ch[0]).k == "DeclRefExpr":
                return st
            if n.v == "LValueToRValue":
                st = self.operands(n.ch[0], st)
                p = self.place(n.ch[0])
                if p:
                    self.use(self.units(p[0], p[1]), st, n)
                self.escape(n, st)
                return st
            if n.v == "ArrayToPointerDecay":
                p = self.place(n.ch[0])
                st = self.operands(n.ch[0], st)
                # the address of an array: whoever gets it may fill it
                return st - self.units(p[0], p[1]) if p and st is not None else st
            return self.expr(n.ch[0], st)
        if k == "BinaryOperator":
            if n.v == "=":
                st = self.operands(n.ch[0], st)
                r = self.paren(n.ch[1])
                st = self.expr(r, st)
                return self.assign(n.ch[0], r, st)
            if n.v in ("&&", "||"):
                t, e = self.cond(n, st)
                return self.join(t, e)
            if n.v == ",":
                return self.expr(n.ch[1], self.expr(n.ch[0], st))
            if n.v in ("-", "==", "!=", "<", ">", "<=", ">="):
                # a comparison of addresses reads nothing
                self.through = self.through | {id(self.paren(c)) for c in n.ch if c.t and "*" in c.t[1]}
            return self.expr(n.ch[1], self.expr(n.ch[0], st))
        if k == "CompoundAssignOperator" or k == "UnaryOperator" and n.v in ("++", "--"):
            st = self.operands(n.ch[0], st)
            if len(n.ch) > 1:
                st = self.expr(n.ch[1], st)
            p = self.place(n.ch[0])
            if p:
                self.use(self.units(p[0], p[1]), st, n)
                st = st - self.units(p[0], p[1]) if st is not None else st
            q = self.paren(n.ch[0])
            return st.forget(q.x.get("id")) if st is not None and q.k == "DeclRefExpr" else st
        if k == "UnaryOperator" and n.v == "&":
            st = self.operands(n.ch[0], st)
            p = self.place(n.ch[0])
            return st - self.units(p[0], p[1]) if p and st is not None else st
        if k == "ConditionalOperator":
            t, e = self.cond(n.ch[0], st)
            return self.join(self.expr(n.ch[1], t), self.expr(n.ch[2], e))
        if k == "CallExpr":
            nm = callee_name(n)
            self.reads(n, st)
            after, done = self.handed(n, st)
            for c in n.ch:
                if id(c) not in done:
                    st = self.expr(c, st)
            if done and st is not None:
                st = self.handed(n, st)[0]
            if nm:
                g = self.P.func(nm, self.f.tu)
                if nm in NORETURN or g in self.nr:
                    return None
            return st
        if k == "StmtExpr":
            return self.stmt(n.ch[0], st)
        if k in ("MemberExpr", "ArraySubscriptExpr", "DeclRefExpr"):
            return self.operands(n, st)
        for c in n.ch:
            st = self.expr(c, st)
        return st

    def escape(self, n, st):
        """the value of a pointer to a heap object is taken for something else than an access through it"""
        q = self.paren(n.ch[0])
        if q.k == "DeclRefExpr":
            key = ("*", q.x.get("id"))
            if key in self.recs and id(n) not in self.through and st is not None:
                self.use(self.units(key), st, n, "escapes")

    through = frozenset()

    def operands(self, n, st):
        n = self.paren(n)
        if n.k == "DeclRefExpr":
            return st
        if n.k == "MemberExpr" or n.k == "UnaryOperator" and n.v == "*":
            if n.k == "MemberExpr" and not n.x.get("arrow"):
                return self.operands(n.ch[0], st)
            q = n.ch[0]
            while q.k in ("ParenExpr",):
                q = q.ch[0]
            if q.k == "ImplicitCastExpr":
                self.through = self.through | {id(q)}
            return self.expr(n.ch[0], st)
        if n.k == "ArraySubscriptExpr":
            b = n.ch[0]
            if b.k == "ImplicitCastExpr" and b.v == "ArrayToPointerDecay":
                st = self.operands(b.ch[0], st)
            else:
                if b.k == "ImplicitCastExpr":
                    self.through = self.through | {id(b)}
                st = self.expr(b, st)
            return self.expr(n.ch[1], st)
        return self.expr(n, st)

    def assign(self, l, r, st):
        if st is None:
            return None
        p = self.place(l)
        if p:
            # a compound store to part of a member counts for the member
            st = st - self.units(p[0], p[1])
        q = self.paren(l)
        base = q
        while base.k == "MemberExpr" and not base.x.get("arrow"):
            base = self.paren(base.ch[0])
        if base.k == "DeclRefExpr":
            st = st.forget(base.x.get("id"))
        if q.k == "DeclRefExpr":
            st = self.alloc(q.x.get("id"), q, r, st)
            st = self.flag(q.x.get("id"), r, st)
        return st

    def flag(self, i, r, st):
        c = self.const(r)
        if c is not None and st is not None and i not in self.aliased and i in self.autos:
            st = st.know("v%s" % i, bool(c), frozenset([i]))
        return st

    def alloc(self, i, n, r, st):
        """pointer variable i takes the value of r: a single fresh object, or something else"""
        c = strip(r)
        key = ("*", i)
        if st is not None and c.k == "CallExpr" and callee_name(c) in ALLOCATORS:
            a = strip(c.ch[1])
            t = n.t
            if a.k == "UnaryExprOrTypeTraitExpr" and t and t[0].endswith("*"):
                pt = (t[0][:-1].strip(), t[1][:-1].strip())
                return st | self.declare(key, pt, "*" + n.v)
        if st is not None and appended(r):
            t = n.t
            pt = (t[0].rstrip()[:-1].strip(), t[1].rstrip()[:-1].strip())
            self.appends.add(key)
            return st | self.declare(key, pt, "element " + n.v)
        if key in self.recs and st is not None:
            st = st - self.units(key)
        return st

    # ---------------------------------------------------------------- statements
    def const(self, n):
        n = strip(n)
        return int(n.v) if n.k == "IntegerLiteral" else None

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        U = {}
        for x, y in ((a, b), (b, a)):
            only = frozenset((c, v) for c, v in x.F.items() if y.F.get(c) is (not v))
            for u, t in x.U.items():
                if u in y.U:
                    U[u] = t & y.U[u]
                elif u[0] not in self.arrays:
                    U[u] = t | only
        return State(U, {c: v for c, v in a.F.items() if y_is(b.F, c, v)})

    def cond(self, n, st):
        """states when n is true and when it is false"""
        n = self.paren(n)
        if st is None:
            return None, None
        if n.k == "BinaryOperator" and n.v == "&&":
            t, e = self.cond(n.ch[0], st)
            t2, e2 = self.cond(n.ch[1], t)
            return t2, self.join(e, e2)
        if n.k == "BinaryOperator" and n.v == "||":
            t, e = self.cond(n.ch[0], st)
            t2, e2 = self.cond(n.ch[1], e)
            return self.join(t, t2), e2
        if n.k == "UnaryOperator" and n.v == "!":
            t, e = self.cond(n.ch[0], st)
            return e, t
        s = self.expr(n, st)
        c = self.const(n)
        if c is not None:
            return (s, None) if c else (None, s)
        x = self.text(n)
        if x is not None and s is not None:
            text, names = x
            if s.F.get((text, names)) is True:
                return s, None
            if s.F.get((text, names)) is False:
                return None, s
            return s.know(text, True, names), s.know(text, False, names)
        return s, s

    def text(self, n):
        """a condition made of unaliased locals, members and constants only: its text and its variables"""
        names = set()

        def go(n):
            n = strip(n)
            if n.k == "DeclRefExpr" and n.x.get("rk") in ("VarDecl", "ParmVarDecl"):
                if n.x.get("id") in self.aliased or n.x.get("id") not in self.autos:
                    return None
                names.add(n.x["id"])
                return "v%s" % n.x["id"]
            if n.k in ("IntegerLiteral", "CharacterLiteral"):
                return str(n.v)
            if n.k == "DeclRefExpr" and n.x.get("rk") == "EnumConstantDecl":
                return n.v
            if n.k == "MemberExpr" and not n.x.get("arrow"):
                r = go(n.ch[0])
                return r and "%s.%s" % (r, n.v)
            if n.k == "BinaryOperator" and n.v in ("==", "!=", "<", ">", "<=", ">="):
                a, b = go(n.ch[0]), go(n.ch[1])
                return a and b and "(%s%s%s)" % (a, n.v, b)
            return None
        r = go(n)
        if r is None or not names:
            return None
        if r.startswith("(") and "!=" in r:
            return None
        return r, frozenset(names)

    def stmt(self, n, st):
        if n is None:
            return st
        k = n.k
        if k == "CompoundStmt":
            for c in n.ch:
                st = self.stmt(c, st)
            return st
        if k == "LabelStmt":
            st = self.join(st, self.labels.get(n.v))
            return self.stmt(n.ch[-1], st)
        if k in ("CaseStmt", "DefaultStmt"):
            st = self.join(st, self.sw[-1])
            return self.stmt(n.ch[-1], st)
        if st is None and not any(q.k in ("LabelStmt", "CaseStmt", "DefaultStmt") for q in n.walk()):
            return None
        if k == "DeclStmt":
            for c in n.ch:
                if c is None or c.k != "VarDecl" or (c.x or {}).get("storageClass") in ("static", "extern"):
                    continue
                if c.ch and c.ch[0] is not None and any(q is not None for q in c.ch):
                    for q in c.ch:
                        st = self.expr(q, st)
                    if st is not None:
                        st = (st - self.units(c.x["id"])).forget(c.x["id"])
                        st = self.alloc(c.x["id"], c, [q for q in c.ch if q is not None][-1], st)
                        st = self.flag(c.x["id"], [q for q in c.ch if q is not None][-1], st)
                elif st is not None and c.t and "va_list" not in c.t[0]:
                    st = st | self.declare(c.x["id"], c.t, c.v)
            return st
        if k == "IfStmt":
            t, e = self.cond(n.ch[0], st)
            a = self.stmt(n.ch[1], t)
            b = self.stmt(n.ch[2], e) if len(n.ch) > 2 else e
            return self.join(a, b)
        if k in ("WhileStmt", "ForStmt", "DoStmt"):
            if k == "ForStmt":
                st = self.stmt(n.ch[0], st)
                c, inc, body = n.ch[2], n.ch[3], n.ch[4]
            elif k == "WhileStmt":
                c, inc, body = n.ch[0], None, n.ch[1]
            else:
                c, inc, body = n.ch[1], None, n.ch[0]
            self.brk.append(None)
            self.cont.append(None)
            for q in n.walk():
                if st is not None and (q.k == "BinaryOperator" and q.v == "=" or q.k == "CompoundAssignOperator" or q.k == "UnaryOperator" and q.v in ("++", "--")):
                    b = self.paren(q.ch[0])
                    while b.k == "MemberExpr" and not b.x.get("arrow"):
                        b = self.paren(b.ch[0])
                    if b.k == "DeclRefExpr":
                        st = st.forget(b.x.get("id"))
            entry = st
            if k == "DoStmt":
                s = self.stmt(body, entry)
                s = self.join(s, self.cont[-1])
                t, e = self.cond(c, s)
                out = e
            else:
                t, e = self.cond(c, entry) if c is not None else (entry, None)
                s = self.stmt(body, t)
                s = self.join(s, self.cont[-1])
                if inc is not None:
                    s = self.expr(inc, s)
                out = e
                if e is not None and s is not None:
                    # an array filled by the loop counts as filled
                    out = e - {u for u in e.U if u not in s.U and u[0] in self.arrays}
            out = self.join(out, self.brk.pop())
            self.cont.pop()
            return out
        if k == "SwitchStmt":
            st = self.expr(n.ch[0], st)
            body = n.ch[-1]
            self.brk.append(None)
            if not hasattr(self, "sw"):
                self.sw = []
            self.sw.append(st)
            s = self.stmt(body, None)
            self.sw.pop()
            labs = [q for q in body.walk() if q.k in ("CaseStmt", "DefaultStmt")]
            full = any(q.k == "DefaultStmt" for q in labs)
            if not full:
                names = {x.v for q in labs for x in q.ch[0].walk() if x.k == "DeclRefExpr" and x.x.get("rk") == "EnumConstantDecl"}
                if names:
                    full = set(self.P.enum_of.get(next(iter(names)), [None])) <= names
            b = self.brk.pop()
            s = self.join(s, b)
            return s if full else self.join(s, st)
        if k == "BreakStmt":
            self.brk[-1] = self.join(self.brk[-1], st)
            return None
        if k == "ContinueStmt":
            self.cont[-1] = self.join(self.cont[-1], st)
            return None
        if k == "GotoStmt":
            if st is not None:
                self.pending[n.v] = self.join(self.pending.get(n.v), st)
            return None
        if k == "ReturnStmt":
            for c in n.ch:
                r = strip(c) if c is not None else None
                if r is not None and r.k == "CallExpr" and callee_name(r) in ALLOCATORS and strip(r.ch[1]).k == "UnaryExprOrTypeTraitExpr":
                    self.hit((("new",), None), n, "escapes")
                st = self.expr(c, st)
            self.leave(st, n)
            return None
        if k in ("NullStmt", "StaticAssertDecl"):
            return st
        return self.expr(n, st)
