"""Interprocedural, flow-sensitive dataflow over the syntax tree for objects of static storage duration (field-sensitive at the first
level). Each function is compiled to a tree of reads, writes, releases, calls and control structure; a state is a set (bit mask) of abstract
values per object and functions are summarised per entry value."""
from front import AnalysisError, callee_name, locs

I, C, S, F = 1, 2, 4, 8          # initial value; written since; left over from the previous iteration; released
NAMES = {I: "initial", C: "current", S: "stale", F: "released"}
NORETURN = {"exit", "abort", "_Exit", "__assert_fail", "longjmp"}
# external functions that only write through the given argument
WRITERS = {"fread": {0}, "memset": {0}, "strcpy": {0}, "snprintf": {0}, "sprintf": {0}, "vsnprintf": {0}, "fgets": {0}, "memcpy": {0}, "memmove": {0},
           "strftime": {0}, "localtime_r": {1}, "time": {0}}
EXTERN_STORE = {"strtol": set(), }


def strip(n):
    while n.k in ("ParenExpr", "ConstantExpr") or n.k in ("ImplicitCastExpr", "CStyleCastExpr"):
        n = n.ch[0]
    return n


class Flow:
    def __init__(self, P, track=()):
        """track: record types ("struct arguments") whose members, reached through any pointer, are treated as objects too"""
        self.P, self.track = P, set(track)
        self.vars = {}                # key -> declaration
        self.tops = {}                # tu -> {decl id: key}
        for tu, ns in P.tus.items():
            d = self.tops[tu] = {}
            for n in ns:
                if n.k == "VarDecl":
                    st = (n.x or {}).get("storageClass")
                    key = (tu, n.v) if st == "static" else ("", n.v)
                    d[n.x["id"]] = key
                    if key not in self.vars or n.ch:
                        self.vars[key] = n
        self.trees, self.locals = {}, {}
        self.taken = {}               # function type -> functions whose address is taken
        self.fdecl = {}
        for f in P.all_funcs:
            self.fdecl.setdefault(f.name, []).append(f)
        for f in P.all_funcs:
            if f.body is not None:
                self.trees[f] = None
        for f in list(self.trees):
            self._locals(f)
        for tu, ns in P.tus.items():
            for n in ns:
                if n.k == "VarDecl":
                    self._taken(n, tu)
        for f in list(self.trees):
            self._taken(f.body, f.tu)
        for f in list(self.trees):
            self.trees[f] = self.stmt(f.body, f)
        # an array of parameters' writes-only property is resolved lazily
        self.calls = {f: set() for f in self.trees}
        self.uses = {f: set() for f in self.trees}
        for f, t in self.trees.items():
            self._collect(t, f)

    # ------------------------------------------------------------ names
    def _locals(self, f):
        d = {}
        for n in f.node.walk():
            if n.k in ("VarDecl", "ParmVarDecl"):
                st = (n.x or {}).get("storageClass")
                if st == "static":
                    key = (f.tu, f.name + "." + n.v)
                    self.vars[key] = n
                    d[n.x["id"]] = key
                elif st == "extern":
                    d[n.x["id"]] = ("", n.v)
                else:
                    d[n.x["id"]] = None
        self.locals[f] = d

    def key(self, n, f):
        """the key of a DeclRefExpr of a tracked object, or None"""
        if n.x.get("rk") not in ("VarDecl",):
            return None
        d = self.locals[f]
        if n.x["id"] in d:
            return d[n.x["id"]]
        k = self.tops.get(f.tu, {}).get(n.x["id"])
        if k is not None:
            return k
        if (f.tu, n.v) in self.vars:
            return (f.tu, n.v)
        return ("", n.v) if ("", n.v) in self.vars else None

    def _taken(self, n, tu):
        callees = set()
        for q in n.walk():
            if q.k == "CallExpr":
                callees.add(id(strip(q.ch[0])))
        for q in n.walk():
            if q.k == "DeclRefExpr" and q.x.get("rk") == "FunctionDecl" and id(q) not in callees:
                g = self.P.func(q.v, tu)
                if g is not None and g in self.trees:
                    self.taken.setdefault(self.ftype(g.node.t[1]), set()).add(g)

    @staticmethod
    def ftype(t):
        return t.replace("(*)", "").replace(" ", "").replace("struct", "").replace("const", "")

    # ------------------------------------------------------------ access paths
    def acc(self, n, f):
        """(key, field or None, whole) when n designates (part of) a tracked object"""
        n = self.noparen(n)
        if n.k == "DeclRefExpr":
            k = self.key(n, f)
            return (k, None, True) if k is not None else None
        if n.k == "MemberExpr":
            b = n.ch[0]
            if n.x["arrow"]:
                t = (b.t[1] or "").replace("const ", "").strip().rstrip("*").strip()
                if t in self.track:
                    return (("", t), n.v, True)
                return None
            t = (b.t[1] or "").replace("const ", "").strip()
            if t in self.track:
                return (("", t), n.v, True)
            a = self.acc(b, f)
            if a is None:
                return None
            if a[1] is None and a[2]:
                return (a[0], n.v, True)
            return (a[0], a[1], False)
        if n.k == "ArraySubscriptExpr":
            b = self.noparen(n.ch[0])
            if b.k == "ImplicitCastExpr" and b.v == "ArrayToPointerDecay":
                a = self.acc(b.ch[0], f)
                return (a[0], a[1], False) if a else None
            return None
        return None

    @staticmethod
    def noparen(n):
        while n.k in ("ParenExpr", "ConstantExpr"):
            n = n.ch[0]
        return n

    def units(self, a, n):
        """(key, field) units of an access"""
        key, fld, whole = a
        if fld is not None:
            return [(key, fld)]
        v = self.vars.get(key)
        r = self.P.record(v.t[1]) if v is not None and v.t else None
        if r and r[1]:
            return [(key, x[0]) for x in r[1] if x[0]] or [(key, None)]
        return [(key, None)]

    def const(self, n):
        """constant value of an initialiser: 0 for null/zero/empty, an int, ("str", s), or None"""
        n = self.noparen(n)
        if n.k == "BinaryOperator" and n.v in ("=", ","):
            return self.const(n.ch[1])
        if n.k in ("ImplicitCastExpr", "CStyleCastExpr"):
            if n.v in ("FloatingToIntegral",):
                return None
            return self.const(n.ch[0])
        if n.k in ("IntegerLiteral", "CharacterLiteral"):
            return int(n.v)
        if n.k == "UnaryOperator" and n.v == "-":
            c = self.const(n.ch[0])
            return -c if isinstance(c, int) else None
        if n.k == "StringLiteral":
            return ("str", n.v)
        if n.k == "DeclRefExpr" and n.x.get("rk") == "EnumConstantDecl":
            return self.P.enums.get(n.v)
        if n.k == "DeclRefExpr" and n.x.get("rk") == "FunctionDecl":
            return ("fn", n.v)
        if n.k == "CompoundLiteralExpr":
            return self.const(n.ch[0])
        if n.k == "InitListExpr":
            return {} if all(c is None or c.k == "ImplicitValueInitExpr" or self.const(c) in (0, {}) for c in n.ch) else None
        if n.k == "ImplicitValueInitExpr":
            return 0
        return None

    def initial(self, unit):
        key, fld = unit
        v = self.vars.get(key)
        if v is None:
            return None
        if not v.ch or v.ch[0] is None:
            return 0
        c = self.const(v.ch[-1])
        if fld is not None:
            return 0 if c in (0, {}) and not isinstance(c, bool) else ("?",)
        return c if c is not None else ("?",)

    # ------------------------------------------------------------ expressions
    def read(self, a, n):
        return [("r", u, n) for u in self.units(a, n)]

    def write(self, a, n, val=None):
        """val: constant assigned or None"""
        r = []
        for u in self.units(a, n):
            part = not a[2]
            v = val
            if a[1] is None and isinstance(v, dict):
                v = 0
            r.append(("w", u, n, part, v))
        return r

    def expr(self, n, f):
        """operations of evaluating n"""
        if n is None:
            return []
        k = n.k
        if k in ("ParenExpr", "ConstantExpr"):
            return self.expr(n.ch[0], f)
        if k in ("UnaryExprOrTypeTraitExpr", "OffsetOfExpr", "IntegerLiteral", "StringLiteral", "CharacterLiteral", "FloatingLiteral", "ImplicitValueInitExpr", "PredefinedExpr"):
            return []
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            if n.v == "LValueToRValue":
                a = self.acc(n.ch[0], f)
                r = self.lval(n.ch[0], f)
                return r + (self.read(a, n) if a else [])
            if n.v == "ArrayToPointerDecay":
                a = self.acc(n.ch[0], f)
                return self.lval(n.ch[0], f) + (self.read(a, n) if a else [])
            return self.expr(n.ch[0], f)
        if k == "BinaryOperator":
            if n.v == "=":
                a = self.acc(n.ch[0], f)
                r = self.lval(n.ch[0], f) + self.expr(n.ch[1], f)
                return r + (self.write(a, n, self.const(n.ch[1])) if a else [])
            if n.v in ("&&", "||"):
                t, e = self.cond(n.ch[0], f)
                return self.expr(n.ch[0], f) + [("br", [("seq", self.expr(n.ch[1], f)), ("seq", [])], (t, e) if n.v == "&&" else (e, t))]
            return self.expr(n.ch[0], f) + self.expr(n.ch[1], f)
        if k == "CompoundAssignOperator":
            a = self.acc(n.ch[0], f)
            r = self.lval(n.ch[0], f) + self.expr(n.ch[1], f)
            return r + (self.read(a, n) + self.write(a, n) if a else [])
        if k == "UnaryOperator":
            if n.v in ("++", "--"):
                a = self.acc(n.ch[0], f)
                return self.lval(n.ch[0], f) + (self.read(a, n) + self.write(a, n) if a else [])
            if n.v == "&":
                a = self.acc(n.ch[0], f)
                return self.lval(n.ch[0], f) + (self.read(a, n) + self.write((a[0], a[1], False), n) if a else [])
            return self.expr(n.ch[0], f)
        if k == "ConditionalOperator":
            return self.expr(n.ch[0], f) + [("br", [("seq", self.expr(n.ch[1], f)), ("seq", self.expr(n.ch[2], f))], self.cond(n.ch[0], f))]
        if k == "CallExpr":
            return self.call(n, f)
        if k == "StmtExpr":
            return [self.stmt(n.ch[0], f)]
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"):
            a = self.acc(n, f)
            return self.lval(n, f) + (self.read(a, n) if a else [])
        r = []
        for c in n.ch:
            r += self.expr(c, f)
        return r

    def lval(self, n, f):
        """operations of evaluating the operands of an lvalue (not the access itself)"""
        n = self.noparen(n)
        if n.k == "DeclRefExpr":
            return []
        if n.k == "MemberExpr":
            return self.lval(n.ch[0], f) if not n.x["arrow"] else self.expr(n.ch[0], f)
        if n.k == "ArraySubscriptExpr":
            b = self.noparen(n.ch[0])
            if b.k == "ImplicitCastExpr" and b.v == "ArrayToPointerDecay":
                return self.lval(b.ch[0], f) + self.expr(n.ch[1], f)
            return self.expr(n.ch[0], f) + self.expr(n.ch[1], f)
        if n.k == "UnaryOperator" and n.v == "*":
            return self.expr(n.ch[0], f)
        return self.expr(n, f)

    def call(self, n, f):
        nm = callee_name(n)
        r, tail = [], []
        if nm is None:
            r += self.expr(n.ch[0], f)
        g = self.P.func(nm, f.tu) if nm else None
        for i, x in enumerate(n.ch[1:]):
            y = strip(x)
            tgt = None
            if y.k == "UnaryOperator" and y.v == "&":
                tgt = y.ch[0]
            else:
                z = x
                while z.k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr") and z.v != "ArrayToPointerDecay" and z.v != "LValueToRValue":
                    z = z.ch[0]
                if z.k == "ImplicitCastExpr" and z.v == "ArrayToPointerDecay":
                    tgt = z.ch[0]
            if nm == "free":
                z = x
                while z.k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr") and z.v != "LValueToRValue":
                    z = z.ch[0]
                a = self.acc(z.ch[0], f) if z.v == "LValueToRValue" else None
                if a and a[2]:
                    r += self.lval(z.ch[0], f)
                    tail += [("f", u, n) for u in self.units(a, n)]
                    continue
            a = self.acc(tgt, f) if tgt is not None else None
            if a is None:
                r += self.expr(x, f)
                continue
            r += self.lval(tgt, f)
            if self.writes_only(nm, g, i, set()):
                tail += self.write(a, n) if a[2] else [("w", u, n, True, None) for u in self.units(a, n)]
            else:
                r += [("r", u, n) for u in self.units(a, n)]
                if not self.reads_only(nm, g, i):
                    tail += [("w", u, n, True, None) for u in self.units(a, n)]
        if nm is not None:
            if g is not None and g in self.trees:
                r.append(("call", [g], n, None))
            elif nm in NORETURN or nm.startswith("impl_error"):
                r.append(("dead",))
        else:
            t = self.noparen(n.ch[0])
            while t.k in ("ImplicitCastExpr", "ParenExpr") and t.v != "LValueToRValue":
                t = t.ch[0]
            gs = self.taken.get(self.ftype(t.t[1]), set())
            a = self.acc(t.ch[0], f) if t.k == "ImplicitCastExpr" and t.v == "LValueToRValue" else None
            via = self.units(a, n)[0] if a and a[2] and len(self.units(a, n)) == 1 else None
            r.append(("call", sorted(gs, key=lambda g: (g.tu, g.name)), n, via))
        return r + tail

    def reads_only(self, nm, g, i):
        p = None
        if g is not None and i < len(g.params):
            p = g.params[i].t[1]
        elif nm in ("memcmp", "strcmp", "strlen", "strncmp", "printf", "fprintf", "fwrite"):
            return True
        return p is not None and p.startswith("const ")

    def writes_only(self, nm, g, i, seen):
        if g is None or g.body is None:
            return nm in WRITERS and i in WRITERS[nm]
        if (g, i) in seen or i >= len(g.params):
            return False
        seen = seen | {(g, i)}
        p = g.params[i].x["id"]
        ok = False
        parent = {}
        for q in g.body.walk():
            for c in q.ch:
                if c is not None:
                    parent[id(c)] = q
        for q in g.body.walk():
            if q.k == "DeclRefExpr" and q.x.get("id") == p:
                r = parent.get(id(q))
                cur = q
                while r is not None and r.k in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"):
                    cur, r = r, parent.get(id(r))
                if r is not None and r.k == "CallExpr" and cur is not r.ch[0]:
                    j = [x is cur for x in r.ch[1:]].index(True)
                    h = callee_name(r)
                    if self.writes_only(h, self.P.func(h, g.tu) if h else None, j, seen):
                        ok = True
                        continue
                return False
        return ok

    # ------------------------------------------------------------ statements
    def stmt(self, n, f):
        if n is None:
            return ("seq", [])
        k = n.k
        if k == "CompoundStmt":
            return ("seq", [self.stmt(c, f) for c in n.ch])
        if k == "DeclStmt":
            r = []
            for c in n.ch:
                if c is not None and c.k == "VarDecl" and (c.x or {}).get("storageClass") not in ("static", "extern"):
                    for q in c.ch:
                        if q is not None:
                            r += self.expr(q, f)
            return ("seq", r)
        if k == "IfStmt":
            return ("seq", self.expr(n.ch[0], f) + [("br", [self.stmt(n.ch[1], f), self.stmt(n.ch[2], f) if len(n.ch) > 2 else ("seq", [])], self.cond(n.ch[0], f))])
        if k == "WhileStmt":
            return ("loop", ("seq", self.expr(n.ch[0], f)), self.stmt(n.ch[1], f), ("seq", []), self.true(n.ch[0]), self.cond(n.ch[0], f))
        if k == "DoStmt":
            return ("do", self.stmt(n.ch[0], f), ("seq", self.expr(n.ch[1], f)))
        if k == "ForStmt":
            c = n.ch
            return ("seq", [self.stmt(c[0], f), ("loop", ("seq", self.expr(c[2], f)), self.stmt(c[4], f), ("seq", self.expr(c[3], f)), c[2] is None or self.true(c[2]), self.cond(c[2], f))])
        if k == "SwitchStmt":
            return self.switch(n, f)
        if k == "LabelStmt":
            return ("seq", [("label", n.v), self.stmt(n.ch[-1], f)])
        if k in ("CaseStmt", "DefaultStmt"):
            return self.stmt(n.ch[-1], f)
        if k == "BreakStmt":
            return ("break",)
        if k == "ContinueStmt":
            return ("cont",)
        if k == "ReturnStmt":
            return ("seq", (self.expr(n.ch[0], f) if n.ch else []) + [("ret",)])
        if k == "GotoStmt":
            return ("goto", n.v)
        if k in ("NullStmt", "StaticAssertDecl"):
            return ("seq", [])
        return ("seq", self.expr(n, f))

    def cond(self, n, f):
        """what is known of tracked objects when n is true and when it is false: two lists of (unit, value, equal)"""
        if n is None:
            return [], []
        n = self.noparen(n)
        if n.k == "ImplicitCastExpr" and n.v == "LValueToRValue":
            a = self.acc(n.ch[0], f)
            if a and a[2]:
                u = self.units(a, n)
                if len(u) == 1:
                    return [(u[0], 0, False)], [(u[0], 0, True)]
            return [], []
        if n.k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.cond(n.ch[0], f)
        if n.k == "UnaryOperator" and n.v == "!":
            t, e = self.cond(n.ch[0], f)
            return e, t
        if n.k == "BinaryOperator" and n.v == "&&":
            (t1, _), (t2, _) = self.cond(n.ch[0], f), self.cond(n.ch[1], f)
            return t1 + t2, []
        if n.k == "BinaryOperator" and n.v == "||":
            (_, e1), (_, e2) = self.cond(n.ch[0], f), self.cond(n.ch[1], f)
            return [], e1 + e2
        if n.k == "BinaryOperator" and n.v in ("==", "!=", ">"):
            c = self.const(n.ch[1])
            x = strip(n.ch[0])
            a = self.acc(x, f) if x.k in ("DeclRefExpr", "MemberExpr") else None
            if a and a[2] and isinstance(c, int) and (n.v != ">" or c == 0):
                u = self.units(a, n)
                if len(u) == 1:
                    if n.v == ">":
                        unsigned = "unsigned" in (x.t[1] or "")
                        return [(u[0], 0, False)], [(u[0], 0, True)] if unsigned else []
                    r = [(u[0], c, True)], [(u[0], c, False)]
                    return r if n.v == "==" else (r[1], r[0])
        return [], []

    def true(self, n):
        return isinstance(self.const(n), int) and self.const(n) != 0

    def switch(self, n, f):
        body = n.ch[-1]
        flat, labs, dflt = [], set(), False
        sub = None
        x = strip(n.ch[0])
        if x.k in ("DeclRefExpr", "MemberExpr"):
            a = self.acc(x, f)
            if a and a[2] and len(self.units(a, n)) == 1:
                sub = self.units(a, n)[0]

        def go(s):
            nonlocal dflt
            lab = []
            while s.k in ("CaseStmt", "DefaultStmt"):
                if s.k == "DefaultStmt":
                    dflt = True
                    lab.append("default")
                else:
                    c = self.const(s.ch[0])
                    lab.append(c if isinstance(c, int) else "?")
                    q = s.ch[0]
                    names = [x.v for x in q.walk() if x.k == "DeclRefExpr" and x.x.get("rk") == "EnumConstantDecl"]
                    labs.update(names[:1])
                s = s.ch[-1]
            flat.append((lab, self.stmt(s, f)))
        for s in (body.ch if body.k == "CompoundStmt" else [body]):
            go(s)
        full = dflt
        if labs and not dflt:
            one = next(iter(labs))
            full = set(self.P.enum_of.get(one, [None])) <= labs
        return ("seq", self.expr(n.ch[0], f) + [("switch", flat, full, sub)])

    # ------------------------------------------------------------ call graph
    def ops(self, t):
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, list):
                st += x
            elif isinstance(x, tuple):
                k = x[0]
                if k in ("seq", "br"):
                    st += x[1]
                elif k == "loop":
                    st += [x[1], x[2], x[3]]
                elif k == "do":
                    st += [x[1], x[2]]
                elif k == "switch":
                    st += [b for _, b in x[1]]
                else:
                    yield x

    def _collect(self, t, f):
        for x in self.ops(t):
            if x[0] in ("r", "w", "f", "a"):
                self.uses[f].add(x[1])
            elif x[0] == "call":
                self.calls[f] |= set(x[1])

    def reach(self, roots):
        seen, st = set(), list(roots)
        while st:
            f = st.pop()
            if f not in seen:
                seen.add(f)
                st += self.calls[f]
        return seen

    def touching(self, unit):
        rev = {}
        for f, gs in self.calls.items():
            for g in gs:
                rev.setdefault(g, set()).add(f)
        t, st = set(), [f for f in self.trees if unit in self.uses[f]]
        while st:
            f = st.pop()
            if f not in t:
                t.add(f)
                st += rev.get(f, ())
        return t

    def writing(self, unit):
        """functions that may write the unit, and their callers"""
        rev = {}
        for f, gs in self.calls.items():
            for g in gs:
                rev.setdefault(g, set()).add(f)
        t, st = set(), [f for f in self.trees if any(x[0] == "w" and x[1] == unit for x in self.ops(self.trees[f]))]
        while st:
            f = st.pop()
            if f not in t:
                t.add(f)
                st += rev.get(f, ())
        return t

    def never_returns(self):
        """functions no path of which returns"""
        nr = set()
        while True:
            new = {f for f in self.trees if f not in nr and not Solver(self, None, nr).returns(f)}
            if not new:
                return nr
            nr |= new


class Solver:
    """per-unit analysis, optionally in product with a guard unit whose values are constants. A state is a set of pairs (value, guard value),
    encoded as a bit mask. solve(tree, mask) -> mask at the end; .hits: reads of a stale or released value"""
    def __init__(self, flow, unit, noreturn=frozenset(), exempt=lambda op, f: False, guard=None, gvals=()):
        self.flow, self.unit, self.nr, self.exempt = flow, unit, noreturn, exempt
        self.guard, self.gvals = guard, list(gvals)          # the last guard value stands for all others
        self.ng = len(self.gvals) + 1 if guard is not None else 1
        self.init = flow.initial(unit) if unit is not None else None
        self.touch = flow.touching(unit) if unit is not None else set()
        if guard is not None:
            self.touch = self.touch | flow.writing(guard)
        self.tab, self.hits, self.dirty = {}, {}, False
        self.pruned, self.gotos = {}, {}

    # masks
    def all(self, v):
        return sum(v << 4 * g for g in range(self.ng))

    def at(self, v, val):
        return v << 4 * self.gi(val)

    def gi(self, val):
        return self.gvals.index(val) if val in self.gvals else self.ng - 1

    def vals(self, m):
        r = 0
        while m:
            r |= m & 15
            m >>= 4
        return r

    def mapv(self, m, fn):
        r, g = 0, 0
        while m:
            x = m & 15
            for b in (1, 2, 4, 8):
                if x & b:
                    r |= fn(b) << 4 * g
            m >>= 4
            g += 1
        return r

    def refine(self, m, facts):
        for u, val, eq in facts:
            if u == self.unit and self.init is not None and val == self.init:
                if eq:
                    m = self.mapv(m, lambda b: b if b == F else I)
                else:
                    m = self.mapv(m, lambda b: 0 if b == I else b)
            if u == self.guard and self.guard is not None:
                g = self.gi(val)
                if val in self.gvals:
                    m = m & (15 << 4 * g) if eq else m & ~(15 << 4 * g)
                elif eq:
                    m = m & (15 << 4 * g)
        return m

    def returns(self, f):
        self.touch = set()
        return bool(self.fn(f, C, direct=True))

    def prune(self, t):
        """drop what cannot affect the unit, the guard or control flow"""
        k = t[0]
        if k == "seq":
            r = [self.prune(x) for x in t[1]]
            r = [x for x in r if x is not None]
            return r[0] if len(r) == 1 else ("seq", r) if r else None
        if k in ("r", "w", "f", "a"):
            return t if t[1] == self.unit or t[1] == self.guard else None
        if k == "call":
            if any(g in self.touch or g in self.nr for g in t[1]):
                return t
            return None
        if k == "br":
            r = [self.prune(x) for x in t[1]]
            if all(x is None for x in r):
                return None
            return ("br", [x or ("seq", []) for x in r], t[2])
        if k == "loop":
            e = ("seq", [])
            a, b, c = self.prune(t[1]), self.prune(t[2]), self.prune(t[3])
            if a is None and c is None and (b is None or b in (("break",), ("cont",))) and not t[4]:
                return None
            return ("loop", a or e, b or e, c or e, t[4], t[5])
        if k == "do":
            e = ("seq", [])
            return ("do", self.prune(t[1]) or e, self.prune(t[2]) or e)
        if k == "switch":
            r = [(lab, self.prune(x)) for lab, x in t[1]]
            if all(x is None or x == ("break",) for _, x in r):
                return None
            return ("switch", [(lab, x or ("seq", [])) for lab, x in r], t[2], t[3])
        return t

    def fn(self, f, mask, direct=False):
        """mask at return of f entered with mask"""
        if not direct:
            if f in self.nr:
                return 0
            if f not in self.touch:
                return mask
        out, b = 0, 1
        while b <= mask:
            if mask & b:
                k = (f, b)
                if k not in self.tab:
                    self.tab[k] = 0
                    self.compute(k)
                out |= self.tab[k]
            b <<= 1
        return out

    def compute(self, k):
        f, b = k
        if f not in self.pruned:
            self.pruned[f] = self.prune(self.flow.trees[f]) or ("seq", [])
        e = self.ev(self.pruned[f], b, f)
        new = e[0] | e[3]
        if new | self.tab[k] != self.tab[k]:
            self.tab[k] |= new
            self.dirty = True

    def solve(self, tree, mask, f):
        """fixpoint; the mask after tree entered with mask"""
        t = self.prune(tree) or ("seq", [])
        while True:
            self.dirty = False
            e = self.ev(t, mask, f)
            for k in list(self.tab):
                self.compute(k)
            if not self.dirty:
                return e[0] | e[2]

    def hit(self, t, m, f):
        v = self.vals(m) & (S | F)
        if v and not self.exempt(t, f):
            self.hits.setdefault((f, id(t[2])), [f, t[2], 0])[2] |= v

    def ev(self, t, m, f):
        """(normal, break, continue, return) masks"""
        if not m:
            return (0, 0, 0, 0)
        k = t[0]
        if k == "seq":
            br = co = re = 0
            for x in t[1]:
                n, b, c, r = self.ev(x, m, f)
                br, co, re, m = br | b, co | c, re | r, n
                if not m:
                    break
            return (m, br, co, re)
        if k == "r":
            if t[1] == self.unit:
                self.hit(t, m, f)
            return (m, 0, 0, 0)
        if k == "w":
            if t[1] == self.unit:
                _, u, n, part, val = t
                v = I if val is not None and not isinstance(val, dict) and val == self.init else C
                m = m | self.mapv(m, lambda b: C) if part else self.mapv(m, lambda b: v)
            elif t[1] == self.guard:
                v = self.vals(m)
                m = v << 4 * self.gi(t[4]) if t[4] is not None and not t[3] else sum(v << 4 * g for g in range(self.ng))
            return (m, 0, 0, 0)
        if k == "f":
            return (self.mapv(m, lambda b: F) if t[1] == self.unit else m, 0, 0, 0)
        if k == "call":
            if t[3] is not None and t[3] == self.guard:
                out = 0
                for g in t[1]:
                    v = ("fn", g.name)
                    if v in self.gvals:
                        out |= self.fn(g, m & (15 << 4 * self.gi(v)))
                x = m & (15 << 4 * (self.ng - 1))
                if x:
                    for g in t[1]:
                        out |= self.fn(g, x)
                return (out, 0, 0, 0)
            out = 0
            for g in t[1]:
                out |= self.fn(g, m)
            return (out, 0, 0, 0)
        if k == "br":
            n = b = c = r = 0
            for x, facts in zip(t[1], t[2]):
                e = self.ev(x, self.refine(m, facts), f)
                n, b, c, r = n | e[0], b | e[1], c | e[2], r | e[3]
            return (n, b, c, r)
        if k == "loop":
            head, out, re = m, 0, 0
            while True:
                c0 = self.ev(t[1], head, f)
                if not t[4]:
                    out |= self.refine(c0[0], t[5][1])
                b = self.ev(t[2], self.refine(c0[0], t[5][0]), f)
                out |= b[1]
                re |= b[3] | c0[3]
                i = self.ev(t[3], b[0] | b[2], f)
                if head | i[0] == head:
                    return (out, 0, 0, re)
                head |= i[0]
        if k == "do":
            head, out, re = m, 0, 0
            while True:
                b = self.ev(t[1], head, f)
                c0 = self.ev(t[2], b[0] | b[2], f)
                out |= b[1] | c0[0]
                re |= b[3] | c0[3]
                if head | c0[0] == head:
                    return (out, 0, 0, re)
                head |= c0[0]
        if k == "switch":
            cur = out = co = re = 0
            sub = t[3] if t[3] in (self.guard, self.unit) and t[3] is not None else None
            rest = m
            if sub is not None:
                for lab, x in t[1]:
                    for l in lab:
                        if isinstance(l, int):
                            rest = self.refine(rest, [(sub, l, False)])
            for lab, x in t[1]:
                for l in lab:
                    cur |= rest if l == "default" else self.refine(m, [(sub, l, True)]) if sub is not None and isinstance(l, int) else m
                e = self.ev(x, cur, f)
                cur, out, co, re = e[0], out | e[1], co | e[2], re | e[3]
            out |= cur
            if not t[2]:
                out |= rest
            return (out, 0, co, re)
        if k == "break":
            return (0, m, 0, 0)
        if k == "cont":
            return (0, 0, m, 0)
        if k == "ret":
            return (0, 0, 0, m)
        if k == "goto":
            o = self.gotos.get((f, t[1]), 0)
            if o | m != o:
                self.gotos[(f, t[1])] = o | m
                self.dirty = True
            return (0, 0, 0, 0)
        if k == "label":
            return (m | self.gotos.get((f, t[1]), 0), 0, 0, 0)
        if k == "dead":
            return (0, 0, 0, 0)
        raise AnalysisError("flow operation %s" % k)
