"""C30 (per-file independence): an interprocedural, flow-sensitive dataflow analysis of every object of static storage duration (structures
field by field) over the loop of main that processes the input files. An object's value is tracked as initial (equal to its static
initialiser), current (written while this file is processed), stale (left over from an earlier file) or released. The state at the end of
the loop body flows back to its head with current turned into stale. Violation: a read that can see a stale or released value - what the
compiler does for a file then depends on the files before it. Branches on constants and on other static flags are followed (the analysis is
repeated in product with each flag and each function pointer of the program, and a read is reported only if no product excludes it).

Not counted as dependence: the storage and capacity of growable arrays and scratch buffers (their logical size is tracked), counters that
only supply fresh numbers, the table that interns types (C32 decides that it is a function of its key), arrays that are only appended to
(the objects handed to the linker, decided by C20), and the token queues of the preprocessor, which are empty at the end of a file."""
from flow import Flow, Solver, I, C, S, F, strip
from front import AnalysisError, callee_name, locs

EXPLANATION = __doc__
FLOORS = {"state": 80, "storage": 20}
ASSUMPTIONS = ["at the end of a translation unit the token queues (objects made of struct token) hold nothing but end-of-file tokens",
               "memory reached through a pointer is fresh if the pointer was assigned during this file",
               "interned types are immutable and a function of their key (C32)"]
# reads that are guarded by properties of the function being emitted, not of global state
LOCAL_READS = {"codegen_get_alloc_preamble": "only emitted for a function for which the value was just computed (same condition on the function node)"}
ALLOC = ("realloc", "cc_realloc")


def loop_of(ctx, Fl):
    P = ctx.P
    main, init = P.need("main"), P.need("preprocessor_init")
    best = None
    for n in main.body.walk():
        if n.k in ("ForStmt", "WhileStmt", "DoStmt"):
            body = n.ch[0] if n.k == "DoStmt" else n.ch[-1]
            t = Fl.stmt(body, main)
            gs = {g for x in Fl.ops(t) if x[0] == "call" for g in x[1]}
            if init in Fl.reach(gs):
                best = (n, body, t, gs)
    if best is None:
        # the loop may live in a helper of main
        for f in Fl.trees:
            if f.file != main.file:
                continue
            for n in f.body.walk():
                if n.k in ("ForStmt", "WhileStmt", "DoStmt"):
                    body = n.ch[0] if n.k == "DoStmt" else n.ch[-1]
                    t = Fl.stmt(body, f)
                    gs = {g for x in Fl.ops(t) if x[0] == "call" for g in x[1]}
                    if init in Fl.reach(gs):
                        return f, n, t, gs
        raise AnalysisError("the loop that processes the input files was not found")
    return main, best[0], best[2], best[3]


def storage(Fl):
    """growable arrays: {pointer unit: capacity units}; expressions that append; helpers that grow what their parameters designate"""
    P = Fl.P
    pairs, appends, local = {}, {}, set()
    grow = {}                        # (function, pointer parameter index) -> capacity parameter index
    for f in Fl.trees:
        ids = {p.x["id"]: i for i, p in enumerate(f.params)}

        def star(n):
            n = strip(n)
            if n.k == "UnaryOperator" and n.v == "*":
                q = strip(n.ch[0])
                if q.k == "DeclRefExpr" and q.x.get("id") in ids:
                    return ids[q.x["id"]]
            return None
        for st in statements(f.body):
            for n in st.walk():
                if n.k == "BinaryOperator" and n.v == "=":
                    c = strip(n.ch[1])
                    if c.k != "CallExpr" or callee_name(c) not in ALLOC:
                        continue
                    a = Fl.acc(n.ch[0], f)
                    if a and a[2]:
                        u = Fl.units(a, n)[0]
                        caps = set()
                        for q in c.ch[2].walk():
                            if q.k in ("DeclRefExpr", "MemberExpr"):
                                b = Fl.acc(q, f)
                                if b and b[2] and len(Fl.units(b, q)) == 1:
                                    caps.add(Fl.units(b, q)[0])
                        pairs.setdefault(u, set()).update(caps)
                        # the whole full expression appends when it also increments a size
                        if any(q.k == "UnaryOperator" and q.v == "++" for q in st.walk()):
                            for q in st.walk():
                                appends[id(q)] = st
                    l = strip(n.ch[0])
                    if not (a and a[2]) and l.k == "DeclRefExpr":
                        # an automatic pointer whose capacity is static: harmless when the storage is reallocated whatever the capacity is
                        guarded = {id(q) for m in st.walk() if m.k == "ConditionalOperator" or (m.k == "BinaryOperator" and m.v in ("&&", "||")) for q in m.walk()}
                        if id(n) not in guarded:
                            sets = {Fl.units(b, m.ch[0])[0] for m in st.walk() if m.k == "BinaryOperator" and m.v == "=" and m is not n
                                    for b in [Fl.acc(m.ch[0], f)] if b and b[2]}
                            for q in c.ch[2].walk():
                                b = Fl.acc(q, f) if q.k in ("DeclRefExpr", "MemberExpr") else None
                                if b and b[2] and Fl.units(b, q)[0] in sets:
                                    local.add(Fl.units(b, q)[0])
                    i = star(n.ch[0])
                    if i is not None:
                        for m in f.body.walk():
                            if m.k == "BinaryOperator" and m.v == "=" and star(m.ch[0]) not in (None, i):
                                grow[(f, i)] = star(m.ch[0])
    for f in Fl.trees:
        for n in f.body.walk():
            if n.k == "CallExpr" and callee_name(n):
                g = P.func(callee_name(n), f.tu)
                for (h, i), j in grow.items():
                    if h is g:
                        us = []
                        for k in (i, j):
                            x = strip(n.ch[1 + k])
                            a = Fl.acc(x.ch[0], f) if x.k == "UnaryOperator" and x.v == "&" else None
                            us.append(Fl.units(a, n)[0] if a and a[2] else None)
                        if None not in us:
                            pairs.setdefault(us[0], set()).add(us[1])
    return pairs, appends, local


def statements(n):
    """full expressions"""
    if n is None:
        return
    if n.k in ("CompoundStmt", "IfStmt", "WhileStmt", "DoStmt", "ForStmt", "SwitchStmt", "CaseStmt", "DefaultStmt", "LabelStmt", "DeclStmt", "ReturnStmt", "VarDecl"):
        for c in n.ch:
            yield from statements(c)
    else:
        yield n


def run(ctx):
    P = ctx.P
    ctx.rule("state", "no read of static-storage state can see a value left over from an earlier input file")
    ctx.rule("storage", "the storage and the capacity of a growable array are reset together, and released storage is not used again")
    Fl = Flow(P, {"struct arguments"})
    nr = Fl.never_returns()
    main, node, body, gs = loop_of(ctx, Fl)
    R = Fl.reach(gs)
    ctx.functions |= {f.name for f in R}
    ops = [(x, main) for x in Fl.ops(body)] + [(x, f) for f in R for x in Fl.ops(Fl.trees[f])]
    written, read, writes = set(), {}, {}
    for x, f in ops:
        if x[0] in ("w", "f"):
            written.add(x[1])
            writes.setdefault(x[1], []).append((x, f))
        if x[0] == "r":
            read.setdefault(x[1], []).append((x, f))
    pairs, appends, local = storage(Fl)
    caps = {c: p for p, cs in pairs.items() for c in cs}
    # ---- guards: flags that only ever hold constants, and function pointers
    guards = []
    conds = set()
    for f in list(R) + [main]:
        for n in f.body.walk():
            if n.k in ("IfStmt", "SwitchStmt", "ConditionalOperator", "WhileStmt"):
                for q in n.ch[0].walk():
                    if q.k in ("DeclRefExpr", "MemberExpr"):
                        a = Fl.acc(q, f)
                        if a and a[2]:
                            u = Fl.units(a, q)
                            if len(u) == 1:
                                conds.add(u[0])
    for u in sorted(set(conds) | set(written), key=str):
        ws = writes.get(u, [])
        if any(x[0] == "f" or x[3] or x[4] is None or isinstance(x[4], (dict,)) for x, f in ws):
            continue
        vals = {x[4] for x, f in ws}
        fp = any(isinstance(v, tuple) and v[0] == "fn" for v in vals)
        if not fp and u not in conds:
            continue
        init = Fl.initial(u)
        if not fp:
            vals |= {0}
            v = Fl.vars.get(u[0])
            t = (v.t[0] if v is not None else "") or ""
            for f in list(R) + [main]:
                for n in f.body.walk():
                    if n.k == "SwitchStmt":
                        a = Fl.acc(strip(n.ch[0]), f) if strip(n.ch[0]).k in ("DeclRefExpr", "MemberExpr") else None
                        if a and a[2] and Fl.units(a, n) == [u]:
                            for q in n.walk():
                                if q.k == "CaseStmt" and isinstance(Fl.const(q.ch[0]), int):
                                    vals.add(Fl.const(q.ch[0]))
            complete = False
            for e in P.enum_types.values():
                if vals and {P.enums[x] for x in e} == vals and "enum" in t:
                    complete = True
        guards.append((u, sorted(vals, key=str), init if ws else None, not ws))

    def analyse(u, guard=None):
        if guard is None:
            s = Solver(Fl, u, nr, exempt)
            entry = I
        else:
            g, vals, init, inv = guard
            s = Solver(Fl, u, nr, exempt, guard=g, gvals=vals)
            entry = s.all(I) if inv else s.at(I, init)
            if inv and enum_complete(g, vals):
                entry = entry & ~(15 << 4 * (s.ng - 1))
        while True:
            out = s.solve(body, entry, main)
            nxt = entry | s.mapv(out, lambda b: S if b == C else b)
            if nxt == entry:
                return s, out
            entry = nxt

    def enum_complete(g, vals):
        v = Fl.vars.get(g[0])
        if v is None:
            return False
        return any({P.enums[x] for x in e} == set(vals) for e in P.enum_types.values() if len(e) > 1) and "enum" in (v.t[0] or "") + (v.t[1] or "")

    def exempt(op, f):
        return f.name in LOCAL_READS

    def why(u):
        """the structural reason for which leftovers of u cannot matter, or None"""
        key, fld = u
        v = Fl.vars.get(key)
        t = (v.t[0] if v is not None and v.t else "") or ""
        if u in pairs:
            return "storage of a growable array"
        if u in caps:
            return "capacity of a growable array"
        acc = [(x, f) for x, f in ops if x[0] in ("r", "w", "f") and x[1] == u]
        if acc and all(fresh(x) for x, f in acc):
            return "fresh numbers"
        if all(id(x[2]) in appends for x, f in acc):
            return "only appended to"
        if key[1].startswith("type_create."):
            return "interning table"
        rec = P.record(v.t[1]) if v is not None and v.t else None
        ty = [t] + ([x[1] for x in rec[1]] if rec else [])
        if any(x.replace("const ", "").strip().startswith(("struct token", "struct token_list")) and not x.startswith("struct tokenized") for x in ty) and t not in ("struct tokenized_file *",):
            return "token queue"
        return None

    def fresh(x):
        n = x[2]
        return n.k == "UnaryOperator" and n.v in ("++", "--")
    immutable = lambda u: u[0] in Fl.vars and Fl.vars[u[0]].t and Fl.vars[u[0]].t[0].startswith("const ") and "*" not in Fl.vars[u[0]].t[0]
    units = sorted((u for u in written if not immutable(u)), key=str)
    ctx.require(len(units) > 60, "static state not found")
    name = lambda u: "%s%s%s" % (u[0][0] + " " if u[0][0] else "", u[0][1], "." + u[1] if u[1] else "")

    def one(u):
        r = why(u)
        if r in ("storage of a growable array", "capacity of a growable array"):
            s, out = analyse(u)
            return r, s, out, []
        if r:
            return r, None, 0, []
        s, out = analyse(u)
        hits = {k: h for k, h in s.hits.items()}
        if hits:
            rel = [g for g in guards if g[0] != u]
            for g in rel:
                if not hits:
                    break
                s2, _ = analyse(u, g)
                hits = {k: h for k, h in hits.items() if k in s2.hits}
        return r, s, out, list(hits.values())

    for u in sorted(local, key=str):
        caps.setdefault(u, None)

    def job(us):
        def go():
            for u in us:
                r, s, out, hits = one(u)
                v = Fl.vars.get(u[0])
                where = locs(v) if v is not None else "src/main.c"
                if r and r.endswith("growable array"):
                    rel = [h for h in s.hits.values() if h[2] & F]
                    ok, msg = not rel, ""
                    if rel:
                        msg = "%s is released and used again in %s (%s)" % (name(u), rel[0][0].name, locs(rel[0][1]))
                    if u in pairs and ok:
                        # entered with a leftover: what is left at the end
                        sp = Solver(Fl, u, nr, exempt)
                        op = sp.solve(body, S, main)
                        if op & F:
                            ok, msg = False, "%s is released but still designates the storage when the next file is processed" % name(u)
                        for c in sorted(pairs[u], key=str):
                            oc = Solver(Fl, c, nr, exempt).solve(body, S, main)
                            if op == I and oc & ~I:
                                ok, msg = False, "%s is reset but its capacity %s is not" % (name(u), name(c))
                    ctx.ob("storage", name(u), ok, where, msg)
                    continue
                if hits:
                    h = sorted(hits, key=lambda h: locs(h[1]))[0]
                    how = "released" if h[2] & F else "left over from the previous input file"
                    ctx.ob("state", name(u), False, locs(h[1]), "%s reads %s, which can be %s (%d such reads; declared at %s)" % (h[0].name, name(u), how, len(hits), where))
                else:
                    ctx.ob("state", name(u), True, where, r or "")
        return go
    n = 16
    ctx.parallel([job(units[k::n]) for k in range(n)])
    ctx.paths += len(units)
