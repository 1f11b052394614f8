"""Conditional inclusion: the directive automaton against the standard's, over every sequence of conditional directives."""
from lib import *
from lib_pp import *
from absint import Limit

EXPLANATION = ("Typestate enumeration: the directive loop is evaluated on every sequence of conditional directives up to a length "
               "bound (every nesting and order, valid or not), with each controlling condition an unknown that forks the analysis, "
               "and with the text, definitions and evaluated conditions recorded as effects. They must be those of the standard's "
               "automaton, and the ill-formed sequences must end in a diagnostic and never in acceptance or in a loop. Skipped "
               "groups are filled with every kind of directive and none may have an effect.")

OPEN, NEXT = ("if", "ifdef", "ifndef"), ("elif", "elifdef", "elifndef")


class Cond:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.nsteps = 0

    def pp(self, files):
        P = self.P

        def fork(I, st, kind, name, n, f):
            key = ("g", "#cond:" + name)
            r = []
            for v in (1, 0):
                if key in st.mem and kind == "lookup" and st.mem[key] != v:
                    continue
                t = st.fork()
                t.mem[key] = v
                t.ev = (t.ev, Ev("cond", name, (v,), locs(n), f.name if f else "?"))
                r.append((t, v))
            return r

        def m_const(I, st, a, n, f):
            s = pp.sv(I, st, a[0])
            c = lambda v: ("struct", "constant", (("type", P.enum("CONSTANT_TYPE")), ("data_type", simple(P, "ST_INT")),
                                                  ("int_d", v), ("uint_d", v)))
            if s.isdigit():
                return [(st, c(int(s)))]
            return [(t, c(v)) for t, v in fork(I, st, "const", s, n, f)]

        def m_get(I, st, a, n, f):
            s = pp.sv(I, st, a[0])
            if not s[1:] or not s.startswith("M"):
                return [(st, 0)]
            return [(t, ("addr", ("g", "#def")) if v else 0) for t, v in fork(I, st, "lookup", s, n, f)]

        def eff(name):
            def m(I, st, a, n, f):
                v = a[0]
                s = pp.sv(I, st, I.project(v, ("f", v, "name")) if name == "define" else v)
                st.ev = (st.ev, Ev("effect", name, (s,), locs(n), f.name if f else "?"))
                return [(st, 0)]
            return m
        pp = PP(self.ctx, files, extra=dict(TYPE_MODELS, constant_from_string=m_const, define_map_get=m_get,
                                            define_map_add=eff("define"), define_map_remove=eff("undef"),
                                            impl_warning=lambda I, st, a, n, f: [(st, 0)]))
        return pp

    def outcomes(self, text, files=None, limit=300000):
        """-> [(trace, ok)] trace: list of ('x',token) / ('def',name) / ('cond',name,v) / ('open',f); ok: ended without diagnostic"""
        pp = self.pp(dict(files or {}, **{"f.c": text}))
        I = pp.interp()
        I.max_steps = limit
        P = self.P

        def emit(st, s):
            st.ev = (st.ev, Ev("token", s, (), "", ""))
        eoi = P.enum("T_EOI")
        f = P.need("directiver_next")
        try:
            cur = pp.start(I)
            done = []
            for _ in range(200):
                nxt = []
                for s in cur:
                    for t, sig, rv in I.call_body(s, f, []):
                        if sig is not None:
                            continue
                        k = I.project(rv, ("f", rv, "type"))
                        if k == eoi:
                            done.append(t)
                        else:
                            emit(t, pp.sv(I, t, I.project(rv, ("f", rv, "str"))))
                            nxt.append(t)
                cur = nxt
                if not cur:
                    break
        except Limit as e:
            return None
        self.ctx.paths += len(done)
        self.ctx.functions |= I.analysed
        if cur:
            return None
        r = [(self.trace(events(s)), True) for s in done]
        for p in I.take_dead():
            nr = [e for e in p.events if e.k == "noreturn"]
            r.append((self.trace(p.events), nr[-1].name if nr else "?"))
        return r

    @staticmethod
    def trace(evs):
        r = []
        for e in evs:
            if e.k == "token":
                r.append(("x", e.name))
            elif e.k == "effect":
                r.append((e.name, e.args[0]))
            elif e.k == "cond":
                r.append(("cond", e.name, e.args[0]))
            elif e.k == "open" and e.name != "f.c":
                r.append(("open", e.name))
        return r


def spec(lines, val):
    """the standard's automaton over LINES [(kind,arg)], conditions answered by VAL(name, kind) -> trace, error?"""
    st, out = [], []
    act = lambda: all(s[0] == 1 for s in st)
    for k, a in lines:
        if k in OPEN:
            if act():
                v = val(a)
                out.append(("cond", a, v))
                st.append([1 if v ^ (k == "ifndef") else 0, False])
            else:
                st.append([-1, False])
        elif k in NEXT or k == "else":
            if not st or st[-1][1]:
                return out, True
            st[-1][1] = k == "else"
            if st[-1][0] == 0:
                if k == "else":
                    st[-1][0] = 1
                else:
                    v = val(a)
                    out.append(("cond", a, v))
                    st[-1][0] = 1 if v ^ (k == "elifndef") else 0
            else:
                st[-1][0] = -1
        elif k == "endif":
            if not st:
                return out, True
            st.pop()
        elif act():
            out += a
    return out, bool(st)


def render(lines):
    r = ""
    for k, a in lines:
        r += "#%s %s\n" % (k, a) if k in OPEN + NEXT else "#%s\n" % k if k in ("else", "endif") else k
    return r


def compare(C, ctx, rule, inst, lines, text=None, files=None):
    text = text if text is not None else render(lines)
    got = C.outcomes(text, files)
    if got is None:
        return ctx.ob(rule, inst, False, "directiver_next", "preprocessing does not terminate on: " + text.replace("\n", "\\n"))
    seen = set()
    for tr, ok in got:
        answers = [(e[1], e[2]) for e in tr if e[0] == "cond"]
        it = iter(answers)
        mis = []

        def val(name):
            n, v = next(it, (None, 0))
            if n != name:
                mis.append((name, n))
            return v
        exp, err = spec(lines, val)
        seen.add(tuple(answers))
        if err and ok is not True:
            exp = exp[:len(tr)]         # the diagnostic may be issued before trailing text is processed
        left = list(it)
        good = not mis and not left and tr == exp and (ok is True) == (not err) and \
            (ok is True or ok in ("impl_error", "impl_error_no_pos"))
        if not good:
            msg = "conditions %s: " % (answers,)
            if mis or left:
                msg += "conditions evaluated %s, required %s" % ([a for a, _ in answers], [e[1] for e in exp if e[0] == "cond"])
            elif (ok is True) != (not err):
                msg += "the sequence is %s" % ("accepted" if ok is True else "rejected (%s)" % ok) + \
                    (" but must be diagnosed" if err else " but is well-formed")
            elif tr != exp:
                msg += "processed %s, required %s" % ([e[1] for e in tr if e[0] != "cond"], [e[1] for e in exp if e[0] != "cond"])
            else:
                msg += "ends in %s instead of a diagnostic" % ok
            return ctx.ob(rule, inst, False, "directiver_next", msg + " in: " + text.replace("\n", "\\n"))
    # every valuation the specification distinguishes must have been reached
    return ctx.ob(rule, inst, len(got) == len(seen) and bool(got), "directiver_next", "%d outcomes for %d valuations" % (len(got), len(seen)))


def body(i, null=""):
    return (null + "x%d\n" % i + null + "#define d%d\n" % i, [("x", "x%d" % i), ("define", "d%d" % i)])


def interleave(seq, null=""):
    r = [body(0, null)]
    for i, k in enumerate(seq):
        r.append((k, "%dc" % i if k in ("if", "elif") else "M%d" % i))
        r.append(body(i + 1, null))
    return r


def sequences(n):
    """directive sequences of length <= n; ill-formed ones are not extended"""
    out, cur = [], [((), ())]
    for _ in range(n + 1):
        nxt = []
        for seq, st in cur:
            out.append(seq)
            for k in ("if", "elif", "else", "endif"):
                if k == "if":
                    nxt.append((seq + (k,), st + (0,)))
                elif not st or (k != "endif" and st[-1]):
                    if len(seq) < n:
                        out.append(seq + (k,))
                else:
                    nxt.append((seq + (k,), st[:-1] + ((1 if k == "else" else st[-1],) if k != "endif" else ())))
        cur = [c for c in nxt if len(c[0]) <= n]
        if not cur:
            break
    return out


JUNK = ["#define D 1\n", "#undef D\n", "#error no\n", "#include \"n.h\"\n", "#include <n.h>\n", "#include M\n", "#pragma once\n",
        "#line 3\n", "#line\n", "#unknown\n", "# 12 \"x\"\n", "#\n", "#define\n", "#if 1 ( 2\n#endif\n", "#if\n#elif\n#else\n#endif\n",
        "#ifdef\n#endif\n", "#if 7c\n#elif 8c\n#else\n#endif\n", "#pragma pack(1)\n", "#pragma push_macro(\"D\")\n",
        "y ) ( # y ## z\n", "y # endif\n", "y # else\n", "( # if 1\n"]


def run(ctx):
    C = Cond(ctx)
    ctx.rule("automaton", "every sequence of #if, #elif, #else and #endif processes exactly the prescribed groups, evaluates exactly "
             "the prescribed conditions, and is diagnosed exactly when it is unbalanced or misordered")
    n = 6 if ctx.tier == "quick" else 7
    seqs = sequences(n)
    step = 40
    tasks = []

    def auto(chunk):
        for s in chunk:
            compare(C, ctx, "automaton", " ".join("#" + k for k in s) or "no directive", interleave(s))
    for i in range(0, len(seqs), step):
        tasks.append(lambda c=seqs[i:i + step]: auto(c))

    ctx.rule("spelling", "the #ifdef, #ifndef, #elifdef and #elifndef forms test for a definition, in every position")

    def spelling():
        for a in OPEN:
            for b in NEXT + (None,):
                for c in NEXT + ("else", None):
                    seq = [a] + [x for x in (b, c) if x] + ["endif"]
                    compare(C, ctx, "spelling", " ".join(seq), interleave(seq, "#\n" if c else ""))
    tasks.append(spelling)

    ctx.rule("skipped", "no directive or text in a skipped group has any effect")

    def skipped():
        for j in JUNK:
            for seq, pos in ((["if", "endif"], 0), (["if", "else", "endif"], 1), (["if", "elif", "else", "endif"], 2)):
                lines, k = [], 0
                for i, d in enumerate(seq):
                    lines.append((d, "%dc" % i))
                    if i == pos:
                        lines.append((j, []))
                        lines.append(body(9))
                        text_skip = True
                    elif d != "endif":
                        lines.append(body(i))
                lines.append(body(8))
                # keep only valuations in which the junk group is skipped
                skip_compare(C, ctx, "%s in group %d of %s" % (j.strip().replace("\n", " "), pos + 1, "/".join(seq)), lines, j)
    tasks.append(skipped)

    ctx.rule("per file", "a conditional is opened and closed in one file: #else, #elif and #endif never apply to a conditional of the "
             "including file and one left open at the end of an included file is diagnosed")

    def files():
        inc = ("#include \"n.h\"\n", None)
        for nm, text, bad in (("guard", "#ifndef MG\n#define g\nin\n#endif", False), ("empty", "", False), ("text", "in", False),
                              ("endif", "in\n#endif\n", True), ("else", "in\n#else\n", True), ("elif", "#elif 1\nin\n", True),
                              ("elifdef", "#elifdef MQ\nin\n", True),
                              ("open if", "in\n#if 1\nz\n", True), ("open if at the very end", "in\n#if 1", True),
                              ("open else", "#if 0\n#else\n", True), ("open skipped", "#if 0\nin\n", True)):
            for wrap in (False, True):
                t = ("#if 1\na\n#include \"n.h\"\nb\n#else\nc\n#endif\nd\n" if wrap else "a\n#include \"n.h\"\nb\n")
                got = C.outcomes(t, {"n.h": text})
                inst = "%s%s" % (nm, " inside #if" if wrap else "")
                if got is None:
                    ctx.ob("per file", inst, False, "directiver_next", "preprocessing does not terminate")
                    continue
                for tr, ok in got:
                    xs = [e[1] for e in tr if e[0] == "x"]
                    if bad:
                        ctx.ob("per file", inst, ok in ("impl_error", "impl_error_no_pos"), "directiver_next",
                               "the included file %r is accepted (%s)" % (text, " ".join(xs)))
                    else:
                        w = ["a"] + (["in"] if "in" in text and not any(e[0] == "cond" and e[2] for e in tr) else []) + ["b"] + \
                            (["d"] if wrap else [])
                        ctx.ob("per file", inst, ok is True and xs == w, "directiver_next",
                               "tokens %s, required %s%s" % (xs, w, "" if ok is True else " (%s)" % ok))
    tasks.append(files)

    ctx.rule("line", "the rest of a conditional directive's line never becomes program text and never swallows the next line")

    def line():
        for d, pre, post in (("#if 1 junk", "", "#endif\n"), ("#ifdef M0 junk", "", "#endif\n"), ("#ifndef M0 junk", "", "#endif\n"),
                             ("#else junk", "#if 0c\n", "#endif\n"), ("#endif junk", "#if 0c\n", ""),
                             ("#elif 1 junk", "#if 0c\n", "#endif\n"), ("#elifdef M0 junk", "#if 0c\n", "#endif\n"),
                             ("#ifdef", "", "#endif\n"), ("#ifndef", "", "#endif\n"), ("#if", "", "#endif\n"),
                             ("#elif", "#if 0c\n", "#endif\n"), ("#elifdef", "#if 0c\n", "#endif\n"),
                             ("#if defined", "", "#endif\n"), ("#if defined (", "", "#endif\n"), ("#if defined ( M0", "", "#endif\n"),
                             ("#undef D junk", "", ""), ("#undef", "", ""), ("#define", "", ""), ("#define 3 x", "", "")):
            for last in (False, True):
                text = pre + d + "\n" + ("" if last else "nx ny\n" + post)
                got = C.outcomes(text)
                inst = d + (" at the end of the file" if last else "")
                if got is None:
                    ctx.ob("line", inst, False, "directiver_next", "preprocessing does not terminate on: " + text.replace("\n", "\\n"))
                    continue
                for tr, ok in got:
                    xs = [e[1] for e in tr if e[0] == "x"]
                    names = [e[1] for e in tr if e[0] in ("define", "undef")] + [e[1] for e in tr if e[0] == "cond"]
                    bad = [x for x in xs if x not in ("nx", "ny")] or (len(xs) == 1) or \
                        [x for x in names if x in ("nx", "ny", "3", "")]
                    need = len(d.split()) == 1 and d not in ("#else", "#endif") and ok is True and \
                        not any(e[0] == "cond" and d in ("#elif", "#elifdef") and e[2] == 1 for e in tr)
                    ctx.ob("line", inst, not bad and not need and (ok is True or ok.startswith("impl_error")), "directiver_next",
                           ("tokens %s and names %s come from the directive line or are lost" % (xs, names)) if bad else
                           "accepted although the directive is incomplete" if need else "ends in %s" % ok)
    tasks.append(line)
    ctx.parallel(tasks)


def skip_compare(C, ctx, inst, lines, junk):
    """like compare() over the valuations that skip the group holding JUNK"""
    text = "".join("#%s %s\n" % (k, a) if k in OPEN + NEXT else "#%s\n" % k if k in ("else", "endif") else k for k, a in lines)
    got = C.outcomes(text)
    if got is None:
        return ctx.ob("skipped", inst, False, "directiver_next", "preprocessing does not terminate on: " + text.replace("\n", "\\n"))
    # position of the junk group: replay the automaton
    n = 0
    for tr, ok in got:
        answers = dict((e[1], e[2]) for e in tr if e[0] == "cond")
        st, active = [], None
        for k, a in lines:
            if k in OPEN:
                st.append(1 if answers.get(a) else 0)
            elif k in NEXT:
                st[-1] = -1 if st[-1] else (1 if answers.get(a) else 0)
            elif k == "else":
                st[-1] = -1 if st[-1] else 1
            elif k == "endif":
                st.pop()
            elif k == junk:
                active = all(s == 1 for s in st)
        if active:
            continue
        n += 1
        exp, err = spec([(k, a) for k, a in lines if k != junk], lambda name: answers.get(name, 0))
        if tr != exp or ok is not True:
            return ctx.ob("skipped", inst, False, "directiver_next", "conditions %s: effects %s, required %s%s in: %s" %
                          (answers, tr, exp, "" if ok is True else " (ends in %s)" % ok, text.replace("\n", "\\n")))
    ctx.ob("skipped", inst, n > 0, "directiver_next", "no valuation skips the group")


FLOORS = {"automaton": 300, "spelling": 40, "skipped": 50, "per file": 20, "line": 30}
