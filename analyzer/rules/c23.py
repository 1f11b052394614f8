"""Macro expansion against the X3J11 expansion algorithm, over enumerated macro systems of placeholder tokens."""
from lib import *
from lib_pp import *
from lib_pp import _RE
from absint import Limit
import itertools

EXPLANATION = ("The expander is evaluated on systematically enumerated macro systems built from placeholder tokens: every replacement "
               "list of bounded length over parameters, # and ##, every shape of argument (empty, one token, several, macro names, "
               "nested invocations), every small system of mutually referring object- and function-like macros, variadic macros, and "
               "every kind of token as operand of # and ##. The token sequence must be that of the standard's algorithm (Prosser's "
               "hide-set formulation, implemented separately here); unterminated or ill-formed invocations must be diagnosed. The "
               "ordered-set operations the hide sets rely on are checked for all subsets of a three-element universe.")


class Bad(Exception):
    pass


class T:
    __slots__ = ("s", "ws", "hs", "k")

    def __init__(self, s, ws=0, hs=frozenset(), k=None):
        self.s, self.ws, self.hs, self.k = s, ws, hs, k

    def copy(self, **kw):
        t = T(self.s, self.ws, self.hs, self.k)
        for a, v in kw.items():
            setattr(t, a, v)
        return t

    @property
    def ident(self):
        return self.s is not None and (self.s[0].isalpha() or self.s[0] == "_") and self.s[-1] not in "\"'"


def kind(s):
    """kind of a token spelling, None if S is not exactly one token"""
    try:
        l = pplex(s)
    except AnalysisError:
        return None
    return l[0]["k"] if len(l) == 1 and l[0]["s"] == s else None


def glue(a, b):
    if a.s is None:
        return b.copy(hs=a.hs & b.hs, ws=a.ws) if b.s is not None else a
    if b.s is None:
        return a
    s = a.s + b.s
    if s in ("//", "/*") or kind(s) is None:
        raise Bad()
    return T(s, a.ws, a.hs & b.hs)


def stringize(ts):
    r = ""
    for i, t in enumerate(ts):
        if i and t.ws:
            r += " "
        s = t.s
        if s[-1] in "\"'" and len(s) > 1:
            s = s.replace("\\", "\\\\").replace("\"", "\\\"")
        r += s
    return '"' + r + '"'


class Ref:
    """Prosser's algorithm"""
    def __init__(self, macros):
        self.m = macros
        self.n = 0

    def expand(self, ts):
        self.n += 1
        if self.n > 3000:
            raise AnalysisError("reference expansion too large")
        out = []
        ts = list(ts)
        while ts:
            t = ts.pop(0)
            m = self.m.get(t.s)
            if m is None or t.s in t.hs:
                out.append(t)
                continue
            params, va, body = m
            if params is None:
                new = self.subst(t, body, [], [], None, t.hs | {t.s})
                if not new and t.ws and ts:
                    ts[0] = ts[0].copy(ws=1)
                ts = new + ts
            elif ts and ts[0].s == "(":
                d, args, cur, i = 1, [], [], 1
                while True:
                    if i >= len(ts):
                        raise Bad()
                    x = ts[i]
                    if x.s == "(":
                        d += 1
                    elif x.s == ")":
                        d -= 1
                        if d == 0:
                            break
                    if x.s == "," and d == 1 and not (va and len(args) >= len(params)):
                        args.append(cur)
                        cur = []
                    else:
                        cur.append(x)
                    i += 1
                rp = ts[i]
                args.append(cur)
                if not params and not va:
                    if len(args) != 1 or args[0]:
                        raise Bad()
                    args = []
                vaarg = None
                if va:
                    if len(args) == len(params) + 1:
                        vaarg = args.pop()
                    elif len(args) != len(params):
                        raise Bad()
                elif len(args) != len(params):
                    raise Bad()
                args = [self.trim(a) for a in args]
                vaarg = self.trim(vaarg) if vaarg is not None else None
                new = self.subst(t, body, params, args, (vaarg,) if va else None, (t.hs & rp.hs) | {t.s})
                ts = new + ts[i + 1:]
            else:
                out.append(t)
        return out

    @staticmethod
    def trim(a):
        return [a[0].copy(ws=0)] + a[1:] if a else a

    def subst(self, origin, body, params, args, va, hs):
        func = va is not None or params or self.m[origin.s][0] is not None
        # operands: list of token lists separated by ## groups
        i, out = 0, []
        pend = False
        def arg_of(t):
            if func and t.s in params:
                return args[params.index(t.s)]
            if va is not None and t.s == "__VA_ARGS__":
                return va[0] if va[0] is not None else []
            return None
        n = len(body)
        while i < n:
            t = body[i]
            if t.s == "##":
                if i == 0 or i == n - 1:
                    raise Bad()
                pend = True
                i += 1
                continue
            nxt_paste = i + 1 < n and body[i + 1].s == "##"
            if func and t.s == "#":
                if i + 1 >= n or arg_of(body[i + 1]) is None:
                    raise Bad()
                op = [T(stringize(arg_of(body[i + 1])), t.ws)]
                i += 2
            else:
                a = arg_of(t)
                if a is None:
                    op = [t.copy(hs=frozenset())]
                elif pend or nxt_paste:
                    # GNU: , ## __VA_ARGS__
                    if pend and t.s == "__VA_ARGS__" and out and out[-1].s == ",":
                        if va[0] is None:
                            out.pop()
                            pend = False
                            i += 1
                            continue
                        out += [x.copy(ws=x.ws or (t.ws if k == 0 else 0)) for k, x in enumerate(a)]
                        pend = False
                        i += 1
                        continue
                    op = [x.copy(ws=x.ws or (t.ws if k == 0 else 0)) for k, x in enumerate(a)] or [T(None, t.ws)]
                else:
                    e = self.expand([x.copy() for x in a])
                    op = [x.copy(ws=x.ws or (t.ws if k == 0 else 0)) for k, x in enumerate(e)]
                i += 1
            if pend:
                if not out:
                    raise Bad()
                out[-1] = glue(out[-1], op[0])
                out += op[1:]
                pend = False
            else:
                out += op
        out = [t for t in out if t.s is not None]
        if out:
            out[0] = out[0].copy(ws=out[0].ws or origin.ws)
        return [t.copy(hs=t.hs | hs) for t in out]


def toks(s, ws0=1):
    return [T(d["s"], d["ws"] if i else ws0) for i, d in enumerate(pplex(s))]


def define(line):
    """'F(x,y,...) body' -> name, (params|None, variadic, body)"""
    m = re.match(r"(\w+)(\(([^)]*)\))?(.*)$", line, re.S)
    body = toks(m.group(4), 0)
    if m.group(2) is None:
        return m.group(1), (None, False, body)
    ps = [p.strip() for p in m.group(3).split(",") if p.strip()]
    va = bool(ps) and ps[-1] == "..."
    return m.group(1), (ps[:-1] if va else ps, va, body)


def reference(defs, text):
    """-> token spellings, or None if the program is ill-formed"""
    try:
        return [t.s for t in Ref(dict(define(d) for d in defs)).expand(toks(text))]
    except Bad:
        return None


def evaluate(ctx, defs, text, hz=False, raw=None):
    src = raw if raw is not None else "".join("#define %s\n" % d for d in defs) + text + "\n"
    pp = PP(ctx, {"f.c": src}, hash_zero=hz, extra={"impl_warning": lambda I, st, a, n, f: [(st, 0)]})
    I = pp.interp()
    I.max_steps = 600000
    try:
        res = pp.drain(I, pp.start(I), "expander_next", limit=300)
    except Limit:
        return "loop", []
    except AnalysisError as e:
        if "does not end" in str(e):
            return "loop", []
        raise
    ctx.paths += len(res)
    ctx.functions |= I.analysed
    return [[(t[1], t[0]) for t in r[1]] for r in res], I.take_dead()


def run(ctx):
    tasks = []
    quick = ctx.tier == "quick"
    SEEN = set()

    def check(rule, defs, text, hz=False):
        inst = " ; ".join(defs) + " |- " + text
        exp = reference(defs, text)
        res, dead = evaluate(ctx, defs, text, hz)
        if res == "loop":
            return ctx.ob(rule, inst, False, "expander_next", "expansion does not terminate")
        if exp is None:
            ok = not res and dead and all(any(e.k == "noreturn" and e.name == "impl_error" for e in p.events) for p in dead)
            return ctx.ob(rule, inst, bool(ok), "expander_next", "ill-formed, must be diagnosed: %s" %
                          ([" ".join(t[0] for t in r) for r in res] or "internal failure"))
        got = [[t[0] for t in r] for r in res]
        ok = got == [exp] and not dead
        if ok:
            for s, k in res[0]:
                w = kind(s)
                if w is not None and ctx.P.enum("PP_HASH" if w == "PP_DIRECTIVE" else w) != k:
                    return ctx.ob(rule, inst, False, "expander_next", "token %s has the wrong kind" % s)
        return ctx.ob(rule, inst, ok, "expander_next", "expands to %s, required %s" %
                      ([" ".join(r) for r in got] or "a diagnostic", " ".join(exp)))

    def chunked(rule, cases, hz=False):
        cases = list(cases)
        step = max(1, len(cases) // 8 + 1)
        for i in range(0, len(cases), step):
            tasks.append(lambda c=cases[i:i + step]: [check(rule, d, t, hz) for d, t in c])

    # ------------------------------------------------------------ replacement lists
    ctx.rule("substitution", "parameters are replaced by their arguments - macro-expanded unless next to # or ##, spelled by #, pasted "
             "by ## with empty operands acting as placemarkers")
    items = ["x", "y", "q", "#x", "x ## y", "x ## q", "q ## x", "x ## y ## x", "q ## r", "#x ## y", "L ## #x", "x x", "x ## x"]
    bodies = [[a] for a in items] + [[a, b] for a in items for b in ("x", "y", "q", "x ## y", "#y")] + \
        [["p", a, "s"] for a in items]
    args = [("", ""), ("1", "2"), ("", "2"), ("1", ""), ("a b", "c d"), ("M", "N"), ("M N", "M"), ("G(1)", "N"), ("(1,2)", "F"),
            ("F(1,2) z", "3")]
    cases = []
    k = 0
    for b in bodies:
        for a in args:
            if "L ## #x" in b and False:
                continue
            if quick and len(b) > 1 and (k % 3):
                k += 1
                continue
            k += 1
            cases.append((["M m1 m2", "N", "G(u) g u", "F(x,y) " + " ".join(b)], "F(%s,%s) t" % a))
    chunked("substitution", cases)

    # ------------------------------------------------------------ rescanning
    ctx.rule("rescan", "replacements are rescanned with the rest of the source, and a macro name met while that macro is being replaced "
             "is not replaced again, then or later")
    obj = ["", "A", "B", "A B", "x B", "F", "F(A)", "F(B) A", "G(A)", "(", "F("]
    fun = ["x", "A x", "F(x)", "G(x)", "G", "x F", "(x)", "B(x)"]
    sysm = [(a, b, f, g) for a in obj for b in obj[1:] for f in fun for g in ("x", "F(x)", "A", "x G", "B x")]
    texts = ["A", "A A", "B A", "F(A)", "F(G(1))", "F(F(1))", "G(F)(1)", "A(1)", "B(1)", "F(F)(1)", "F", "F A", "A B(2) F(B)"]
    cases = []
    step = 41 if quick else 7
    allc = [(s, t) for s in sysm for t in texts]
    for i, (s, t) in enumerate(allc):
        if i % step == 0:
            cases.append((["A " + s[0], "B " + s[1], "F(x) " + s[2], "G(x) " + s[3]], t))
    chunked("rescan", cases)
    # the standard's own examples
    cases = [(["f(a) a*g", "g(a) f(a)"], "f(2)(9)"), (["f(a) a + f(a)"], "f(f(1))"), (["NIL(xxx) xxx", "G0(a) a", "G1(a) G0(a)"], "G1(NIL)(4)"),
             (["x 3", "f(a) f(x * (a))", "z z[0]", "g f", "h g(~", "m(a) a(w)", "w 0,1", "t(a) a", "p() int", "q(x) x", "r(x,y) x ## y",
               "str(x) # x"], "f(y+1) + f(f(z)) % t(t(g)(0) + t)(1); g(x+(3,4)-w) | h 5) & m (f)^m(m); "
              "p() i[q()] = { q(1), r(2,3), r(4,), r(,5), r(,) }; char c[2][6] = { str(hello), str() };"),
             (["hash_hash # ## #", "mkstr(a) # a", "in_between(a) mkstr(a)", "join(c, d) in_between(c hash_hash d)"], "join(x, y)"),
             (["t(x,y,z) x ## y ## z"], "t(1,2,3) t(,4,5) t(6,,7) t(8,9,) t(10,,) t(,11,) t(,,12) t(,,)"),
             (["a b", "b c", "c a"], "a b c"), (["AA BB", "BB AA"], "AA BB AA"),
             (["e(x) x", "d() e", "LP (", "RP )"], "e(e)(1) d()(2) e LP 3 RP e(e LP 4 RP)"),
             (["foo() bar", "bar foo"], "foo()() bar()"), (["q(x) q(x) + x", "r q"], "q(q)(1) r(2)"),
             (["c1 c2 c3", "c2 c3 c1", "c3 c1 c2"], "c1 c2 c3"), (["u(x) v(x) w(x)", "v(x) w(x) u", "w(x) v u(x)"], "u(1)(2) v(3)(4) w(5)(6)"),
             (["zz aa", "aa mm", "mm zz"], "zz aa mm"), (["mm(x) zz(x) aa(x)", "zz(x) aa(x) mm(x)", "aa(x) mm(x) zz(x)"], "mm(1)")]
    chunked("rescan", cases)

    # ------------------------------------------------------------ hide sets through every order of names
    ctx.rule("hide order", "termination and results do not depend on the names of the macros")
    cases = []
    for p in itertools.permutations(["ab", "cd", "ef"]):
        a, b, c = p
        for ds, t in (([a + "(x) x " + b, b + " " + c, c + " " + a + "(1)"], "%s(%s)" % (a, b)),
                      (["%s(x) %s(x) %s" % (a, b, c), "%s(x) %s x" % (b, c), "%s %s(2)" % (c, a)], "%s(%s) %s" % (a, c, b)),
                      (["%s %s(%s" % (a, b, c), "%s(x) [x %s]" % (b, a), c + " " + a], a + ") " + c),
                      (["%s(x) x" % a, "%s %s" % (b, c), "%s %s" % (c, b)], "%s(%s)(%s)" % (a, b, c)),
                      (["%s(x) %s(x)(x" % (a, b), "%s(x) %s" % (b, c), "%s(x) %s(x) %s" % (c, a, b)], "%s(1))" % a)):
            cases.append((ds, t))
    # an argument that already carries a hide set, used several times, must not accumulate what its first use met
    for n in (1, 2, 3, 4):
        ks = ["K%d" % (i + 1) for i in range(n)]
        for nm in ("A", "Z", "K2x"):
            for body in ("x x", "x x x", "[x] f2(x)"):
                ds = ["%s %s" % (ks[i], ks[i + 1]) for i in range(n - 1)] + [ks[-1] + " F(" + nm + ")", "F(x) " + body, nm + " b c", "f2(x) x " + nm]
                cases.append((ds, "K1 %s K1" % nm))
    chunked("hide order", cases)
    chunked("hide order", cases[::2], True)

    # ------------------------------------------------------------ arguments
    ctx.rule("arguments", "arguments are separated by top-level commas only; a missing parenthesis or a wrong number of arguments is diagnosed")
    D = ["f(x) [x]", "g(x,y) [x|y]", "h() [h]", "M 1,2", "id(x) x", "LP ("]
    cases = [(D, t) for t in
             ("f((1,2))", "f(((1),2),)", "g((1,2),3)", "g(1,(2,3))", "g(f(1),2)", "g(g(1,2),g(3,4))", "f()", "f( )", "g(,)", "g(1)", "g(1,2,3)",
              "g()", "h()", "h( )", "h(1)", "f(1", "g(1,", "g(1,2", "h(", "f", "f + 1", "f f(1)", "f\n(\n1\n)", "f(1\n2)", "f(M)", "g(M)",
              "g(M,3)", "id(g)(1,2)", "id(f)(M)", "f(f)(1)", "f LP 1 )", "id(f LP 1 ))", "f(id)(2)", "f(,)", "(f)(1)", "f(f(1)", "f(1))",
              "h()h()", "f(())", "g((,),(,))", "g((),)", "f([,])", "f({1,2})", "id(f)", "id(f) (3)", "h h()", "id(id)(id)(4)")]
    chunked("arguments", cases)

    # ------------------------------------------------------------ variadic
    ctx.rule("variadic", "the variable arguments, with their commas, replace __VA_ARGS__; the extension ', ## __VA_ARGS__' drops the comma "
             "when there are none")
    V = ["v(...) [__VA_ARGS__]", "w(x,...) [x|__VA_ARGS__]", "s(...) #__VA_ARGS__", "t(x,...) #x:#__VA_ARGS__", "c(...) a ## __VA_ARGS__ z",
         "d(...) __VA_ARGS__ ## a", "e(x,...) x, ## __VA_ARGS__", "M m n", "n2(x,y,...) y __VA_ARGS__ x"]
    cases = [(V, t) for t in
             ("v()", "v(1)", "v(1,2)", "v(1, 2,3)", "v((1,2),3)", "v(,)", "v(M)", "v(v(1,2),M)", "w(1)", "w(1,2)", "w(1,2,3)", "w(,)", "w()",
              "w(M,M)", "s()", "s(1)", "s(1,2)", "s( 1 , 2 )", "s(M)", "s(\"a\\n\",'b')", "t(1)", "t(1,2, 3)", "t(,)", "c()", "c(1)", "c(1,2)",
              "c(M,M)", "d()", "d(1)", "d(1,2)", "d(M,M)", "e(1)", "e(1,2)", "e(1,2,3)", "e(1,M)", "e()", "n2(1,2)", "n2(1,2,3,4)", "n2(1)",
              "v(1", "w(1,2", "v", "v + 1", "v(e(1))", "w(v,1)(2)")]
    chunked("variadic", cases)

    # ------------------------------------------------------------ spelling
    ctx.rule("stringify", "# yields the spelling of the argument: white space collapses to one space between tokens and none at the ends, "
             "and only the quotes and backslashes of literals are escaped")
    toklist = sorted(PUNCT) + ["abc", "12", "1.5e+3", "0x1F", ".5", "\"s\"", "\"a\\n\\\"b\\\"\"", "'c'", "'\\n'", "'\\''", "'\"'", "L\"w\"",
                               "u8\"w\"", "L'w'", "\"\\\\\"", "\"\\x41\"", "\"it's\""]
    cases = []
    for t in toklist:
        if t in ("(", ")", ",", "#", "##"):
            continue
        cases.append((["S(x) #x"], "S(%s)" % t))
        if t in ("{", "}", "[", "]", ";", "~", "?"):
            continue
    cases += [(["S(x) #x"], "S(%s)" % t) for t in
              ("a b", " a  b ", "a\tb", "a\nb", "a+b", "a + b", "( a , b )", "(a,b)", "a (b)", "f(x)", "a##b", "a # b", "a #b", "#", "##", "M",
               "\"a\" \"b\"", "a\"b\"c", "- -1", "--1", "-  - 1", "( )", "()", "a. b .c", "x ->y")]
    cases += [(["M m1 m2", "X(x) S(x)", "S(x) #x", "C(a,b) a ## b", "K(a) p a s"], t) for t in
              ("X(M)", "X(M M)", "X(a M b)", "X( M )", "X((M))", "X(+M+)", "X(C(1,2))", "X(a C(1,2) b)", "X(aC(1,2))", "X(K(1))", "X(K(M))",
               "X(K( M ))", "X(K())", "X(-K(-1))", "X(S(a b))", "X(S(\"q\\n\"))", "X(X(a))", "X(a S(b) c)")]
    cases += [(["E", "X(x) S(x)", "S(x) #x", "J(x) x"], t) for t in
              ("X(a E+b)", "X(a E b)", "X(aE b)", "X(E a E b E)", "X(+E+)", "X(+ E+)", "X(+E +)", "X(E)", "X(J(a) J(b))", "X(-J(-))",
               "X(J( a )J( b ))", "X(J(a) E+J(b))")]
    chunked("stringify", cases)

    # ------------------------------------------------------------ paste
    ctx.rule("paste", "## forms the token spelled by its operands, whatever kinds they are, and anything that is no token is diagnosed")
    left = ["a", "1", "1e", ".", "+", "-", "<", ">", "<<", ">>", "&", "|", "=", "!", "*", "/", "%", "^", "#", "L", "u8", "u", "U", "0x", "..", "\"s\"", "("]
    right = ["b", "2", "+", "-", ">", "<", "=", "&", "|", "#", ".", "\"s\"", "'c'", "<=", ">=", "5", "/", "*", ")"]
    cases = []
    for a in left:
        for b in right:
            if a == ".." or (a, b) in (("/", "*"), ("/", "/")):
                continue
            if a == "(" or b == ")":
                continue
            cases.append((["P(x,y) x ## y"], "P(%s,%s)" % (a, b)))
    cases += [(["P %s ## %s" % (a, b)], "P") for a, b in (("a", "b"), ("+", "="), ("#", "#"), ("L", "\"s\""), ("<", "<="), ("x", "+"))]
    cases += [([d], "P(1,2) P") for d in ("P(x,y) ## x", "P(x,y) x ##", "P(x,y) #", "P(x,y) # q", "P(x,y) x # y", "P(x,y) x ## # y",
                                          "P ## a", "P a ##", "P # a", "P a # b", "P #")
              if d not in ("P(x,y) #",)]
    chunked("paste", cases)

    # ------------------------------------------------------------ definitions over time
    ctx.rule("history", "an invocation uses the definition in force where it is expanded; #undef removes it and redefinition replaces it")

    def history():
        def one(inst, raw, want, hz=False):
            res, dead = evaluate(ctx, None, None, hz, raw)
            got = res if res == "loop" else [[t[0] for t in r] for r in res]
            ctx.ob("history", inst + (" (colliding names)" if hz else ""), got == [want.split()] and not dead, "define map",
                   "expands to %s, required %s" % (got, want))
        for hz in (False, True):
            one("redefine", "#define A 1\nA\n#define A 2\nA\n", "1 2", hz)
            one("undef", "#define A 1\nA\n#undef A\nA\n#define A 3\nA\n", "1 A 3", hz)
            one("undef one of several", "#define A 1\n#define B 2\n#define C 3\n#undef B\nA B C\n#undef A\nA B C\n#undef C\nA B C\n", "1 B 3 A B 3 A B C", hz)
            one("undef first", "#define A 1\n#define B 2\n#define C 3\n#undef A\nA B C\n#define A 4\nA B C\n", "A 2 3 4 2 3", hz)
            one("undef last", "#define A 1\n#define B 2\n#define C 3\n#undef C\nA B C\n#define C 5\n#define B 6\nA B C\n", "1 2 C 1 6 5", hz)
            one("undef undefined", "#define B 2\n#undef A\nA B\n", "A 2", hz)
            one("function to object", "#define A(x) [x]\nA(1)\n#undef A\n#define A 7\nA(1)\n", "[ 1 ] 7 ( 1 )", hz)
            one("object-like with parenthesis", "#define A (x)\nA A(1)\n", "( x ) ( x ) ( 1 )", hz)
            one("late definition", "#define A B\nA\n#define B 2\nA\n", "B 2", hz)
            one("prefix names", "#define AB 1\n#define A 2\n#define ABC 3\nA AB ABC ABCD\n", "2 1 3 ABCD", hz)
            one("empty", "#define A\nA x A\n", "x", hz)
            one("directive between invocation tokens", "#define f(x) [x]\n#define A 1\nf(A)\n#undef A\nf(A)\n", "[ 1 ] [ A ]", hz)
            one("pragma push/pop", "#define A 1\n#pragma push_macro(\"A\")\n#define A 2\nA\n#pragma pop_macro(\"A\")\nA\n", "2 1", hz)
        one("line", "\n\n__LINE__\n#line 7\n__LINE__ __LINE__\n__LINE__\n#define q\n__LINE__\n", "3 7 7 8 10")
        one("line after macro include", "#line 20 \"x.h\"\n__FILE__ __LINE__\n", "\"x.h\" 20")
        one("line from macro", "#define L 30 \"y.h\"\n#line L\n__LINE__ __FILE__\n", "30 \"y.h\"")
        one("line in argument list", "#define f(x) x\n\nf(__LINE__)\n", "3")
        one("file", "__FILE__\n", "\"f.c\"")
        one("line with no name keeps the name", "#line 4 \"z.c\"\n#line 9\n__LINE__ __FILE__\n", "9 \"z.c\"")
    tasks.append(history)

    def line_files():
        src = "#line 40 \"outer\"\n__LINE__ __FILE__\n#include \"n.h\"\n__LINE__ __FILE__\n"
        inc = "__LINE__ __FILE__\n#line 9 \"inner\"\n__LINE__ __FILE__\n"
        pp = PP(ctx, {"f.c": src, "n.h": inc})
        I = pp.interp()
        res = pp.drain(I, pp.start(I), "expander_next", limit=60)
        got = [[t[1] for t in r[1]] for r in res]
        want = "40 \"outer\" 1 \"n.h\" 9 \"inner\" 42 \"outer\"".split()
        ctx.ob("history", "#line is local to its file", got == [want], "#line", "got %s, required %s" % (got, want))
    tasks.append(line_files)

    # ------------------------------------------------------------ set operations
    ctx.rule("sets", "hide-set insertion, union, intersection and membership are the set operations, on every pair of subsets")

    def sets():
        U = ["b", "d", "f"]
        subs = [list(c) for r in range(4) for c in itertools.combinations(U, r)]
        pp = PP(ctx, {})
        I = pp.interp()
        P = ctx.P

        def build(order):
            st = St()
            loc = ("g", "#set")
            st.mem[loc] = ("struct", "string_set", (("size", 0), ("cap", 0), ("strings", 0)))
            for s in order:
                (st, sig, rv), = I.call_body(st, P.need("string_set_insert"), [("addr", loc), ("str", s)])
            return st, loc

        def val(st, v):
            n = I.project(v, ("f", v, "size"))
            p = I.project(v, ("f", v, "strings"))
            return [pp.chars(I, st, I.rd(st, ("i", p[1][1], p[1][2] + k))) for k in range(n)]
        for r in range(5):
            for order in itertools.product(U, repeat=r):
                st, loc = build(order)
                got = val(st, I.rd(st, loc))
                ctx.ob("sets", "insert %s" % (order,), sorted(got) == sorted(set(order)), "string_set_insert", "holds %s" % got)
                for x in U + ["a", "c", ""]:
                    (s2, sig, rv), = I.call_body(st.fork(), P.need("string_set_contains"), [I.rd(st, loc), pp.mksv(x)])
                    ctx.ob("sets", "%s in %s" % (x, order), rv == int(x in order), "string_set_contains", "returns %s" % show(rv))
        # sets as the operations themselves build them: by insertion in every order
        for a in subs:
            for b in subs:
                for oa in set(itertools.permutations(a)):
                    ob = tuple(b)
                    for ob in ([tuple(b), tuple(b[::-1])] if len(b) > 1 else [tuple(b)]):
                        st, loc = build(oa)
                        st.mem[("g", "#set2")] = ("struct", "string_set", (("size", 0), ("cap", 0), ("strings", 0)))
                        for s in ob:
                            (st, sig, rv), = I.call_body(st, P.need("string_set_insert"), [("addr", ("g", "#set2")), ("str", s)])
                        for fn, op in (("string_set_union", set.union), ("string_set_intersection", set.intersection)):
                            (s2, sig, rv), = I.call_body(st.fork(), P.need(fn), [I.rd(st, loc), I.rd(st, ("g", "#set2"))])
                            got = val(s2, rv)
                            want = op(set(oa), set(ob))
                            ctx.ob("sets", "%s(%s,%s)" % (fn[11:], oa, ob), sorted(got) == sorted(want), fn, "yields %s" % got)
        ctx.functions |= I.analysed
    tasks.append(sets)
    ctx.parallel(tasks)


FLOORS = {"substitution": 300, "rescan": 200, "hide order": 30, "arguments": 40, "variadic": 40, "stringify": 80, "paste": 300,
          "history": 20, "sets": 500}
