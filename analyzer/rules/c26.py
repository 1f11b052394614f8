"""C26: whatever cannot be compiled is reported, and the run ends with a failure status before anything is written."""
import os
from absint import show, Ev, St, Limit
from front import AnalysisError, locs, callee_name
from lib import *
from flow import Flow
from lib_asm import Wrong
from lib_pp import Src, events
from lib_tu import Unit, Crash, lex
from rules import c22, c23, c31

EXPLANATION = ("The reporting routines are evaluated with every path through them: each prints its message and ends the run with a non-zero constant status, for every argument. The whole front end is then "
               "evaluated abstractly (parser, symbol tables, types, IR construction; nothing replaced but allocation, strings and the token source) on a table of ill-formed translation units, "
               "and so are the tokenizer, the preprocessor and the command line: each must end in a reporting routine on every path, none may be accepted, dereference a null pointer or run out of "
               "its arrays. A control list of well-formed units must be accepted without a report.")
ASSUMPTIONS = ["assert() is compiled in: a failed assertion prints its text and ends the run with SIGABRT, which counts as a report",
               "the tables sample the grammar: every expected token, every name lookup and every constraint the compiler checks is violated at least once"]
FLOORS = {"reporters": 4, "rejected": 200, "accepted": 40, "tokens": 6, "directives": 70, "exits": 4, "order": 15, "command line": 25}
HERE = os.path.dirname(os.path.abspath(__file__))

GOOD = """int x;
int x; int x;
extern int x; int x = 1;
int x = 1; extern int x;
static int x; static int x = 2;
int f(void); int f(void) { return 0; }
int f(); int f(int a) { return a; }
int f(int a); int f(const int a) { return a; }
int a[]; int a[3];
int a[3] = { 1, 2, 3, };
int a[] = { [4] = 1 };
enum e { A, B, C = 7, D, }; int x[D];
enum e { A }; enum e x;
struct s { int a; struct { int b; int c; }; union { int d; char e; }; } x = { 1 }; int f(void) { return x.b + x.e; }
struct s; struct s *p; struct s { struct s *n; }; int f(void) { return p->n->n == 0; }
struct s { int a : 3, : 2, b : 4; } x; int f(void) { return x.a = x.b; }
struct s { int a; } x, y; int f(void) { y = x; return y.a; }
struct s { int a; } x; const struct s y; int f(void) { x = y; return x.a; }
struct s { int a; } f(struct s p) { return p; }
struct s { int a; } x; void f(void) { (void)x; }
typedef int t; t f(t t) { return t; }
typedef struct { int a; } t; t x = { .a = 1 };
int f(int n) { if (n) return 1; else return 2; }
int f(int n) { while (n) { if (n == 3) break; if (n == 4) continue; n--; } do n++; while (n < 3); for (int i = 0; i < n; i++) ; for (;;) break; return n; }
int f(int n) { switch (n) { case 1: case 2: return 1; default: break; case 3: ; } return n; }
int f(int n) { goto x; x: return n; }
int f(int n) { x: if (n) goto x; return n; }
int f(int n) { int x; { int x; x = n; } { char x; x = n; } return 0; }
int f(int n) { int a[n]; a[0] = 1; return a[0]; }
int f(int a, ...) { __builtin_va_list v; __builtin_va_start(v, a); a = __builtin_va_arg(v, int); __builtin_va_end(v); return a; }
int f(int n) { return n ? n + 1 : n == 2 || n < 4 && n; }
int f(int n) { return (n++, ++n, n--, --n, n += 2, n -= 3, n *= 4, n); }
int f(int *p) { return *p + p[1] + *(p + 2) + !p + (p - p) + (p == 0); }
int *f(int *p) { p++; return &p[1]; }
int f(double d, float g) { return d + g > 1.0 && !d; }
int f(unsigned long a, char c) { return (char)a + c * 2 - ~c; }
int x = sizeof(int) + sizeof x; int y = sizeof(x) + _Alignof(int);
int x = _Generic(1, int: 2, default: 3);
_Static_assert(1, "x"); _Static_assert(sizeof(int) == 4, "x"); int x;
_Alignas(8) int x; _Alignas(int) char y;
int f(void) { return g(void); } int q;
int x = __builtin_offsetof(struct s { int a, b; }, b);
char s[] = "abc"; char *p = "abc" ; int f(void) { return sizeof "abc" + "abc"[1]; }
int (*f(int a))(void) { return 0; }
int (*p)(int); int f(int a) { return p(a) + (*p)(a); }
int f(void) { static int x = 3; return x++; }
int f(void) { extern int x; return x; } int x;
int f(void) { struct s { int a; } x = { 1 }, y = x; return y.a + ((struct s) { 2 }).a; }
void f(void) { return; }
int f(void) { const int x = 2; return x; }
inline static int f(void) { return 1; }
_Noreturn void f(void) { for (;;) ; }
unsigned long long int x; long unsigned y; short int z; signed char w;
int f(void) { register int x = 1; return x; }
int f(void) { return __func__[0]; }""".replace("int f(void) { return g(void); } int q;\n", "").split("\n")

# what the tokenizer cannot read
TOKENS = {"unterminated comment": b"int x; /* abc\n", "unterminated string": b"char *x = \"abc\n;", "unterminated character": b"int x = 'a\n;", "string at the end": b"\"abc", "comment at the end": b"/*",
          "comment ends in a star": b"/* *", "separator": b"int x = 1'; int y;", "short \\u": b"\"\\u12\"", "short \\U": b"\"\\U1234567\"",
          "empty character": b"int x = '';", "prefixes": b"char *x = L\"a\" u\"b\";"}

DIRECTIVES = ["#if 1\nx\n", "#if 0\nx\n", "#ifdef A\nx\n", "#ifndef A\nx\n", "#if 1\n#else\nx\n", "#if 1\n#if 0\n#endif\n", "#else\nx\n", "#endif\n", "#elif 1\n", "#if 1\n#endif\n#endif\n", "#if 1\n#endif\n#else\n",
              "#if 1\n#else\n#else\n#endif\n", "#if 0\n#else\n#else\n#endif\n", "#if 1\n#else\n#elif 1\n#endif\n", "#if 0\n#else\n#elif 1\n#endif\n",
              "#error x\n", "#error\n", "#if 1\n#error x\n#endif\n", "#if 0\n#else\n#error y\n#endif\n", "#if 0\n#elif 1\n#error y\n#endif\n", "#foo\n", "#if 1\n#foo\n#endif\n", "#define\n", "#define 1\n", "#define +\n",
              "#undef\n", "#undef 1\n", "#ifdef\n#endif\n", "#ifdef 1\n#endif\n", "#ifndef\n#endif\n", "#ifndef +\n#endif\n",
              "#if\n#endif\n", "#if 1 +\n#endif\n", "#if (1\n#endif\n", "#if 1)\n#endif\n", "#if 1 2\n#endif\n", "#if )\n#endif\n", "#if 1 ? 2\n#endif\n", "#if 1 ? : 2\n#endif\n", "#if 1/0\n#endif\n", "#if 1%0\n#endif\n",
              "#if 1 ? 1/0 : 2\n#endif\n", "#if 1.0\n#endif\n", "#if \"a\"\n#endif\n", "#if 1 = 2\n#endif\n", "#if defined\n#endif\n", "#if defined(\n#endif\n", "#if defined(A\n#endif\n", "#if defined(1)\n#endif\n",
              "#if defined 1\n#endif\n", "#if 0\n#elif\n#endif\n", "#if 0\n#elif 1 +\n#endif\n", "#if +\n#endif\n", "#if !\n#endif\n", "#if 1, 2\n#endif\n",
              "#include\n", "#include x\n", "#include 1\n", "#line\n", "#line +\n", "#define A b\n#line A\n", "#define A\n#line A\n", "#line x\n", "#line 3 x\n", "#line \"a\"\n",
              "#define A(x) x\nA(\n", "#define A(x) x\nA(1\n", "#define A(x) x\nA((1)\n", "#define A(x) x\nA(1,2)\n", "#define A(x,y) x\nA(1)\n", "#define A(x,y) x\nA(1,2,3)\n", "#define A() x\nA(1)\n",
              "#define A a ## +\nA\n", "#define A + ## +=\nA\n", "#define A ## a\nA\n", "#define A a ##\nA\n", "#define A(x) #y\nA(1)\n"]
FINE = ["#if 1\nx\n#endif\n", "#if 0\n#error x\n#endif\ny\n", "#if 0\n#foo\n#endif\ny\n", "#if 0\n#if 1/0\n#endif\n#elif 1\n#else\n#error\n#endif\n", "#define A(x) x\nA (1)\n", "#define A(x) x\nA\n", "#define A(x,y) x y\nA(,)\n",
        "#\n", "#undef A\n", "#ifdef A\n#error\n#else\n#endif\n", "#if 1 || 1/0\n#endif\n", "#if 0 && 1/0\n#endif\n", "#if 1 ? 2 : 1/0\n#endif\n", "#line 3\n", "#line 3 \"a\"\n", "#pragma x\ny\n", "#define A a ## b\nA\n"]


def reporters(ctx):
    """every path of a reporting routine prints and ends the run with a constant failure status"""
    P = ctx.P
    PRINT = {n: "text" for n in ("printf", "fprintf", "vprintf", "vfprintf", "puts", "fputs", "perror", "fputc", "putchar", "putc", "fwrite")}
    for name in ("impl_error", "impl_error_no_pos", "impl_error_ice", "impl_error_notimp"):
        f = P.need(name)
        ends = []

        def m_exit(I, st, a, n, f):
            ends.append((a[0] if a else 1, [e for e in events(st) if e.k == "printed"], locs(n)))
            return []

        def m_print(nm):
            def m(I, st, a, n, f):
                st.ev = (st.ev, Ev("printed", nm, tuple(a), locs(n), f.name if f else "?"))
                return [(st, ("fn", "printed", ()))]
            return m
        nop = lambda I, st, a, n, f: [(st, 0)]
        M = {n: m_print(n) for n in PRINT}
        M.update({"exit": m_exit, "_Exit": m_exit, "_exit": m_exit, "abort": m_exit, "quick_exit": m_exit, "fflush": nop})
        M.update({k: nop for k in ("va_start", "va_end", "va_copy", "__builtin_va_start", "__builtin_va_end", "__builtin_va_copy")})
        I = ctx.interp(inline=[], models=M, inline_tus=[f.file])
        args = [("p", "arg%d" % i) for i in range(len(f.params))]
        rs = I.call_body(St(), f, args)
        dead = I.take_dead()
        ctx.functions |= I.analysed
        ctx.paths += len(rs) + len(ends)
        ctx.ob("reporters", name + ": never returns", not rs and not dead and bool(ends), locs(f.node), "%d paths return to the caller, %d reach the end of the run" % (len(rs), len(ends)))
        msg = args[-1]
        for code, printed, loc in ends:
            ctx.ob("reporters", name + ": status", isinstance(code, int) and code & 255 != 0, loc, "exit status %s" % show(code))
            ctx.ob("reporters", name + ": prints", bool(printed), loc, "the run ends without a message")
            if name != "impl_error_notimp":
                ctx.ob("reporters", name + ": message", any(msg in e.args for e in printed), loc, "the message of the caller is not printed")


def exits(ctx):
    """the run ends with a constant non-zero status wherever it ends other than by returning from main"""
    P, Fl = ctx.P, Flow(ctx.P)
    for f in P.all_funcs:
        for n in f.node.walk():
            if n.k != "CallExpr" or callee_name(n) not in ("exit", "_Exit", "_exit", "quick_exit", "longjmp", "_longjmp", "siglongjmp"):
                continue
            v = Fl.const(n.ch[1]) if len(n.ch) > 1 else None
            v = v[1] if isinstance(v, tuple) and len(v) == 2 else v
            ctx.ob("exits", "%s:%s" % (f.name, callee_name(n)), isinstance(v, int) and v & 255 != 0, locs(n), "%s(%s) ends the run" % (callee_name(n), v))


def conditional(ctx, src):
    W = c22.IfExpr(ctx)
    W.env = {"1.0": (("p", "x"), "ST_DOUBLE")}
    pp = W.pp(src)
    I = pp.interp()
    I.max_steps = 300000
    I.typed = True
    try:
        res = pp.drain(I, pp.start(I), "directiver_next", limit=30)
    except Limit:
        return "loop", []
    ctx.paths += len(res)
    ctx.functions |= I.analysed
    return [[(t[1], t[0]) for t in r[1]] for r in res], I.take_dead()


PRAGMAS = ["1", "pack 4)", "pack(4", "pack()) int", "pack(push 4)", "pack(push, 4", "pack(push", "pack(pop", "pack(pop, 1)", "pack(1.5)", "pack(4 4)", "pack)", "pack(foo)"]


def pragma(s):
    return [("PP_DIRECTIVE", "#"), ("T_IDENT", "pragma")] + lex(s) + lex("int x;")


NR = ("impl_error", "impl_error_no_pos", "impl_error_ice", "impl_error_notimp", "__assert_fail", "abort")
HIT = set()


def unit(ctx, U, rule, src, good, chunk):
    inst = src if isinstance(src, str) else "#" + " ".join(t[1] for t in src)
    U.I.take_dead()
    try:
        rs, dead = U.parse(src)
    except Crash as e:
        return ctx.ob(rule, inst, False, "front end", "%s instead of %s" % (e, "compiling it" if good else "a report"))
    except Wrong as e:
        return ctx.ob(rule, inst, False, "front end", str(e))
    ctx.functions |= U.I.analysed
    ctx.paths += len(rs) + len(dead)
    last = [([e for e in events(d.st) if e.k == "noreturn"] or [None])[-1] for d in dead]
    for e in last:
        if e:
            HIT.add(str(e.loc))
    if good:
        return ctx.ob(rule, inst, bool(rs) and not dead, str(last[0].loc) if last and last[0] else "front end", "well-formed, but rejected")
    ctx.ob(rule, inst, not rs, "front end", "accepted, although it is ill-formed")
    ctx.ob(rule, inst + " [report]", bool(dead) and all(e is not None and e.name in NR for e in last) or bool(rs), "front end",
           "does not end in a report but in %s" % [e.name if e else "?" for e in last])


def run(ctx):
    for k, t in {"reporters": "a reporting routine prints the message and ends the run with a failure status on every path, whatever it is given",
                 "exits": "nothing ends the run with a success status from within", "rejected": "an ill-formed translation unit ends in a report",
                 "accepted": "a well-formed translation unit ends in no report", "tokens": "what is not a token is reported", "order": "no output is begun before the compilation of its input has succeeded", "directives": "ill-formed directives and macro calls are reported"}.items():
        ctx.rule(k, t)
    reporters(ctx)
    exits(ctx)
    with open(os.path.join(HERE, "c26_bad.txt")) as h:
        bad = [l for l in h.read().split("\n") if l.strip()]
    ctx.require(len(bad) > 200, "table of ill-formed units")
    U = Unit(ctx)
    jobs = [("rejected", s, False) for s in bad] + [("accepted", s, True) for s in GOOD] + [("rejected", pragma(p), False) for p in PRAGMAS] + \
        [("accepted", pragma(p), True) for p in ("pack(4)", "pack()", "pack(push)", "pack(push, 4)", "pack(pop)")]

    def part(js):
        return lambda: [unit(ctx, U, r, s, g, 0) for r, s, g in js]

    def directives(js):
        def go():
            for src, good in js:
                inst = src.replace("\n", "\\n")
                res, dead = conditional(ctx, src) if "#if" in src or "#elif" in src else c23.evaluate(ctx, None, None, False, src)
                if res == "loop":
                    ctx.ob("directives", inst, False, "preprocessor", "preprocessing does not end")
                elif good:
                    ctx.ob("directives", inst, bool(res) and not dead, "preprocessor", "well-formed, but rejected")
                else:
                    ok = not res and dead and all(any(e.k == "noreturn" and e.name in NR for e in p.events) for p in dead)
                    ctx.ob("directives", inst, bool(ok), "preprocessor", "ill-formed, must be reported: %s" % ([" ".join(t[0] for t in r) for r in res] or "internal failure"))
        return go

    def tokens():
        for k, data in TOKENS.items():
            pp = Src(ctx, {"f.c": data}, extra={"impl_warning": lambda I, st, a, n, f: [(st, 0)]})
            I = pp.interp()
            res = pp.drain(I, pp.start(I), "string_concat_next", limit=60) if ctx.P.funcs.get("string_concat_next") else pp.drain(I, pp.start(I), "expander_next", limit=60)
            dead = I.take_dead()
            ctx.functions |= I.analysed
            ctx.paths += len(dead)
            ctx.ob("tokens", k, not res and dead and all(any(e.k == "noreturn" and e.name in NR for e in p.events) for p in dead), "tokenizer", "not reported")
    W = 8
    tasks = [part(jobs[i::W]) for i in range(W)] + [directives(([(s, False) for s in DIRECTIVES] + [(s, True) for s in FINE])[i::4]) for i in range(4)] + [tokens]
    def order():
        # output files are opened when everything that can be diagnosed about their inputs has been
        for argv in (["-c", "a.c"], ["-c", "a.c", "b.c"], ["-S", "a.c"], ["-S", "a.c", "b.c"], ["-S", "a.c", "-o", "x"], ["-c", "a.c", "-o", "x"], ["a.c", "b.c", "-o", "x"], ["a.c", "b.o"], ["-MD", "-c", "a.c"], ["-fabi=ms", "-c", "a.c", "-o", "x.o"]):
            h = c31.Driver(ctx, argv)
            sts, dead = h.go()
            ctx.ob("order", " ".join(argv) + " [runs]", bool(sts) and not dead, "main", "the command line is not carried out")
            for s, _ in sts:
                done, linked = "", True
                for e in s.events():
                    if e.k != "stage":
                        continue
                    if e.name == "preprocessor_init":
                        done = "started"
                    elif e.name in ("parse_into_ir", "codegen"):
                        done = e.name
                    elif e.name in ("elf_write_object", "coff_write_object", "preprocessor_finish_writing_dependencies", "elf_write_executable", "asm_init_text_out"):
                        need = ("parse_into_ir", "codegen") if e.name == "asm_init_text_out" else ("codegen",)
                        ctx.ob("order", " ".join(argv) + " " + e.name, done in need, str(e.loc), "%s when compilation of the input is at: %s" % (e.name, done or "not begun"))
    tasks.append(order)
    ctx.parallel(tasks)
    # the command line
    plain = ctx.ob, ctx.rule
    ctx.ob = lambda rid, *a, **k: plain[0]("command line", *a, **k) if rid == "reject" else None
    ctx.rule = lambda rid, text: plain[1]("command line", text) if rid == "reject" else None
    c31.run(ctx)
    del ctx.ob, ctx.rule
