"""C27 (I/O failures): fault injection by abstract evaluation. Every routine that opens, reads, writes or closes a file is evaluated on small
abstract inputs with its k-th stream operation forced to fail, for every k: a failed fopen yields a null pointer with errno set, a failed
read or write yields a short count or EOF and leaves the stream's error indicator set, a failed seek or tell yields -1, and a failed flush or
close of a written stream yields EOF. After the fault no path may return: it has to end in one of the error routines. The same evaluation
without a fault has to return. The error routines are checked separately to print a message and exit with a non-zero status."""
import re
from absint import Ev, St, show
from front import AnalysisError, locs
from lib_obj import Heap, Obj, Section, Sym, Wrong
from lib_asm import cformat
from rules import c18

EXPLANATION = __doc__
FLOORS = {"faults": 150, "clean": 8, "status": 4}
ASSUMPTIONS = ["the C library reports failures as ISO C prescribes: results, the stream's error indicator and errno",
               "a failure to close a stream that was only read loses nothing and needs no report",
               "writes to standard error, and diagnostics written to standard output, are not outputs"]
ENOENT, EACCES, EIO = 2, 13, 5
N, HIT = ("g", "#n"), ("g", "#hit")


class Faulty(Heap):
    """Heap whose stream operations are counted; the one numbered K fails (K = None: none does)"""
    def __init__(self, ctx, tus, K, stdout=False, errno=EIO, **kw):
        Heap.__init__(self, ctx, tus, **kw)
        I, X = self.I, self.X
        base = dict(I.models)

        def std(st, p):
            return p in (("ob", "file:stdout"), ("ob", "file:stderr"))

        def counted(st, fp):
            return not (fp == ("ob", "file:stderr") or fp == ("ob", "file:stdout") and not stdout)

        def tick(st, what, n, f):
            k = st.mem.get(N, 0)
            st.mem[N] = k + 1
            if K is None:
                st.ev = (st.ev, Ev("op", what, (tuple(map(id, I.sites)) + (id(n),),), locs(n), f.name if f else "?"))
            if k != K:
                return False
            st.mem[HIT] = what
            st.ev = (st.ev, Ev("fault", what, (), locs(n), f.name if f else "?"))
            st.mem[("g", "#errno")] = errno
            return True

        def bad(st, fp):
            st.mem[("g", "#bad", fp)] = 1

        def known(fp):
            if not (isinstance(fp, tuple) and fp[0] == "ob" and fp[1].startswith("file:")):
                raise Wrong("stream operation on %s" % show(fp))

        def m_open(I, st, a, n, f):
            if tick(st, "fopen", n, f):
                return [(st, 0)]
            path, mode = X.chars(I, st, a[0]), X.chars(I, st, a[1])
            if mode[0] == "w":
                st.mem[("g", "#written", ("ob", "file:" + path))] = 1
            elif ("g", "#file:" + path + "$") not in st.mem:
                st.mem[("g", "#errno")] = ENOENT
            return base["fopen"](I, st, a, n, f)

        def writer(name, at, fail):
            def m(I, st, a, n, f):
                fp = a[at] if at is not None else ("ob", "file:stdout")
                if at is None and not stdout:
                    return [(st, 1)]
                known(fp)
                if counted(st, fp) and tick(st, name, n, f):
                    bad(st, fp)
                    return [(st, a[2] - 1 if name == "fwrite" and isinstance(a[2], int) and a[2] > 0 else fail)]
                if name == "fwrite":
                    return base["fwrite"](I, st, a, n, f) if not std(st, fp) else [(st, a[2])]
                return [(st, 1)]
            return m

        def m_read(I, st, a, n, f):
            known(a[3])
            if tick(st, "fread", n, f):
                bad(st, a[3])
                # as much as possible short of everything: anything but the full count is a failure
                return [(s, v - 1 if isinstance(v, int) and v > 0 and v == a[2] else v if isinstance(v, int) else 0)
                        for s, v in base["fread"](I, st, a, n, f)]
            return base["fread"](I, st, a, n, f)

        def m_getc(I, st, a, n, f):
            if tick(st, "fgetc", n, f):
                bad(st, a[0])
                return [(st, -1)]
            return base["fgetc"](I, st, a, n, f)

        def m_seek(I, st, a, n, f):
            if tick(st, "fseek", n, f):
                return [(st, -1)]
            return base["fseek"](I, st, a, n, f)

        def m_tell(I, st, a, n, f):
            if tick(st, "ftell", n, f):
                return [(st, -1)]
            return base["ftell"](I, st, a, n, f)

        def m_flush(I, st, a, n, f):
            fp = a[0]
            if counted(st, fp) and tick(st, "fflush", n, f):
                bad(st, fp)
                return [(st, -1)]
            return [(st, 0)]

        def m_close(I, st, a, n, f):
            known(a[0])
            w = st.mem.get(("g", "#written", a[0]))
            r = base["fclose"](I, st, a, n, f)
            if w and tick(st, "fclose", n, f):
                return [(s, -1) for s, _ in r]
            return r

        def m_ferror(I, st, a, n, f):
            return [(st, 1 if st.mem.get(("g", "#bad", a[0])) else 0)]

        def m_expand(I, st, a, n, f):
            s = cformat(X, I, st, X.chars(I, st, a[2]), a[3:])
            I.write(st, I.deref(st, a[0]), ("str", s))
            return [(st, 0)]

        def m_strlen(I, st, a, n, f):
            return [(st, len(X.chars(I, st, a[0])))]
        one = lambda I, st, a, n, f: [(st, 1)]
        m = {"fopen": m_open, "fread": m_read, "fgetc": m_getc, "getc": m_getc, "fseek": m_seek, "ftell": m_tell, "fflush": m_flush, "fclose": m_close,
             "ferror": m_ferror, "fwrite": writer("fwrite", 3, 0), "fprintf": writer("fprintf", 0, -1), "vfprintf": writer("vfprintf", 0, -1),
             "fputs": writer("fputs", 1, -1), "fputc": writer("fputc", 1, -1), "putc": writer("putc", 1, -1), "printf": writer("printf", None, -1),
             "vprintf": writer("vprintf", None, -1), "puts": writer("puts", None, -1), "putchar": writer("putchar", None, -1),
             "__errno_location": lambda I, st, a, n, f: [(st, ("addr", ("g", "#errno")))], "strerror": lambda I, st, a, n, f: [(st, ("str", "failure"))],
             "expand_printf": m_expand, "strlen": m_strlen, "strdup": lambda I, st, a, n, f: [(st, a[0])],
             "feof": lambda I, st, a, n, f: [(st, 0)], "clearerr": lambda I, st, a, n, f: (st.mem.__setitem__(("g", "#bad", a[0]), 0), [(st, 0)])[1]}
        mine = kw.get("models") or {}
        I.models.update({k: v for k, v in m.items() if k not in mine})
        for s in ("stdout", "stderr"):
            self.st.mem[("g", s)] = ("ob", "file:" + s)
        self.st.mem[("g", "#errno")] = 0

    def go(self, steps):
        """the states reached after the steps (fn, args | callable(state)) and the error paths"""
        sts, dead = [self.st], []
        for fn, args in steps:
            nxt = []
            for s in sts:
                r, d = self.call(fn, args(s) if callable(args) else args, s)
                nxt += r
                dead += d
            sts = [s for s, _ in nxt]
            self.last = nxt
        return sts, dead


# ------------------------------------------------------------------------------------------------ scenarios
def small():
    return Obj([Section(".text", [1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 0, 0], 16, [(8, "pc32", 1, -4)]), Section(".data", [9] * 8, 8)],
               [Sym("f", 0, 0, 1), Sym("g", -1, 0, 1), Sym("local", 1, 0, 0)])


def tus_of(P, *names):
    return {P.need(n).file for n in names}


def scenarios(ctx):
    P = ctx.P
    S = {}

    def obj_write(fn):
        def mk(K, errno=EIO):
            h = Faulty(ctx, tus_of(P, fn, "object_start", "file_write"), K, errno=errno)
            p = h.put_object(small())
            return h, [(fn, [("str", "o"), p])], True
        return mk
    S["writing an ELF object"] = obj_write("elf_write_object")
    S["writing a COFF object"] = obj_write("coff_write_object")

    def exe(K, errno=EIO):
        h = Faulty(ctx, tus_of(P, "elf_write_executable", "linker_link", "object_start", "file_write"), K, errno=errno)
        o = Obj([Section(".text", [0x90] * 4, 16)], [Sym("_start", 0, 0, 1)])
        p = h.put_object(o)
        r, d = h.call("linker_link", [1, p])
        if not r:
            raise AnalysisError("the linker does not link a trivial object")
        h.st = r[0][0]
        return h, [("elf_write_executable", [("str", "x"), r[0][1]])], True
    S["writing an executable"] = exe

    def rd(K, errno=EIO):
        h = Faulty(ctx, tus_of(P, "elf_write_object", "elf_read_object", "object_start", "file_write"), None, errno=errno)
        p = h.put_object(small())
        r, d = h.call("elf_write_object", [("str", "o"), p])
        if len(r) != 1:
            raise AnalysisError("the object to be read cannot be produced")
        g = Faulty(ctx, tus_of(P, "elf_write_object", "elf_read_object", "object_start", "file_write"), K, errno=errno)
        for k in r[0][0].mem.below(("g", "#file:o"), []):
            g.st.mem[k] = r[0][0].mem[k]
        g.st.mem[("g", "#file:o$")] = r[0][0].mem[("g", "#file:o$")]
        # a null result is the reader's way to refuse a file: the driver has to report it (scenario "the driver")
        return g, [("elf_read_object", [("str", "o")])], True
    S["reading an ELF object"] = rd

    def text(K, errno=EIO):
        own = tus_of(P, "asm_init_text_out", "file_write")
        h = Faulty(ctx, own, K, errno=errno, models={"rodata_get_label": lambda I, st, a, n, f: [(st, 0)]})
        lbl = ("struct", "operand", (("type", P.enum("OPERAND_IMM_LABEL_ABSOLUTE")), ("imm_label", ("struct", "?", (("label_", -1), ("offset", 5))))))
        seq = [("asm_init_text_out", [("str", "out.s")])]
        body = [("asm_section", [("str", ".data")]), ("asm_label", [1, 3]), ("asm_label", [0, 3]), ("asm_comment", [("str", "note")]),
                ("asm_ins0", [("str", "ret")]), ("asm_quad", [lbl]), ("asm_byte", [lbl]), ("asm_zero", [8]), ("asm_align", [8])]
        seq += [(f, a) for f, a in body if f in P.funcs]
        return h, seq + [("asm_finish", [])], True
    S["writing assembly"] = text

    def src(dirs, system, exists):
        def mk(K, errno=EIO):
            h = Faulty(ctx, tus_of(P, "input_open", "file_write"), K, errno=errno, inline=["string_set_contains", "sv_from_str"],
                       models={"string_set_contains": lambda I, st, a, n, f: [(st, 0)]})
            if exists:
                h.put_file(h.st, exists, [65, 66, 10])
            steps = [("input_add_include_path", [("str", d)]) for d in dirs]
            return h, steps + [("input_open", [("str", "src/main.c"), ("str", "a.h"), system])], bool(exists)
        return mk
    S["opening a quoted header"] = src(["inc", "sys"], 0, "src/a.h")
    S["opening a header on the search path"] = src(["inc", "sys"], 0, "sys/a.h")
    S["opening a system header"] = src(["inc", "sys"], 1, "sys/a.h")
    S["opening a header that does not exist"] = src(["inc", "sys"], 0, None)
    S["opening a file without search path"] = src([], 0, None)
    S["opening a system header without search path"] = src([], 1, None)

    def deps(K, errno=EIO):
        h = Faulty(ctx, tus_of(P, "directiver_push_input", "preprocessor_init", "file_write"), K, errno=errno, models={
            "input_open": lambda I, st, a, n, f: [(st, ("struct", "input", (("path", a[1]), ("contents", ("str", "")))))],
            "tokenize_input": lambda I, st, a, n, f: [(st, ("struct", "tokenized_file", ()))]})
        seq = [("preprocessor_write_dependencies", []), ("directiver_push_input", [("str", "a.c"), 0]), ("directiver_push_input", [("str", "a.h"), 0]),
               ("preprocessor_finish_writing_dependencies", [("str", "a.o"), ("str", "a.d")])]
        return h, seq, True
    S["writing dependencies"] = deps

    def dot(K, errno=EIO):
        h = Faulty(ctx, tus_of(P, "export_dot", "file_write"), K, errno=errno, models={"dbg_instruction": lambda I, st, a, n, f: [(st, ("str", "node"))]})
        def node(**k):
            b = h.X.new(h.st)
            h.st.mem[("i", b, 0)] = 0
            del h.st.mem[("i", b, 0)]
            h.st.mem[("g", "#zeroed")] = h.st.mem.get(("g", "#zeroed"), ()) + (b,)
            for f, v in k.items():
                h.st.mem[("f", ("i", b, 0), f)] = v
            return ("addr", ("i", b, 0))
        g = lambda n: P.enum(n)
        ins = node(type=g("IR_CONSTANT"), index=3)
        blk = node(type=g("IR_REGION"), index=2, child=ins)
        fn = node(type=g("IR_FUNCTION"), index=1, child=blk)
        h.st.mem[("g", "first_function")] = fn

        def nodes(I, st, a, n, f):
            I.write(st, I.deref(st, a[0]), 0)
            I.write(st, I.deref(st, a[1]), 0)
            return [(st, 0)]
        h.I.models["ir_get_node_list"] = nodes
        return h, [("export_dot", [("str", "x.dot")])], True
    S["writing a graph"] = dot

    def driver(flags, operand):
        def mk(K, errno=EIO):
            main = P.need("main")
            own = [f.name for f in P.all_funcs if f.file == main.file and f.static]
            toks = ["a", "b", ";"]

            def m_args(I, st, a, n, f):
                d = {"flag_S": 0, "flag_c": 0, "flag_E": 0, "flag_MD": 0, "flag_g": 0, "flag_s": 0, "n_include": 0, "n_define": 0, "n_undefine": 0,
                     "n_flag": 0, "n_operand": 1, "operands": ("addr", ("i", ("g", "#ops"), 0)), "outfile": 0, "mt_path": 0, "mf_path": 0}
                d.update(flags)
                return [(st, ("struct", "arguments", tuple(d.items())))]

            def m_peek(I, st, a, n, f):
                at = st.mem.get(("g", "#at"), 0) + a[0]
                l = ("i", ("g", "#toks"), at)
                st.mem[l] = ("struct", "token", (("type", P.enum("T_IDENT") if at < len(toks) else P.enum("T_EOI")), ("first_of_line", int(at == 0)),
                                                 ("whitespace", int(at > 0)), ("whitespace_after", int(at > 1))))
                return [(st, ("addr", l))]

            def m_next(I, st, a, n, f):
                st.mem[("g", "#at")] = st.mem.get(("g", "#at"), 0) + 1
                return [(st, 0)]
            sl = lambda I, st, a, n, f: [(st, 0)]
            h = Faulty(ctx, tus_of(P, "main", "file_write", "sv_slice_string"), K, stdout=bool(flags.get("flag_E")), errno=errno, inline=own, models={
                "t_peek": m_peek, "t_next": m_next, "dbg_token": lambda I, st, a, n, f: [(st, ("str", "x"))], "elf_read_object": lambda I, st, a, n, f: [(st, 0)],
                "define_string": sl, "define_add": sl, "symbols_init": sl, "allocate_printf": lambda I, st, a, n, f: [(st, ("str", "text"))]})
            for n, f in P.funcs.items():
                if n.startswith("arguments") and "struct arguments" in (f.node.t[0] if f.node.t else ""):
                    h.I.models[n] = m_args
            h.st.mem[("i", ("g", "#ops"), 0)] = ("str", operand)
            return h, [("main", [2, ("ob", "argv")])], flags.get("flag_E")
        return mk
    S["preprocessing to standard output"] = driver({"flag_E": 1}, "a.c")
    S["an object file that cannot be read"] = driver({}, "bad.o")
    return S


def evaluate(ctx, name, mk):
    """[(rule, instance, ok, where, why)]"""
    res = []

    def dead_ok(d):
        ev = d.events if hasattr(d, "events") else []
        return bool(ev) and (ev[-1].name if ev else "")
    try:
        h, steps, clean = mk(None)
        where = ctx.P.need(steps[-1][0]).file
        sts, dead = h.go(steps)
    except Wrong as e:
        return [("clean", name, False, "?", str(e))]
    if clean:
        res.append(("clean", name, bool(sts) and not dead, where, "fails although no operation does" if not sts or dead else ""))
        if not sts:
            return res
    else:
        res.append(("clean", name, not sts and bool(dead), where, "goes on although nothing could be opened" if sts else "reports nothing"))
    total = max([s.mem.get(N, 0) for s in sts] + [d.st.mem.get(N, 0) for d in dead if hasattr(d, "st")] + [0])
    ks = list(range(total))
    if ctx.tier == "quick":
        # every chain of calls that leads to an operation: the first and the last time it is taken
        pick = set(ks[:2] + ks[-2:])
        for s in [s for s in sts] + [d.st for d in dead if hasattr(d, "st")]:
            seen = {}
            for k, e in enumerate([e for e in s.events() if e.k == "op"]):
                seen.setdefault(e.args[0], []).append(k)
            for v in seen.values():
                pick |= {v[0], v[-1]}
        ks = sorted(pick)
    for k in ks:
        for errno in ((EACCES,) if k == 0 or "open" in name else (EIO,)):
            try:
                h, steps, _ = mk(k, errno)
                sts, dead = h.go(steps)
            except Wrong as e:
                res.append(("faults", "%s: operation %d fails" % (name, k), False, where, str(e)))
                continue
            hit = [s for s in sts if s.mem.get(HIT)]
            what = next((e for s in hit for e in s.events() if e.k == "fault"), None)
            ok = not hit
            if not hit and not [d for d in dead]:
                ok, what = False, None
            res.append(("faults", "%s: operation %d fails" % (name, k), ok, what.loc if what else where,
                        "" if ok else "%s fails%s, and the run goes on as if it had not" % (what.name if what else "an operation", " in %s" % what.fn if what else "")))
    return res


def status(ctx):
    """the error routines print something and end the program with a non-zero status"""
    P = ctx.P
    fs = [f for n, f in sorted(P.funcs.items()) if n.startswith("impl_error")]
    ctx.require(len(fs) >= 3, "error routines not found")
    for f in fs:
        def m_exit(I, st, a, n, g):
            st.ev = (st.ev, Ev("exit", "exit", tuple(a), locs(n), g.name if g else "?"))
            return [(st, 0)]
        pr = lambda nm: lambda I, st, a, n, g: (setattr(st, "ev", (st.ev, Ev("print", nm, tuple(a), locs(n), g.name if g else "?"))), [(st, 1)])[1]
        I = ctx.interp(inline=[g.name for g in fs], models={"exit": m_exit, "_Exit": m_exit, "abort": lambda I, st, a, n, g: m_exit(I, st, [134], n, g)})
        for nm in ("printf", "vprintf", "fprintf", "vfprintf", "puts", "fputs", "putchar", "fputc"):
            I.models[nm] = pr(nm)
        rs = I.call_body(St(), f, [("p", "a%d" % i) for i in range(len(f.params))])
        ps = [s for s, _, _ in rs] + [d.st for d in I.take_dead()]
        ctx.functions |= I.analysed
        ctx.paths += len(ps)
        ok, why = bool(ps), "no path"
        for s in ps:
            ev = s.events()
            ex = [e for e in ev if e.k == "exit"]
            first = ev.index(ex[0]) if ex else len(ev)
            if not ex or not isinstance(ex[0].args[0], int) or not ex[0].args[0] & 255:
                ok, why = False, "ends with status %s" % (show(ex[0].args[0]) if ex else "of a normal return")
            elif not any(e.k == "print" for e in ev[:first]):
                ok, why = False, "prints no message"
        ctx.ob("status", f.name, ok, f.file, why)


def run(ctx):
    for k, t in {"faults": "once a stream operation has failed, no path returns normally", "clean": "without a failing operation the routine succeeds (and a missing file is reported)",
                 "status": "an error routine prints a message and ends the run with a non-zero status"}.items():
        ctx.rule(k, t)
    S = scenarios(ctx)

    def job(name):
        def go():
            for rule, inst, ok, where, why in evaluate(ctx, name, S[name]):
                ctx.ob(rule, inst, ok, where, why)
        return go
    ctx.parallel([job(n) for n in S] + [lambda: status(ctx)])
