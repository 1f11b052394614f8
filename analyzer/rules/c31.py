"""C31 (options): main is evaluated abstractly on enumerated command lines (every option attached and separated, alone, combined and in
different orders, repeated, unknown, incomplete) with the C library modelled and the stages of the compiler recorded as events. For every
command line the sequence of events is compared with the effect the options are specified to have: macros defined and removed in order,
include directories in order before the default ones, mode of the output and the routine that writes it, output names, dependency files,
ABI and code model, or a diagnostic."""
from absint import Ev, show
from front import AnalysisError, locs
from lib_obj import Heap, Wrong
from lib_asm import cformat

EXPLANATION = __doc__
FLOORS = {"effect": 90, "reject": 25}
ASSUMPTIONS = ["the stages of the compiler called by main.c do what their own properties say (they are events here)"]


class Driver(Heap):
    def __init__(self, ctx, argv):
        P = ctx.P
        self.argv = argv
        main = P.need("main")
        tus = {main.file, P.need("arguments_parse").file, P.need("sv_slice_string").file}
        own = [f.name for f in P.all_funcs if f.file in (main.file, P.need("arguments_parse").file)]
        toks = ["x", ";"]

        def m_peek(I, st, a, n, f):
            at = st.mem.get(("g", "#at"), 0) + a[0]
            l = ("i", ("g", "#toks"), at)
            st.mem[l] = ("struct", "token", (("type", P.enum("T_IDENT") if at < len(toks) else P.enum("T_EOI")), ("first_of_line", 0), ("whitespace", 0), ("whitespace_after", 0)))
            return [(st, ("addr", l))]

        def m_next(I, st, a, n, f):
            st.mem[("g", "#at")] = st.mem.get(("g", "#at"), 0) + 1
            return [(st, 0)]

        def ev(name, st, args, n, f):
            st.ev = (st.ev, Ev("stage", name, tuple(args), locs(n), f.name if f else "?"))

        def stage(name, strings=(), ret=0):
            def m(I, st, a, n, f):
                b = [X.chars(I, st, v) if i in strings and v != 0 else v for i, v in enumerate(a)]
                if name == "codegen":
                    g = lambda fld: I.rd(st, ("f", ("g", "codegen_flags"), fld))
                    b = [g("code_model"), g("debug_stack_size"), g("debug_stack_min")]
                if name == "preprocessor_init":
                    st.mem[("g", "#at")] = 0
                ev(name, st, b, n, f)
                return [(st, ret)]
            return m

        def m_add(I, st, a, n, f):          # define_string(name, value)
            ev("define", st, [X.chars(I, st, a[0]), X.chars(I, st, a[1])], n, f)
            return [(st, 0)]

        def m_printf_new(I, st, a, n, f):
            return [(st, buf(st, cformat(X, I, st, X.chars(I, st, a[0]), a[1:])))]

        def buf(st, s):
            b = X.new(st)
            for k, c in enumerate(s + "\0"):
                st.mem[("i", b, k)] = ord(c)
            return ("addr", ("i", b, 0))

        def m_dup(I, st, a, n, f):
            return [(st, buf(st, X.chars(I, st, a[0])))]

        def m_ncmp(I, st, a, n, f):
            x, y = X.chars(I, st, a[0])[:a[2]], X.chars(I, st, a[1])[:a[2]]
            return [(st, (x > y) - (x < y))]

        def m_cmp(I, st, a, n, f):
            x, y = X.chars(I, st, a[0]), X.chars(I, st, a[1])
            return [(st, (x > y) - (x < y))]

        def m_strlen(I, st, a, n, f):
            return [(st, len(X.chars(I, st, a[0])))]

        def m_atoi(I, st, a, n, f):
            s = X.chars(I, st, a[0]).strip()
            d = ""
            for c in s:
                if not c.isdigit():
                    break
                d += c
            return [(st, int(d or 0))]

        def m_rchr(I, st, a, n, f):
            s = X.chars(I, st, a[0])
            k = s.rfind(chr(a[1]))
            return [(st, 0 if k < 0 else I.binop("+", a[0], k, None))]

        def m_chr(I, st, a, n, f):
            s = X.chars(I, st, a[0])
            k = s.find(chr(a[1]))
            return [(st, 0 if k < 0 else I.binop("+", a[0], k, None))]

        def m_read(I, st, a, n, f):
            path = X.chars(I, st, a[0])
            ev("read_object", st, [path], n, f)
            b = X.new(st)
            st.mem[b] = ("struct", "object", (("symbol_size", ("p", path)),))
            return [(st, ("addr", b))]

        def m_link(I, st, a, n, f):
            objs = []
            for k in range(a[0] if isinstance(a[0], int) else 0):
                v = I.rd(st, I.deref(st, ("addr", ("i", I.deref(st, a[1])[1], I.deref(st, a[1])[2] + k))))
                objs.append(v)
            ev("link", st, [a[0], tuple(objs)], n, f)
            return [(st, ("ob", "executable"))]

        def m_tm(I, st, a, n, f):
            b = X.new(st)
            for k, v in dict(tm_mon=3, tm_mday=4, tm_year=120, tm_hour=5, tm_min=6, tm_sec=7).items():
                st.mem[("f", b, k)] = v
            return [(st, ("addr", b))]
        models = {"t_peek": m_peek, "t_next": m_next, "dbg_token": lambda I, st, a, n, f: [(st, ("str", "x"))], "define_string": m_add, "allocate_printf": m_printf_new,
                  "strdup": m_dup, "strncmp": m_ncmp, "strcmp": m_cmp, "strlen": m_strlen, "atoi": m_atoi, "strrchr": m_rchr, "strchr": m_chr,
                  "elf_read_object": m_read, "linker_link": m_link, "localtime": m_tm, "time": lambda I, st, a, n, f: [(st, 0)]}
        for name, s in {"symbols_init": (), "abi_init_sysv": (), "abi_init_microsoft": (), "abi_init_mingw_workarounds": (), "input_add_include_path": (0,),
                        "define_remove": (0,), "preprocessor_write_dependencies": (), "preprocessor_init": (0,), "parse_into_ir": (), "optimize_mem2reg": (),
                        "optimize_peephole": (), "optimize_remove_dead": (), "export_dot": (0,), "ir_schedule_blocks": (), "ir_local_schedule": (),
                        "ir_calculate_block_local_variables": (), "asm_init_text_out": (0,), "asm_init_object": (), "codegen": (), "elf_write_object": (0,),
                        "coff_write_object": (0,), "preprocessor_finish_writing_dependencies": (0, 1), "elf_write_executable": (0,)}.items():
            P.need(name)
            models[name] = stage(name, s)
        Heap.__init__(self, ctx, tus, inline=own, models=models)
        X = self.X
        for s in ("stdout", "stderr"):
            self.st.mem[("g", s)] = ("ob", "file:" + s)
        for k, s in enumerate(["cc"] + argv):
            self.st.mem[("i", ("g", "#argv"), k)] = buf(self.st, s)
        self.st.mem[("i", ("g", "#argv"), len(argv) + 1)] = 0

    def go(self):
        return self.call("main", [len(self.argv) + 1, ("addr", ("i", ("g", "#argv"), 0))])


FLAGS = {"c": "c", "E": "E", "S": "S", "g": "g"}


def parse(argv):
    """the specified meaning of a command line, or None if it is to be rejected"""
    o = dict(D=[], U=[], I=[], ops=[], mode=set(), out=None, MD=0, MT=None, MF=None, abi="sysv", model=None, mingw=0, dump=None, stack=0, smin=None, O=0)
    i = 0

    def flag(s):
        if s == "cmodel=small":
            o["model"] = "CODE_MODEL_SMALL"
        elif s == "cmodel=large":
            o["model"] = "CODE_MODEL_LARGE"
        elif s in ("abi=ms", "abi=sysv"):
            o["abi"] = s[4:]
        elif s == "mingw-workarounds":
            o["mingw"] = 1
        elif s.startswith("dump-ir="):
            o["dump"] = s[8:]
        elif s.startswith("debug-stack-size"):
            o["stack"] = 1
            if s[16:17] == "=":
                o["smin"] = int(s[17:])
        else:
            return False
        return True
    while i < len(argv):
        a = argv[i]
        i += 1
        if not a.startswith("-"):
            o["ops"].append(a)
            continue
        if a.startswith("-std") or a.startswith("-W"):
            continue
        if a in ("-c", "-E", "-S", "-g"):
            o["mode"].add(a[1])
            continue
        if a == "-MD":
            o["MD"] = 1
            continue
        for p in ("-MT", "-MF", "-o", "-O", "-D", "-U", "-I", "-L", "-l", "-f"):
            if a.startswith(p):
                v = a[len(p):]
                if not v:
                    if i == len(argv):
                        return None
                    v = argv[i]
                    i += 1
                k = p[1:]
                if k in ("D", "U", "I"):
                    o[k].append(v)
                elif k == "f":
                    if not flag(v):
                        return None
                elif k == "o":
                    o["out"] = v
                elif k in ("MT", "MF"):
                    o[k] = v
                break
        else:
            return None
    if not o["ops"]:
        return None
    if len(o["ops"]) != 1 and o["out"] and o["mode"] & {"S", "c"} and "E" not in o["mode"]:
        return None
    for f in o["ops"]:
        if "E" in o["mode"] and not f.endswith(".c") or not (f.endswith(".c") or f.endswith(".o")) or len(f.rsplit("/", 1)[-1]) < 2:
            return None
        if f.endswith(".o") and o["mode"] & {"S", "c"}:
            return None
    return o




def why_not(ctx, o, sts, dead):
    P = ctx.P
    if o is None:
        if sts:
            return "accepted without a diagnostic"
        return "" if dead else "no path"
    if dead:
        e = [d.events[-1].name if d.events else "?" for d in dead]
        return "rejected (%s)" % ", ".join(e[:2])
    if len(sts) != 1:
        return "%d outcomes" % len(sts)
    st, rv = sts[0]
    if rv not in (0, None):
        return "exit status %s" % show(rv)
    evs = [e for e in st.events() if e.k == "stage"]
    # ---- one segment per input file
    segs, cur = [], []
    for e in evs:
        if e.name == "symbols_init" and cur:
            segs.append(cur)
            cur = []
        if e.name in ("read_object", "link"):
            if cur:
                segs.append(cur)
                cur = []
            segs.append([e])
            continue
        if e.name == "elf_write_executable":
            if cur:
                segs.append(cur)
                cur = []
            segs.append([e])
            continue
        cur.append(e)
    if cur:
        segs.append(cur)
    E = "E" in o["mode"]
    S, c = "S" in o["mode"] and not E, "c" in o["mode"] and not E and "S" not in o["mode"]
    link = not (E or S or c)
    for path in o["ops"]:
        if not segs:
            return "%s is not processed" % path
        seg = segs.pop(0)
        names = [e.name for e in seg]
        if path.endswith(".o"):
            if names != ["read_object"] or seg[0].args[0] != path:
                return "%s is not read as an object file" % path
            continue

        def at(n):
            return names.index(n) if n in names else None
        pi = at("preprocessor_init")
        if pi is None or names.count("preprocessor_init") != 1 or seg[pi].args[0] != path:
            return "%s is not the file that is preprocessed" % path
        want, other = ("abi_init_sysv", "abi_init_microsoft") if o["abi"] == "sysv" else ("abi_init_microsoft", "abi_init_sysv")
        if names.count(want) != 1 or other in names:
            return "the ABI is not %s" % o["abi"]
        if ("abi_init_mingw_workarounds" in names) != bool(o["mingw"]):
            return "the mingw workarounds are %s" % ("off" if o["mingw"] else "on")
        inc = [e.args[0] for e in seg if e.name == "input_add_include_path"]
        if inc[:len(o["I"])] != o["I"]:
            return "include directories are searched in the order %s" % inc
        if len(inc) < len(o["I"]) + 1 or any(x in inc[len(o["I"]):] for x in o["I"]):
            return "the default include directories are not searched after those given"
        # final value of every macro named
        mac = {}
        for k, e in enumerate(seg):
            if e.name in ("define", "define_remove", "input_add_include_path", "preprocessor_write_dependencies") and k > pi:
                return "%s takes effect after the file was opened" % e.name
            if e.name == "define":
                mac[e.args[0]] = e.args[1]
            elif e.name == "define_remove":
                mac.pop(e.args[0], None)
        exp = {}
        for d in o["D"]:
            n, _, v = d.partition("=")
            exp[n] = v if "=" in d else "1"
        for d in o["D"]:
            n = d.partition("=")[0]
            if n not in o["U"] and mac.get(n) != exp[n]:
                return "macro %s is defined as %r and not as %r" % (n, mac.get(n), exp[n])
        for u in o["U"]:
            if u in mac:
                return "macro %s is still defined" % u
        for n, v in {"__STDC__": "1", "__STDC_VERSION__": "201710L", "__STDC_HOSTED__": "0", "__x86_64__": "1", "__DATE__": '"Apr  4 2020"', "__TIME__": '"05:06:07"'}.items():
            if n not in exp and n not in o["U"] and mac.get(n) != v:
                return "the predefined macro %s is %r" % (n, mac.get(n))
        extra = set(mac) - set(exp) - {"NULL", "__DATE__", "__TIME__", "__STDC__", "__FUNCTION__", "__STDC_HOSTED__", "__STDC_VERSION__", "__x86_64__", "__linux", "__linux__"}
        if extra:
            return "defines %s, which nobody asked for" % ", ".join(sorted(extra))
        if ("preprocessor_write_dependencies" in names) != bool(o["MD"]):
            return "dependencies are %s collected" % ("not" if o["MD"] else "needlessly")
        stages = {"parse_into_ir", "codegen", "asm_init_text_out", "asm_init_object", "elf_write_object", "coff_write_object"}
        if E:
            if stages & set(names):
                return "-E does more than preprocess: %s" % ", ".join(sorted(stages & set(names)))
            continue
        order = ["parse_into_ir", "optimize_mem2reg", "optimize_peephole", "optimize_remove_dead", "ir_schedule_blocks", "ir_local_schedule", "ir_calculate_block_local_variables", "codegen"]
        pos = [at(x) for x in order]
        if None in pos or pos != sorted(pos) or pos[0] < pi or any(names.count(x) != 1 for x in order):
            return "the stages run as %s" % ", ".join(n for n in names if n in order)
        base = path.rsplit("/", 1)[-1][:-2]
        out = o["out"] or (base + ".s" if S else base + ".o" if c else "a.out")
        cg = seg[at("codegen")]
        model = o["model"] or ctx.default_model
        if cg.args[0] != P.enum(model):
            return "the code model is %s and not %s" % (show(cg.args[0]), model)
        if bool(cg.args[1]) != bool(o["stack"]) or o["smin"] is not None and cg.args[2] != o["smin"]:
            return "-fdebug-stack-size is not in effect"
        if S:
            if at("asm_init_text_out") is None or seg[at("asm_init_text_out")].args[0] != out or at("asm_init_text_out") > at("codegen"):
                return "-S does not write assembly to %s" % out
        elif at("asm_init_object") is None or at("asm_init_object") > at("codegen") or at("asm_init_text_out") is not None:
            return "no object is assembled"
        w = [e for e in seg if e.name in ("elf_write_object", "coff_write_object")]
        if c:
            fn = "elf_write_object" if o["abi"] == "sysv" else "coff_write_object"
            if len(w) != 1 or w[0].name != fn or w[0].args[0] != out:
                return "-c writes %s and not %s by %s" % ([(e.name, e.args[0]) for e in w], out, fn)
            if names.index(w[0].name) < at("codegen") or w[0].args[1] != seg[at("asm_init_object")].args[0]:
                return "the object written is not the one assembled"
        elif w:
            return "%s writes %s" % ("-S" if S else "linking", w[0].args[0])
        x = [e for e in seg if e.name == "export_dot"]
        if bool(x) != bool(o["dump"]) or x and x[0].args[0] != o["dump"]:
            return "-fdump-ir is not in effect"
        d = [e for e in seg if e.name == "preprocessor_finish_writing_dependencies"]
        if bool(d) != bool(o["MD"]):
            return "a dependency file is %s" % ("missing" if o["MD"] else "written")
        if d:
            mf = o["MF"] or out[:-2] + ".d"
            if (o["MF"] or out[-2:] in (".o", ".s")) and d[0].args[1] != mf:
                return "dependencies go to %s and not to %s" % (d[0].args[1], mf)
            if d[0].args[0] != (o["MT"] or out):
                return "the dependency target is %s and not %s" % (d[0].args[0], o["MT"] or out)
    names = [s[0].name for s in segs]
    if link:
        if names != ["link", "elf_write_executable"]:
            return "no executable is linked and written"
        n, objs = segs[0][0].args
        if n != len(o["ops"]):
            return "%s objects are linked" % show(n)
        for path, v in zip(o["ops"], objs):
            if path.endswith(".o") and not (isinstance(v, tuple) and ("p", path) in [x[1] for x in v[2]] if isinstance(v, tuple) and v[0] == "struct" else False):
                return "%s is not among the objects linked, in its place" % path
        if segs[1][0].args[0] != (o["out"] or "a.out") or segs[1][0].args[1] != ("ob", "executable"):
            return "the executable is written to %s" % segs[1][0].args[0]
    elif segs:
        return "goes on with %s" % names
    return ""


def lines(thorough):
    C = []
    one = [["-c"], ["-S"], ["-E"], []]
    for m in one:
        C += [m + ["a.c"], ["a.c"] + m, m + ["d/e/a.c"], m + ["-Dx", "a.c"]]
    for o in ("D", "U", "I"):
        for m in (["-c"], ["-E"]):
            for v in (["-%sfoo" % o], ["-%s" % o, "foo"], ["-%sfoo" % o, "-%sbar" % o, "-%s" % o, "baz"], ["-%s" % o, "-x"], ["-%s-c" % o]):
                C += [m + v + ["a.c"], ["a.c"] + v + m]
    C += [["-c", "-DA=1", "-DA=2", "a.c"], ["-c", "-DA", "-UA", "a.c"], ["-c", "-UA", "-DA", "a.c"], ["-c", "-DA=b=c", "a.c"], ["-c", "-DA=", "a.c"], ["-c", "-D", "A=x y", "a.c"],
          ["-S", "-DA=1", "-DB", "-I", "p", "-Iq", "-Ir", "a.c", "b.c"], ["-c", "-U__x86_64__", "a.c"], ["-c", "-DA", "-DB", "-DC", "-UA", "-U", "B", "-UC", "-DD", "a.c"], ["-c", "-Ip", "-Iq", "-Ir", "-I", "s", "a.c"],
          ["-c", "-Ll", "-Lm", "-La", "-lb", "-lc", "-ld", "a.c"], ["-c", "-oa.o", "-ob.o", "a.c"], ["-c", "-MD", "-MFa", "-MFb", "-MTc", "-MTd", "a.c"],
          ["-c", "-fcmodel=small", "-fcmodel=large", "-fabi=ms", "-fabi=sysv", "-fmingw-workarounds", "a.c"], ["-c", "-D__linux=3", "a.c"]]
    for m in ("-c", "-S", "-E"):
        C += [[m, "-o", "out", "a.c"], [m, "-oout.o", "a.c"], ["-o", "out.o", m, "a.c"], [m, "a.c", "b.c"], [m, "a.c", "b.c", "-o", "x.o"], ["-o", "-c", m, "a.c"]]
    C += [["a.c", "-o", "prog"], ["a.c", "b.o"], ["b.o", "a.c", "c.o"], ["b.o"], ["b.o", "-oprog"], ["a.c", "b.c", "-o", "prog"], ["a.o", "b.o", "c.o", "-o", "p"]]
    C += [["-c", "b.o"], ["-S", "b.o"], ["-E", "b.o"], ["a.x"], ["-c", "a.s"], ["a"], ["-c", "c"], ["-c", "ac"], ["-E", "x.h"]]
    for f in ("abi=ms", "abi=sysv", "cmodel=small", "cmodel=large", "mingw-workarounds", "dump-ir=g.dot", "debug-stack-size", "debug-stack-size=100"):
        C += [["-c", "-f" + f, "a.c"], ["-c", "-f", f, "a.c"], ["-S", "a.c", "-f" + f], ["-f" + f, "-E", "a.c"]]
    C += [["-c", "-fabi=ms", "-fabi=sysv", "a.c"], ["-c", "-fcmodel=small", "-fcmodel=large", "a.c"], ["-c", "-fcmodel=large", "-fcmodel=small", "-fabi=ms", "-o", "q", "a.c", "-Ii"],
          ["-S", "-fabi=ms", "-fmingw-workarounds", "a.c", "b.c"], ["-fcmodel=small", "a.c", "b.o"]]
    for m in ("-c", "-S"):
        C += [[m, "-MD", "a.c"], [m, "-MD", "-o", "y.o", "a.c"], [m, "-MD", "-MT", "tgt", "a.c"], [m, "-MD", "-MFdep", "a.c"], [m, "-MD", "-MT", "tgt", "-MF", "dep", "-o", "z", "a.c"],
              [m, "-MTtgt", "a.c"], [m, "-MF", "dep", "a.c"], [m, "a.c", "b.c", "-MD"]]
    C += [["-E", "-MD", "a.c"]]
    C += [["-c", "-Wall", "a.c"], ["-c", "-W", "a.c"], ["-c", "-std=c17", "a.c"], ["-c", "-g", "a.c"], ["-O2", "-c", "a.c"], ["-c", "-O", "2", "a.c"], ["-c", "-lm", "-Llib", "a.c"],
          ["-c", "-l", "m", "-L", "lib", "a.c"], ["-S", "-c", "a.c"], ["-E", "-S", "a.c"], ["-E", "-c", "a.c"], ["-c", "-S", "-o", "t", "a.c"]]
    C += [["-c", "-o", "p", "-o", "q", "a.c"], ["-c", "-MD", "-MT", "p", "-MTq", "a.c"]]
    for o in "DUI":
        C += [["-c"] + ["-%sm%d" % (o, k) for k in range(9)] + ["a.c"], ["-E", "a.c"] + sum([["-" + o, "m%d" % k] for k in range(9)], [])]
    C += [["-c"] + ["f%d.c" % k for k in range(9)], ["f%d.o" % k for k in range(9)]]
    # ---- to be rejected
    C += [[], ["-c"], ["-E"], ["-DA"]] + [["-c", "a.c", "-" + x] for x in ("o", "O", "D", "U", "I", "L", "l", "f", "MT", "MF")]
    C += [["-c", "-" + x, "a.c"] for x in ("x", "xy", "-", "", "-help", "q", "M", "MM", "MX", "Mfoo", "cc", "c2", "Sx", "Ex", "gx", "MDx", "fPIC", "fabi=foo", "fabi", "fcmodel=medium", "fcmodel", "fxdump-ir=a", "k", "e", "cb.c", "Sb.c", "Eb.c", "gb.c", "MDb.c", "xb.c", "Mb.c", "st", "sta.c", "m64", "shared")]
    if thorough:
        opts = [["-c"], ["-S"], ["-E"], ["-DA=1"], ["-D", "B"], ["-UA"], ["-Ip"], ["-I", "q"], ["-o", "o.o"], ["-MD"], ["-MF", "f"], ["-MTt"], ["-fabi=ms"], ["-fcmodel=small"], ["-f", "mingw-workarounds"], ["-z"], ["-Wx"], ["b.c"], ["x.o"]]
        for x in opts:
            for y in opts:
                C += [x + y + ["a.c"], x + ["a.c"] + y, x + y]
                for z in opts:
                    if opts.index(x) < 3:
                        C.append(x + ["a.c"] + y + z)
    seen, out = set(), []
    for c in C:
        if tuple(c) not in seen:
            seen.add(tuple(c))
            out.append(c)
    return out


def run(ctx):
    ctx.rule("effect", "an accepted command line has exactly the specified effect")
    ctx.rule("reject", "an unknown or incomplete option, or an impossible combination, is rejected with a diagnostic")
    L = lines(ctx.tier != "quick")
    # the code model in effect when nothing selects one
    h = Driver(ctx, ["-c", "a.c"])
    sts, dead = h.go()
    cg = [e for s, _ in sts for e in s.events() if e.k == "stage" and e.name == "codegen"]
    ctx.require(len(cg) == 1, "code generation was not reached for a plain command line")
    ms = [m for m in ("CODE_MODEL_SMALL", "CODE_MODEL_LARGE") if cg[0].args[0] == ctx.P.enum(m)]
    ctx.require(len(ms) == 1, "no code model is in effect by default")
    ctx.default_model = ms[0]
    where = ctx.P.need("arguments_parse").file

    def job(ls):
        def go():
            for c in ls:
                o = parse(c)
                try:
                    h = Driver(ctx, c)
                    sts, dead = h.go()
                    why = why_not(ctx, o, sts, dead)
                except Wrong as e:
                    why = str(e)
                ctx.ob("reject" if o is None else "effect", "cc " + " ".join(c), not why, where, "%s: %s" % (" ".join(["cc"] + c), why) if why else "")
        return go
    ctx.parallel([job(L[k::16]) for k in range(16)])
