"""The assembler output layer evaluated abstractly: the program an emission sequence produces, read back either from the object under
construction or from the assembly text, as sections of bytes with symbols and relocations."""
import re
from absint import show, Ev, St
from front import AnalysisError, locs
from lib import *
from lib_pp import PP, Src
from lib_tok import init_globals

_F = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diouxXcsp%])")


def cformat(X, I, st, fmt, args):
    """printf formatting of known values"""
    out, i, k = "", 0, 0
    args = list(args)
    while i < len(fmt):
        m = _F.match(fmt, i)
        if not m:
            if fmt[i] == "%":
                raise AnalysisError("format %r" % fmt)
            out += fmt[i]
            i += 1
            continue
        i = m.end()
        fl, w, p, ln, c = m.groups()
        if c == "%":
            out += "%"
            continue
        if w == "*":
            w = args[k]
            k += 1
        if p == "*":
            p = args[k]
            k += 1
        v = args[k]
        k += 1
        p = int(p) if p is not None else None
        if c == "s":
            s = X.chars(I, st, v, None if p is None or isinstance(v, tuple) and v[0] == "str" else p) if v != 0 else "(null)"
            s = s if p is None else s[:p]
        elif c == "c":
            s = chr(v & 255)
        else:
            if not isinstance(v, int):
                y = getattr(X, "symfmt", None)
                y = y and y(v, {"hh": 8, "h": 16, "l": 64, "ll": 64, "z": 64, "j": 64, "t": 64}.get(ln, 32), c)
                if y is None:
                    raise Wrong("prints %s" % show(v))
                out += y
                continue
            b = {"hh": 8, "h": 16, "l": 64, "ll": 64, "z": 64, "j": 64, "t": 64}.get(ln, 32)
            v &= (1 << b) - 1
            if c in "di" and v >> (b - 1):
                v -= 1 << b
            s = str(v) if c in "diu" else "%o" % v if c == "o" else ("%X" if c == "X" else "%x") % v
        if w:
            w = int(w)
            s = s.ljust(w) if "-" in fl else s.rjust(w, "0" if "0" in fl and c != "s" else " ")
        out += s
    return out


class Wrong(AnalysisError):
    """the emission depends on something that is not its input, or is not an emission at all"""


class Out:
    """one emission run in text (1) or object (0) mode"""
    def __init__(self, ctx, text, tus=(), inline=(), models=None, abi="sysv", table=None, **kw):
        self.ctx, self.P, self.text = ctx, ctx.P, text
        P = self.P
        X = self.X = Src(ctx)
        self.sizes = {}
        m = X.models()
        self.fmt = lambda I, st, a: cformat(X, I, st, X.chars(I, st, a[0]), a[1:])

        def put(st, s):
            st.mem[("g", "#text")] = st.mem.get(("g", "#text"), "") + s

        def m_emit(I, st, a, n, f):
            put(st, self.fmt(I, st, a))
            return [(st, 0)]

        def m_fprintf(I, st, a, n, f):
            put(st, self.fmt(I, st, a[1:]))
            return [(st, 0)]

        def m_putc(I, st, a, n, f):
            put(st, chr(a[0] & 255))
            return [(st, a[0])]

        def m_puts(I, st, a, n, f):
            put(st, X.chars(I, st, a[0]))
            return [(st, 0)]

        def m_snprintf(I, st, a, n, f):
            s = self.fmt(I, st, a[2:])
            l = I.deref(st, a[0])
            if l[0] != "i":
                l = ("i", l, 0)
            if isinstance(a[1], int):
                for j, c in enumerate(s[:max(a[1] - 1, 0)] + "\0"):
                    I.write(st, ("i", l[1], l[2] + j), ord(c))
            return [(st, len(s))]

        def m_sprintf(I, st, a, n, f):
            return m_snprintf(I, st, [a[0], 1 << 30] + list(a[1:]), n, f)

        def m_printf(I, st, a, n, f):
            return [(st, ("str", self.fmt(I, st, a)))]

        def m_memset(I, st, a, n, f):
            l = I.deref(st, a[0])
            if l[0] != "i":
                l = ("i", l, 0)
            if not isinstance(a[2], int):
                if isinstance(a[2], tuple) and a[1] == 0:        # a whole object
                    I.write(st, I.deref(st, a[0]), 0)
                    return [(st, a[0])]
                raise Wrong("clears %s bytes" % show(a[2]))
            if a[2] > 1 << 20:
                raise Wrong("clears %d bytes" % a[2])
            for j in range(a[2]):
                I.write(st, ("i", l[1], l[2] + j), a[1])
            return [(st, a[0])]

        def m_malloc(I, st, a, n, f):
            b = X.new(st)
            self.sizes[b] = a[0]
            return [(st, ("addr", ("i", b, 0)))]

        def m_calloc(I, st, a, n, f):
            b = X.new(st)
            z = st.mem.get(("g", "#zeroed"), ())
            st.mem[("g", "#zeroed")] = z + (b,)
            return [(st, ("addr", ("i", b, 0)))]

        def m_open(I, st, a, n, f):
            st.ev = (st.ev, Ev("fopen", X.chars(I, st, a[0]), (X.chars(I, st, a[1]),), locs(n), f.name if f else "?"))
            return [(st, ("ob", "file"))]
        m.update({"asm_emit_no_newline": m_emit, "fprintf": m_fprintf, "snprintf": m_snprintf, "sprintf": m_sprintf, "allocate_printf": m_printf,
                  "memset": m_memset, "cc_malloc": m_malloc, "malloc": m_malloc, "calloc": m_calloc, "fopen": m_open,
                  "vfprintf": lambda I, st, a, n, f: (put(st, "formatted text"), [(st, 0)])[1],
                  "fputs": m_puts, "fputc": m_putc, "putc": m_putc, "fclose": lambda I, st, a, n, f: [(st, 0)],
                  "ferror": lambda I, st, a, n, f: [(st, 0)], "fflush": lambda I, st, a, n, f: [(st, 0)]})
        m.update(TYPE_MODELS)
        m.update(models(self) if models else {})
        base = ["asm_section", "asm_comment", "asm_label", "asm_string", "asm_quad", "asm_byte", "asm_zero", "asm_align", "asm_ins", "asm_ins0", "asm_ins1",
                "asm_ins2", "asm_ins3", "asm_reset", "asm_init_text_out", "asm_init_object", "asm_finish", "rodata_register", "rodata_get_label",
                "rodata_codegen", "register_label_name", "register_label", "data_register_static_var", "data_codegen", "codegen_initializer",
                "character_to_escape_sequence", "sv_cmp", "rodata_reset", "data_reset"]
        base += [n for n, f in P.funcs.items() if f.file == P.need("object_start").file]
        files = [P.need("asm_section").file, P.need("rodata_register").file, P.need("object_start").file] + list(tus)
        table = dict(table or {})

        def zeroed(I, st, loc):
            r = loc
            while r[0] in ("f", "i") and r not in st.mem.get(("g", "#zeroed"), ()):
                r = r[1]
            return 0 if r in st.mem.get(("g", "#zeroed"), ()) else None
        I = self.I = ctx.interp(inline=base + list(inline) + TYPE_PREDS + abi_inline(ctx, abi), inline_tus=files, models=m,
                                globals_const=abi_genv(ctx, abi), load_hook=hooks(zeroed, type_hook, obj_hook(table), init_globals), **kw)
        I.unroll, I.max_depth, I.max_rec, I.max_steps = 4000, 200, 60, 20000000
        self.st = St()
        self.dead = []
        self.call("asm_reset", [])
        self.obj = ("g", "#object")
        if text:
            self.call("asm_init_text_out", [("str", "out.s")])
        else:
            self.call("asm_init_object", [("addr", self.obj)])

    def call(self, fn, args):
        """run FN; a diagnosed path is remembered, more than one result is an analysis failure"""
        rs = [r for r in self.I.call_body(self.st, self.P.need(fn), list(args)) if r[1] is None]
        self.dead += self.I.take_dead()
        self.ctx.functions |= self.I.analysed
        self.ctx.paths += len(rs)
        if not rs:
            return None
        if len(rs) != 1:
            raise Wrong("%s depends on uninitialised memory (%d outcomes)" % (fn, len(rs)))
        self.st = rs[0][0]
        return rs[0][2]

    def finish(self):
        self.call("asm_finish", [])
        return self.read_text() if self.text else self.read_object()

    # ------------------------------------------------------------ reading back
    def read_object(self):
        I, st, X = self.I, self.st, self.X
        r = lambda *p: I.rd(st, _path(self.obj, p))

        def num(v, what):
            if not isinstance(v, int):
                raise Wrong("%s is %s" % (what, show(v)))
            return v
        prog = Prog()
        n = num(r("section_size"), "section count")
        at = lambda p, i: ("i", I.deref(st, p)[1], I.deref(st, p)[2] + i)
        for i in range(n):
            s = at(r("sections"), i)
            g = lambda *p: I.rd(st, _path(s, p))
            name = X.chars(I, st, g("name"))
            size = num(g("size"), "section size")
            data = [I.rd(st, at(g("data"), k)) for k in range(size)] if size else []
            data = [d & 255 if isinstance(d, int) else d for d in data]
            sec = prog.sec(name)
            sec.data, sec.align = data, num(g("alignment"), "alignment")
            prog.order.append(sec)
            for k in range(num(g("relocation_size"), "relocation count")):
                q = at(g("relocations"), k)
                h = lambda f: num(I.rd(st, ("f", q, f)), f)
                add = h("add") & (1 << 64) - 1
                sec.relocs.append((h("offset"), {self.P.enum("RELOCATE_64"): "64", self.P.enum("RELOCATE_32"): "32",
                                                 self.P.enum("RELOCATE_32_RELATIVE"): "pc32"}[h("type")], h("idx"), add - (1 << 64) if add >> 63 else add))
        names = []
        for i in range(num(r("symbol_size"), "symbol count")):
            q = at(r("symbols"), i)
            h = lambda f: I.rd(st, ("f", q, f))
            nm = X.chars(I, st, h("name")) if h("name") != 0 else None
            names.append(nm)
            sc = num(h("section"), "section")
            prog.symbols.append((nm, prog.order[sc].name if 0 <= sc < len(prog.order) else None, num(h("value"), "value"), num(h("global"), "binding")))
        for s in prog.order:
            s.relocs = [(o, k, names[i] if 0 <= i < len(names) else None, a) for o, k, i, a in s.relocs]
        return prog

    def read_text(self):
        return assemble_data(self.st.mem.get(("g", "#text"), ""))


def _path(l, p):
    for x in p:
        l = ("f", l, x)
    return l


class Sec:
    def __init__(self, name):
        self.name, self.data, self.align, self.relocs = name, [], 1, []


class Prog:
    def __init__(self):
        self.order, self.symbols, self.ins = [], [], []

    def sec(self, name):
        for s in self.order:
            if s.name == name:
                return s
        return Sec(name)

    def sym(self, name):
        l = [s for s in self.symbols if s[0] == name and s[1] is not None]
        return l


def unescape(b):
    i, r = 0, []
    while i < len(b):
        if b[i] != "\\":
            r.append(ord(b[i]))
            i += 1
            continue
        o = re.compile(r"\\([0-7]{1,3})").match(b, i)
        if o:
            r.append(int(o.group(1), 8) & 255)
            i = o.end()
        elif b[i + 1] in "bfnrt\"\\":
            r.append({"b": 8, "f": 12, "n": 10, "r": 13, "t": 9, '"': 34, "\\": 92}[b[i + 1]])
            i += 2
        else:
            raise Wrong("assembler escape %r" % b[i:i + 2])
    return r


def assemble_data(text):
    """the data directives of GNU as; instructions are kept as text"""
    P = Prog()
    cur, glob = None, set()

    def section(n):
        nonlocal cur
        cur = P.sec(n)
        if cur not in P.order:
            P.order.append(cur)
    section(".text")
    for line in text.split("\n"):
        l = line.strip()
        if not l or l.startswith("#"):
            continue
        m = re.match(r"^([.\w$@]+):$", l)
        if m:
            P.symbols.append((m.group(1), cur.name, len(cur.data), 0))
            continue
        m = re.match(r"^(\.\w+)\s*(.*)$", l)
        if not m:
            P.ins.append((cur.name, len(P.symbols), l))
            continue
        d, a = m.groups()
        if d == ".section":
            section(a.split(",")[0].strip())
        elif d in (".text", ".data"):
            section(d)
        elif d in (".global", ".globl"):
            glob.add(a.strip())
        elif d in (".align", ".balign"):
            n = int(a)
            while len(cur.data) % n:
                cur.data.append(0)
            cur.align = max(cur.align, n)
        elif d == ".zero":
            cur.data += [0] * int(a)
        elif d == ".string":
            m = re.match(r'"((?:\\.|[^"\\])*)"$', a, re.S)
            if not m:
                raise Wrong("directive %r" % l)
            cur.data += unescape(m.group(1)) + [0]
        elif d in (".quad", ".byte", ".long", ".short", ".word"):
            n = {".quad": 8, ".byte": 1, ".long": 4, ".short": 2, ".word": 2}[d]
            m = re.match(r"^([-+]?\d+)$", a)
            if m:
                v = int(a)
                cur.data += [(v >> 8 * k) & 255 for k in range(n)]
                continue
            m = re.match(r"^([.\w$@]+)(?:([+-]+)(\d+))?$", a)
            if not m:
                raise Wrong("directive %r" % l)
            add = 0
            if m.group(2):
                add = int(m.group(3)) * (-1) ** m.group(2).count("-")
            cur.relocs.append((len(cur.data), {8: "64", 4: "32"}.get(n, "?"), m.group(1), add))
            cur.data += [0] * n
        else:
            raise Wrong("directive %r" % l)
    P.symbols = [(a, b, c, int(a in glob)) for a, b, c, _ in P.symbols]
    return P
