"""Objects, object files and executables evaluated abstractly: a heap with typed regions, byte files, an abstract `struct object`, and an
independent reader of ELF and COFF files whose bytes may be unknowns."""
from absint import show, Ev, St
from front import AnalysisError, locs
from lib import *
from lib_asm import cformat, Wrong
from lib_pp import Src
from lib_tok import init_globals
from rules.c24 import bits as provenance


class Sym:
    def __init__(self, name, sec, value=0, glob=0, size=0):
        self.name, self.sec, self.value, self.glob, self.size = name, sec, value, glob, size

    def __repr__(self):
        return "symbol %s" % self.name


class Section:
    def __init__(self, name, data=(), align=0, relocs=()):
        self.name, self.data, self.align, self.relocs = name, list(data), align, list(relocs)       # relocs: (offset, kind, symbol index, addend)


class Obj:
    def __init__(self, sections, symbols):
        self.sections, self.symbols = sections, symbols


def U(name, w=64):
    return ("p", name)


class Heap:
    def __init__(self, ctx, tus, inline=(), unknowns=(), models=None, **kw):
        self.ctx, self.P = ctx, ctx.P
        P, X = self.P, Src(ctx)
        self.X = X
        m = X.models()
        fmt = lambda I, st, a: cformat(X, I, st, X.chars(I, st, a[0]), a[1:])
        new = X.new
        self.kinds = {"64": P.enum("RELOCATE_64"), "32": P.enum("RELOCATE_32"), "pc32": P.enum("RELOCATE_32_RELATIVE")}

        def cell(I, st, p):
            l = I.deref(st, p)
            return l if l[0] == "i" else ("i", l, 0)

        def freed(st, l):
            while l[0] in ("f", "i"):
                l = l[1]
            return l in st.mem.get(("g", "#freed"), ())

        def m_malloc(I, st, a, n, f):
            b = new(st)
            st.mem[("g", "#size", b)] = a[0]
            return [(st, ("addr", ("i", b, 0)))]

        def m_calloc(I, st, a, n, f):
            b = new(st)
            st.mem[("g", "#size", b)] = I.binop("*", a[0], a[1], None) if len(a) > 1 else a[0]
            st.mem[("g", "#zeroed")] = st.mem.get(("g", "#zeroed"), ()) + (b,)
            return [(st, ("addr", ("i", b, 0)))]

        def m_realloc(I, st, a, n, f):
            if a[0] == 0:
                return m_malloc(I, st, [a[1]], n, f)
            b = cell(I, st, a[0])[1]
            if st.mem.get(("g", "#size", b)) == a[1]:
                return [(st, a[0])]
            nb = new(st)
            st.mem[("g", "#size", nb)] = a[1]

            def mv(l):
                return nb if l == b else (l[0], mv(l[1]), l[2])
            for k in st.mem.below(b, []):
                st.mem[mv(k)] = st.mem[k]
                del st.mem[k]
            if b in st.mem.get(("g", "#zeroed"), ()):
                st.mem[("g", "#zeroed")] += (nb,)
            st.mem[("g", "#freed")] = st.mem.get(("g", "#freed"), ()) + (b,)
            return [(st, ("addr", ("i", nb, 0)))]

        def m_free(I, st, a, n, f):
            if a[0] != 0:
                b = cell(I, st, a[0])[1]
                if b in st.mem.get(("g", "#freed"), ()):
                    raise Wrong("memory released twice at %s" % locs(n))
                for k in st.mem.below(b, []):
                    del st.mem[k]
                st.mem[("g", "#freed")] = st.mem.get(("g", "#freed"), ()) + (b,)
            return [(st, 0)]

        def m_copy(I, st, a, n, f):
            if a[2] == 0:
                return [(st, a[0])]
            s, size = I.deref(st, a[1]), a[2]
            d = cell(I, st, a[0])
            if s[0] == "strloc":
                vals = [ord(c) & 255 for c in (s[1] + "\0" * size)[:size]]
            elif s[0] != "i":
                I.write(st, d, I.rd(st, s))
                return [(st, a[0])]
            elif isinstance(size, int):
                vals = [I.rd(st, ("i", s[1], s[2] + k)) for k in range(size)]
            else:
                k, count = s[2], self.count(size)
                vals = [I.rd(st, ("i", s[1], k + j)) for j in range(count)]
            for k, v in enumerate(vals):
                I.write(st, ("i", d[1], d[2] + k), v)
            return [(st, a[0])]

        def m_memset(I, st, a, n, f):
            if not isinstance(a[2], int):
                if a[1] == 0:
                    l = cell(I, st, a[0])
                    for k in range(self.count(a[2])):
                        I.write(st, ("i", l[1], l[2] + k), 0)
                    return [(st, a[0])]
                raise Wrong("clears %s bytes" % show(a[2]))
            l = cell(I, st, a[0])
            for j in range(a[2]):
                I.write(st, ("i", l[1], l[2] + j), a[1])
            return [(st, a[0])]

        def put(I, st, p, s, lim=None):
            l = cell(I, st, p)
            for j, c in enumerate(s if lim is None else s[:lim]):
                I.write(st, ("i", l[1], l[2] + j), ord(c) & 255)

        def m_strcpy(I, st, a, n, f):
            put(I, st, a[0], X.chars(I, st, a[1]) + "\0")
            return [(st, a[0])]

        def m_strncpy(I, st, a, n, f):
            s = X.chars(I, st, a[1])
            put(I, st, a[0], (s + "\0" * a[2])[:a[2]])
            return [(st, a[0])]

        def m_snprintf(I, st, a, n, f):
            s = fmt(I, st, a[2:])
            if a[1]:
                put(I, st, a[0], s[:a[1] - 1] + "\0")
            return [(st, len(s))]

        def m_sprintf(I, st, a, n, f):
            s = fmt(I, st, a[1:])
            put(I, st, a[0], s + "\0")
            return [(st, len(s))]

        # ---- files
        def fil(st, p):
            if not (isinstance(p, tuple) and p[0] == "ob" and p[1].startswith("file:")):
                raise Wrong("file operation on %s" % show(p))
            return ("g", "#" + p[1])

        def m_open(I, st, a, n, f):
            path, mode = X.chars(I, st, a[0]), X.chars(I, st, a[1])
            st.ev = (st.ev, Ev("fopen", path, (mode,), locs(n), f.name if f else "?"))
            b = ("g", "#file:" + path)
            st.mem[("g", b[1] + "@")] = 0
            if mode[0] == "w":
                for k in st.mem.below(b, []):
                    del st.mem[k]
                st.mem[("g", b[1] + "$")] = 0
            elif ("g", b[1] + "$") not in st.mem:
                return [(st, 0)]
            return [(st, ("ob", "file:" + path))]

        def m_close(I, st, a, n, f):
            st.ev = (st.ev, Ev("fclose", fil(st, a[0])[1], (), locs(n), f.name if f else "?"))
            return [(st, 0)]

        def out(st, fp, vals):
            b = fil(st, fp)
            p = st.mem[("g", b[1] + "@")]
            for k, v in enumerate(vals):
                st.mem[("i", b, p + k)] = v
            p += len(vals)
            st.mem[("g", b[1] + "@")] = p
            st.mem[("g", b[1] + "$")] = max(p, st.mem[("g", b[1] + "$")])

        def m_fwrite(I, st, a, n, f):
            if not isinstance(a[1], int) or not isinstance(a[2], int):
                raise Wrong("writes %s x %s bytes at %s" % (show(a[1]), show(a[2]), locs(n)))
            size = a[1] * a[2]
            l = I.deref(st, a[0])
            if l[0] == "strloc":
                vals = [ord(c) & 255 for c in (l[1] + "\0" * size)[:size]]
            elif l[0] == "i":
                vals = [I.rd(st, ("i", l[1], l[2] + k)) for k in range(size)]
            else:
                v = I.rd(st, l)
                if isinstance(v, tuple) and v[0] == "arr" or size > 8:
                    vals = [I.rd(st, ("i", l, k)) for k in range(size)]
                else:
                    vals = [v if size == 1 else v >> 8 * k & 255 if isinstance(v, int) else ("b", ">>", v, 8 * k) for k in range(size)]
            out(st, a[3], [v & 255 if isinstance(v, int) else v for v in vals])
            return [(st, a[2])]

        def m_fputc(I, st, a, n, f):
            out(st, a[1], [a[0] & 255 if isinstance(a[0], int) else a[0]])
            return [(st, a[0])]

        def m_fread(I, st, a, n, f):
            if not isinstance(a[1], int) or not isinstance(a[2], int):
                raise Wrong("reads %s x %s bytes at %s" % (show(a[1]), show(a[2]), locs(n)))
            b, size = fil(st, a[3]), a[1] * a[2]
            p, end = st.mem[("g", b[1] + "@")], st.mem[("g", b[1] + "$")]
            if p + size > end:
                return [(st, 0)]
            l = I.deref(st, a[0])
            vals = [st.mem[("i", b, p + k)] for k in range(size)]
            if l[0] == "i" or size > 8:
                l = l if l[0] == "i" else ("i", l, 0)
                for k, v in enumerate(vals):
                    I.write(st, ("i", l[1], l[2] + k), v)
            elif size == 1:
                I.write(st, l, vals[0])
            elif all(isinstance(v, int) for v in vals):
                I.write(st, l, sum(v << 8 * k for k, v in enumerate(vals)))
            else:
                v = self.join(vals, U)
                I.write(st, l, v)
            st.mem[("g", b[1] + "@")] = p + size
            return [(st, a[2])]

        def m_seek(I, st, a, n, f):
            b = fil(st, a[0])
            if not isinstance(a[1], int):
                raise Wrong("seeks to %s" % show(a[1]))
            p = {0: 0, 1: st.mem[("g", b[1] + "@")], 2: st.mem[("g", b[1] + "$")]}[a[2]] + a[1]
            st.mem[("g", b[1] + "@")] = p
            return [(st, 0)]

        def m_tell(I, st, a, n, f):
            return [(st, st.mem[("g", fil(st, a[0])[1] + "@")])]

        def m_getc(I, st, a, n, f):
            b = fil(st, a[0])
            p, end = st.mem[("g", b[1] + "@")], st.mem[("g", b[1] + "$")]
            if p >= end:
                return [(st, -1)]
            st.mem[("g", b[1] + "@")] = p + 1
            return [(st, st.mem[("i", b, p)])]
        z = lambda I, st, a, n, f: [(st, 0)]

        def m_printf(I, st, a, n, f):
            st.ev = (st.ev, Ev("printf", X.chars(I, st, a[0]) if a else "?", (), locs(n), f.name if f else "?"))
            return [(st, 0)]
        m.update({"cc_malloc": m_malloc, "malloc": m_malloc, "calloc": m_calloc, "cc_realloc": m_realloc, "realloc": m_realloc, "free": m_free,
                  "memcpy": m_copy, "memmove": m_copy, "memset": m_memset, "strcpy": m_strcpy, "strncpy": m_strncpy, "snprintf": m_snprintf, "sprintf": m_sprintf,
                  "fopen": m_open, "fclose": m_close, "fwrite": m_fwrite, "fread": m_fread, "fseek": m_seek, "ftell": m_tell, "fputc": m_fputc,
                  "putc": m_fputc, "fgetc": m_getc, "getc": m_getc, "fflush": z, "ferror": z, "printf": m_printf, "puts": z,
                  "remove": z, "strrchr": None})
        m = {k: v for k, v in m.items() if v}
        m.update(models or {})

        def zeroed(I, st, loc):
            r = loc
            while r[0] in ("f", "i"):
                r = r[1]
            if r in st.mem.get(("g", "#freed"), ()):
                raise Wrong("reads released memory (%s)" % show(loc))
            return 0 if r in st.mem.get(("g", "#zeroed"), ()) else None
        com = P.need("write_32").file
        inl = [n for n, f in P.funcs.items() if f.file in tus or f.file == com]
        inl = [n for n in inl if n not in m and not n.startswith("impl_")]
        I = self.I = ctx.interp(inline=inl + list(inline), inline_tus=list(tus) + [com], models=m, load_hook=hooks(zeroed, init_globals), **kw)
        I.unroll, I.max_depth, I.max_rec, I.max_steps = 100000, 100, 60, 30000000
        I.typed = True
        self.src = {}
        for u, w, sg in unknowns:
            I.tt[u] = (w, sg)
            self.src[u] = (u[1], w)
        self.st = St()

    @staticmethod
    def count(size):
        if isinstance(size, tuple) and size[0] == "sizeof":
            return 1
        if isinstance(size, tuple) and size[0] == "b" and size[1] == "*":
            for a, b in ((size[2], size[3]), (size[3], size[2])):
                if isinstance(a, int) and isinstance(b, tuple) and b[0] == "sizeof":
                    return a
        raise Wrong("moves %s bytes" % show(size))

    # ------------------------------------------------------------ values
    def byte(self, v):
        """8 bits (0, 1 or (name, i)) of a byte cell; None when it is not determined by the object"""
        if isinstance(v, int):
            return [v >> i & 1 for i in range(8)]
        try:
            r = provenance(v, 8, self.src)
        except Exception:
            return None
        return None if any(x is None for x in r) else r

    def bits_of(self, v, n=64):
        return provenance(v & (1 << n) - 1 if isinstance(v, int) else v, n, self.src)

    @staticmethod
    def join(vals, mk):
        raise Wrong("reads several unknown bytes as one value")

    # ------------------------------------------------------------ objects in memory
    def put_object(self, o, st=None, at=None):
        st = st or self.st
        new, M = self.X.new, lambda t, **k: ("struct", t, tuple(k.items()))
        sb, yb = new(st), new(st)
        for i, s in enumerate(o.sections):
            db, rb = new(st), new(st)
            for k, v in enumerate(s.data):
                st.mem[("i", db, k)] = v
            for k, (off, kind, idx, add) in enumerate(s.relocs):
                st.mem[("i", rb, k)] = M("object_relocation", type=self.kinds[kind], idx=idx, offset=off, add=add)
            ptr = lambda b, l: ("addr", ("i", b, 0)) if l else 0
            st.mem[("i", sb, i)] = M("section", name=("str", s.name), alignment=s.align, size=len(s.data), cap=len(s.data), data=ptr(db, s.data),
                                     relocation_size=len(s.relocs), relocation_cap=len(s.relocs), relocations=ptr(rb, s.relocs))
        for i, y in enumerate(o.symbols):
            st.mem[("i", yb, i)] = M("symbol", name=("str", y.name) if y.name is not None else 0, value=y.value, size=y.size, **{"global": y.glob, "section": y.sec})
        v = M("object", section_size=len(o.sections), section_cap=len(o.sections), sections=("addr", ("i", sb, 0)) if o.sections else 0,
              symbol_size=len(o.symbols), symbol_cap=len(o.symbols), symbols=("addr", ("i", yb, 0)) if o.symbols else 0)
        at = at or ("i", new(st), 0)
        st.mem[at] = v
        return ("addr", at)

    def get_object(self, st, p):
        I, X = self.I, self.X
        l = I.deref(st, p)
        g = lambda q, f: I.rd(st, ("f", q, f))
        num = self.num

        def at(p, i):
            q = I.deref(st, p)
            return ("i", q[1], q[2] + i) if q[0] == "i" else ("i", q, i)
        secs, syms = [], []
        for i in range(num(g(l, "section_size"), "section count")):
            q = at(g(l, "sections"), i)
            nm = X.chars(I, st, g(q, "name")) if g(q, "name") != 0 else None
            n = num(g(q, "size"), "section size")
            s = Section(nm, [I.rd(st, at(g(q, "data"), k)) for k in range(n)], g(q, "alignment"))
            inv = {v: k for k, v in self.kinds.items()}
            for k in range(num(g(q, "relocation_size"), "relocation count")):
                r = at(g(q, "relocations"), k)
                s.relocs.append((g(r, "offset"), inv.get(g(r, "type")), g(r, "idx"), g(r, "add")))
            secs.append(s)
        for i in range(num(g(l, "symbol_size"), "symbol count")):
            q = at(g(l, "symbols"), i)
            sec = num(g(q, "section"), "section") & (1 << 32) - 1
            syms.append(Sym(X.chars(I, st, g(q, "name")) if g(q, "name") != 0 else None, sec - (1 << 32) if sec >> 31 else sec, g(q, "value"), g(q, "global"), g(q, "size")))
        return Obj(secs, syms)

    @staticmethod
    def num(v, what):
        if not isinstance(v, int):
            raise Wrong("%s is %s" % (what, show(v)))
        return v

    # ------------------------------------------------------------ running
    def call(self, fn, args, st=None):
        """[(state, result)] and the diagnosed failures"""
        rs = [r for r in self.I.call_body((st or self.st), self.P.need(fn), list(args)) if r[1] is None]
        dead = self.I.take_dead()
        self.ctx.functions |= self.I.analysed
        self.ctx.paths += len(rs) + len(dead)
        return [(s, v) for s, _, v in rs], dead

    def file(self, st, path):
        b = ("g", "#file:" + path)
        n = st.mem.get(("g", b[1] + "$"))
        return None if n is None else [st.mem.get(("i", b, k)) for k in range(n)]

    def put_file(self, st, path, data):
        b = ("g", "#file:" + path)
        st.mem[("g", b[1] + "$")] = len(data)
        for k, v in enumerate(data):
            st.mem[("i", b, k)] = v


class View:
    """an emitted file: fields are read as bit vectors, known ones as integers"""
    def __init__(self, heap, data):
        self.h, self.data = heap, data
        self.used = {}

    def bits(self, off, n):
        if not (0 <= off and off + n <= len(self.data)):
            raise Wrong("field at %d lies outside the file of %d bytes" % (off, len(self.data)))
        r = []
        for k in range(n):
            b = self.h.byte(self.data[off + k])
            if b is None:
                raise Wrong("byte %d of the file is %s" % (off + k, show(self.data[off + k])))
            r += b
        return r

    def int(self, off, n):
        b = self.bits(off, n)
        if any(not isinstance(x, int) for x in b):
            raise Wrong("field at %d depends on %s" % (off, [x for x in b if not isinstance(x, int)][0][0]))
        return sum(x << i for i, x in enumerate(b))

    def cstr(self, off, end):
        r = ""
        while True:
            if off >= end:
                raise Wrong("a name runs past its string table")
            c = self.int(off, 1)
            if not c:
                return r
            r += chr(c)
            off += 1

    def raw(self, off, n):
        return [self.bits(off + k, 1) for k in range(n)]
