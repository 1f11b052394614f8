"""C18: the ELF object file written for an object says exactly what the object says, and reading it back gives the object again. Abstract
evaluation of the writer and of the reader on objects of many shapes whose numbers and contents are unknowns."""
from absint import show, Limit
from front import AnalysisError
from rules import c09
from lib_obj import Heap, Obj, Section, Sym, View, Wrong, U

EXPLANATION = ("abstract evaluation of the ELF writer on abstract objects (section, symbol and relocation counts enumerated; symbol values and sizes, "
               "relocation offsets and addends and section bytes are unknowns followed bit by bit); the bytes written are parsed by an independent ELF64 "
               "reader and compared with the object; the compiler's own reader is then evaluated on those bytes")
FLOORS = {"header": 8, "sections": 15, "symbols": 15, "relocations": 10, "strings": 8, "read back": 15, "building": 20}
ASSUMPTIONS = ["file contents are what fwrite/fputc put there, in order (I/O failures are C27)"]
FLAGS = {".text": 6, ".data": 3, ".bss": 3, ".rodata": 2}
TYPE = {"64": 1, "pc32": 2, "32": 11}


def unknowns():
    r = []
    for i in range(12):
        r += [(U("value%d" % i), 64, False), (U("size%d" % i), 64, False), (U("offset%d" % i), 64, False), (U("add%d" % i), 64, True), (U("byte%d" % i), 8, False)]
    return r


def shapes():
    v, s, o, a, b = (lambda n: lambda i: U("%s%d" % (n, i)))("value"), *[(lambda n: lambda i: U("%s%d" % (n, i)))(n) for n in ("size", "offset", "add", "byte")]
    text = lambda *r, n=3: Section(".text", [b(i) for i in range(n)], 0, r)
    out = {}
    out["empty text"] = Obj([Section(".text")], [])
    out["one function"] = Obj([text()], [Sym("f", 0, v(0), 1, s(0))])
    out["a local label"] = Obj([text()], [Sym(".L1", 0, v(0), 0, s(0))])
    out["an undefined symbol"] = Obj([text((o(0), "pc32", 0, a(0)))], [Sym("ext", -1, 0, 1)])
    out["locals after globals"] = Obj([text((o(0), "64", 0, a(0)), (o(1), "32", 1, a(1)), (o(2), "pc32", 2, a(2)))],
                                      [Sym("g", 0, v(0), 1, s(0)), Sym("l", 0, v(1), 0, s(1)), Sym("u", -1, 0, 1, 0), Sym("m", 0, v(2), 0, s(2))])
    secs = [text((o(0), "pc32", 3, a(0)), (o(1), "pc32", 4, a(1))), Section(".data", [b(i) for i in range(4, 9)], 16, [(o(2), "64", 2, a(2))]),
            Section(".rodata", [b(9)], 1), Section(".bss", [0] * 7, 8)]
    syms = [Sym("main", 0, v(0), 1, s(0)), Sym(".Lx", 2, v(1), 0, s(1)), Sym("counter", 3, v(2), 0, s(2)), Sym("table", 1, v(3), 1, s(3)), Sym("puts", -1, 0, 1, 0)]
    out["four sections"] = Obj(secs, syms)
    out["data before text"] = Obj([secs[1], secs[0], secs[3]], [Sym("counter", 2, v(2), 0, s(2)), Sym("main", 1, v(0), 1, s(0)), Sym("t", 0, v(3), 1, 0),
                                                                Sym("table", 0, v(3), 1, s(3)), Sym("puts", -1, 0, 1, 0)])
    out["an empty section between"] = Obj([text(), Section(".data", [], 4), Section(".rodata", [b(4), b(5)], 32)], [Sym("r", 2, v(0), 1, s(0)), Sym("d", 1, 0, 1, 0)])
    out["known values"] = Obj([text((2, "pc32", 1, -4), (10, "pc32", 1, -5), (1 << 32, "64", 0, -(1 << 40)), (0xfffffffe, "32", 0, 1 << 31)), Section(".data", range(256), 4096)],
                              [Sym("x", 1, 0x123456789abcdef0, 1, 0xfedcba9876543210), Sym("y", -1, 0, 1, 0)])
    out["long names"] = Obj([text(), Section(".debug_information_section_with_a_long_name", [b(4)], 1, [(o(0), "64", 0, 0)])],
                            [Sym("a_rather_long_identifier_for_a_symbol_in_an_object_file_" * 3, 0, v(0), 1, s(0)), Sym("b", 1, v(1), 0, s(1))])
    out["prefixed names"] = Obj([text((o(0), "64", 1, a(0)))], [Sym("abc", 0, v(0), 1, s(0)), Sym("ab", 0, v(1), 1, s(1)), Sym("bc", 0, v(2), 0, s(2)), Sym("abcd", -1, 0, 1, 0)])
    n = 300
    out["many symbols"] = Obj([text(*[(o(i % 12), "64", n - 1 - i, a(i % 12)) for i in range(n)])],
                              [Sym("s%d" % i, 0 if i % 3 else -1, v(i % 12) if i % 3 else 0, 1 if i % 3 != 1 else 0, 0) for i in range(n)])
    n = 270
    out["many sections"] = Obj([Section(".text.%d" % i if i else ".text", [b(i % 12)] * (i % 3), 1 << i % 6, [(o(i % 12), "pc32", i, a(i % 12))]) for i in range(n)],
                               [Sym("f%d" % i, i, v(i % 12), i % 2, 0) for i in range(n)])
    big = [(7 * i) & 255 for i in range(300)]
    out["large contents"] = Obj([Section(".text", big + big), Section(".data", big[::-1], 64)], [Sym("z", 1, 299, 1, 1)])
    return out


def eq(h, got, want, n):
    """N byte field equals the value WANT"""
    return got == h.bits_of(want, 8 * n)


def parse(h, o, data):
    """[(rule, what, ok, why)] of the file DATA for the object O"""
    V, res = View(h, data), []
    chk = lambda rule, what, ok, why="": res.append((rule, what, bool(ok), why))
    I = V.int
    ident = [I(k, 1) for k in range(16)]
    chk("header", "identification", ident == [0x7f, 0x45, 0x4c, 0x46, 2, 1, 1, 0, 0] + [0] * 7, "e_ident is %s" % ident)
    chk("header", "file type", I(16, 2) == 1 and I(18, 2) == 62 and I(20, 4) == 1, "type %d machine %d version %d" % (I(16, 2), I(18, 2), I(20, 4)))
    chk("header", "entry, program headers and flags", I(24, 8) == 0 and I(32, 8) == 0 and I(48, 4) == 0 and I(54, 2) == 0 and I(56, 2) == 0,
        "a relocatable file has no entry and no program headers")
    shoff, shnum, shstr = I(40, 8), I(60, 2), I(62, 2)
    chk("header", "sizes", I(52, 2) == 64 and I(58, 2) == 64, "e_ehsize %d e_shentsize %d" % (I(52, 2), I(58, 2)))
    chk("header", "section table", 64 <= shoff and shoff + 64 * shnum <= len(data) and 0 < shstr < shnum, "e_shoff %d e_shnum %d e_shstrndx %d of %d bytes" % (shoff, shnum, shstr, len(data)))
    F = (("name", 4), ("type", 4), ("flags", 8), ("addr", 8), ("offset", 8), ("size", 8), ("link", 4), ("info", 4), ("align", 8), ("entsize", 8))
    sh = []
    for i in range(shnum):
        p, d = shoff + 64 * i, {}
        for f, n in F:
            d[f] = I(p, n)
            p += n
        sh.append(d)
    chk("header", "null section", all(x == 0 for x in sh[0].values()), "section 0 is %s" % sh[0])
    # areas
    areas = sorted([(0, 64, "the header"), (shoff, shoff + 64 * shnum, "the section table")] +
                   [(s["offset"], s["offset"] + s["size"], "section %d" % i) for i, s in enumerate(sh) if i and s["size"] and s["type"] != 8])
    bad = next((b[2] + " overlaps " + a[2] for a, b in zip(areas, areas[1:]) if b[0] < a[1]), None)
    chk("header", "areas", bad is None, bad)
    chk("header", "extent", max(a[1] for a in areas) == len(data), "the file has %d bytes, its parts end at %d" % (len(data), max(a[1] for a in areas)))
    t = sh[shstr]
    chk("strings", "section names", t["type"] == 3 and t["size"] > 0 and I(t["offset"], 1) == 0, "e_shstrndx does not select a string table starting with NUL")
    name = lambda tab, off: V.cstr(tab["offset"] + off, tab["offset"] + tab["size"])
    names = [name(t, s["name"]) for s in sh]
    # the sections of the object
    idx = []
    for i, s in enumerate(o.sections):
        c = [k for k, n in enumerate(names) if n == s.name]
        if len(c) != 1:
            chk("sections", s.name, False, "%d sections are named %s" % (len(c), s.name))
            return res
        k = c[0]
        idx.append(k)
        d = sh[k]
        got = V.raw(d["offset"], d["size"]) if d["type"] == 1 else None
        want = [h.byte(b) for b in s.data]
        chk("sections", "%s type" % s.name, d["type"] == 1 or d["type"] == 8 and all(b == 0 for b in s.data), "type %d" % d["type"])
        chk("sections", "%s contents" % s.name, got == want if got is not None else d["size"] == len(s.data), "%d bytes that are not the section's %d" % (d["size"], len(s.data)))
        chk("sections", "%s alignment" % s.name, max(d["align"], 1) == max(s.align, 1), "sh_addralign %d, the section needs %d" % (d["align"], s.align))
        fl = FLAGS.get(s.name)
        chk("sections", "%s flags" % s.name, (d["flags"] & fl == fl and d["flags"] < 8 and not (s.name == ".text" and d["flags"] & 1)) if fl else d["flags"] & ~7 == 0,
            "flags %#x" % d["flags"])
        chk("sections", "%s header" % s.name, d["addr"] == 0 and d["entsize"] == 0, "sh_addr %d sh_entsize %d" % (d["addr"], d["entsize"]))
    order = [k for k in idx]
    chk("sections", "indices are distinct", len(set(order)) == len(order))
    # symbols
    tabs = [k for k, s in enumerate(sh) if s["type"] == 2]
    if len(tabs) != 1:
        chk("symbols", "table", False, "%d symbol tables" % len(tabs))
        return res
    st = sh[tabs[0]]
    strt = sh[st["link"]] if st["link"] < shnum else {"type": 0}
    chk("symbols", "table header", st["entsize"] == 24 and st["size"] % 24 == 0 and strt["type"] == 3 and names[tabs[0]] == ".symtab",
        "sh_entsize %d sh_size %d sh_link %d name %s" % (st["entsize"], st["size"], st["link"], names[tabs[0]]))
    if strt["type"] != 3 or st["entsize"] != 24:
        return res
    chk("strings", "symbol names", strt["size"] > 0 and I(strt["offset"], 1) == 0, "the string table does not start with NUL")
    n = st["size"] // 24
    sym = []
    for i in range(n):
        p = st["offset"] + 24 * i
        sym.append({"name": name(strt, I(p, 4)), "info": I(p + 4, 1), "other": I(p + 5, 1), "shndx": I(p + 6, 2), "value": V.bits(p + 8, 8), "size": V.bits(p + 16, 8)})
    chk("symbols", "null symbol", n > 0 and sym[0]["name"] == "" and not sym[0]["info"] and not sym[0]["other"] and not sym[0]["shndx"] and not any(sym[0]["value"] + sym[0]["size"]),
        "entry 0 is %s" % (sym[0] if n else None))
    loc = [i for i, s in enumerate(sym) if s["info"] >> 4 == 0]
    chk("symbols", "locals first", loc == list(range(len(loc))) and st["info"] == len(loc), "sh_info %d, local symbols at %s" % (st["info"], loc[:40]))
    zero = [0] * 64
    where, taken = {}, {0}
    for i, y in enumerate(o.symbols):
        want = (y.name, (y.glob != 0) << 4, 0, 0 if y.sec == -1 else idx[y.sec], h.bits_of(y.value))
        c = [k for k, s in enumerate(sym) if k not in taken and (s["name"], s["info"] & 0xf0, s["other"], s["shndx"], s["value"]) == want]
        c = [k for k in c if sym[k]["info"] & 15 in (0, 1, 2)]
        chk("symbols", "%s" % y.name[:40], c, "no entry with binding %d, section %d and its value" % (want[1] >> 4, want[3]))
        if c:
            where[c[0]] = i
            taken.add(c[0])
            chk("symbols", "size of %s" % y.name[:40], sym[c[0]]["size"] == h.bits_of(y.size), "st_size differs")
    secsym = {}
    for k, s in enumerate(sym):
        if k in taken:
            continue
        ok = s["info"] == 3 and s["shndx"] in idx and s["value"] == zero and not s["other"]
        if ok:
            secsym[k] = idx.index(s["shndx"])
        else:
            ok = s["info"] & 15 == 4
        chk("symbols", "entry %d" % k, ok, "an entry for %r, info %#x, section %d that is no symbol of the object" % (s["name"], s["info"], s["shndx"]))
    # relocations
    left = {i: list(s.relocs) for i, s in enumerate(o.sections)}
    seen = {}
    for k, s in enumerate(sh):
        if s["type"] == 4:
            chk("relocations", "header of section %d" % k, s["entsize"] == 24 and s["size"] % 24 == 0 and s["link"] == tabs[0] and s["info"] in idx and s["flags"] & ~0x40 == 0,
                "sh_link %d sh_info %d sh_entsize %d sh_flags %#x" % (s["link"], s["info"], s["entsize"], s["flags"]))
            if s["info"] not in idx or s["entsize"] != 24:
                continue
            t = idx.index(s["info"])
            chk("relocations", "name of section %d" % k, names[k] == ".rela" + o.sections[t].name, "the relocations of %s are named %s" % (o.sections[t].name, names[k]))
            for j in range(s["size"] // 24):
                p = s["offset"] + 24 * j
                seen.setdefault(t, []).append((V.bits(p, 8), I(p + 8, 4), I(p + 12, 4), V.bits(p + 16, 8)))
        elif k and k not in idx and k not in tabs and s["type"] not in (3, 0):
            chk("sections", "section %d" % k, False, "a section named %s of type %d belongs to nothing" % (names[k], s["type"]))
    for i, s in enumerate(o.sections):
        got = seen.get(i, [])
        want = [(h.bits_of(off), TYPE[kind], ix, h.bits_of(add)) for off, kind, ix, add in s.relocs]

        def same(g, w):
            if g[0] != w[0] or g[1] != w[1]:
                return False
            if g[2] in where:
                return where[g[2]] == w[2] and g[3] == w[3]
            return False
        for j, w in enumerate(want):
            chk("relocations", "%s #%d" % (s.name, j), any(same(g, w) for g in got), "no entry for the reference at %s to %s: entries %s" % (
                show(s.relocs[j][0]), o.symbols[w[2]].name, [(t, where.get(x, x)) for _, t, x, _ in got][:4]))
        chk("relocations", "%s count" % s.name, len(got) == len(want), "%d entries for %d relocations" % (len(got), len(want)))
    return res


def compare(h, o, b):
    """the object B read back from the file of O"""
    res = []
    chk = lambda what, ok, why="": res.append(("read back", what, bool(ok), why))
    B = lambda v, n=64: h.bits_of(v, n)

    def bits(v):
        try:
            r = h.bits_of(v)
            return show(v) if any(x is None for x in r) else r
        except Exception:
            return show(v)
    names = [s.name for s in b.sections]
    chk("section names", [s.name for s in o.sections if s.data or s.relocs or True] == names, "sections %s" % names)
    for s in o.sections:
        t = [x for x in b.sections if x.name == s.name]
        if len(t) != 1:
            continue
        t = t[0]
        chk("%s contents" % s.name, [h.byte(x) for x in t.data] == [h.byte(x) for x in s.data], "the bytes differ")
        chk("%s alignment" % s.name, isinstance(t.align, int) and max(t.align, 1) == max(s.align, 1), "alignment %s instead of %d" % (show(t.align), s.align))
        w = [(B(off), k, o.symbols[i].name, B(add)) for off, k, i, add in s.relocs]
        g = [(bits(off), k, b.symbols[i].name if isinstance(i, int) and 0 <= i < len(b.symbols) else show(i), bits(add)) for off, k, i, add in t.relocs]
        chk("%s relocations" % s.name, w == g, "%s instead of %s" % ([x[1:3] for x in g][:5], [x[1:3] for x in w][:5]))
    key = lambda ob, y: (y.name, None if y.sec == -1 else ob.sections[y.sec].name if 0 <= y.sec < len(ob.sections) else y.sec, y.glob != 0 if isinstance(y.glob, int) else show(y.glob))
    want = sorted((key(o, y), str(B(y.value)), str(B(y.size))) for y in o.symbols)
    got = sorted(((key(b, y), str(bits(y.value)), str(bits(y.size))) for y in b.symbols), key=str)
    chk("symbols", sorted(want, key=str) == got, "symbols %s instead of %s" % ([g[0] for g in got][:8], [w[0] for w in want][:8]))
    return res


def heap(ctx):
    P = ctx.P
    return Heap(ctx, {P.need("elf_write_object").file, P.need("elf_read_object").file}, unknowns=unknowns())


def widths(ctx):
    """the fields of a relocation entry are used at their full width"""
    out = []
    o = Obj([Section(".text", [0] * 8, 1, [(0, "64", 0, 0)])], [Sym("f", 0, 0, 1, 0)])
    for what, at in (("symbol index", 14), ("type", 10)):
        h = heap(ctx)
        rs, _ = h.call("elf_write_object", [("str", "t.o"), h.put_object(o)])
        st = rs[0][0]
        d = h.file(st, "t.o")
        V = View(h, d)
        sh = [V.int(40, 8) + 64 * i for i in range(V.int(60, 2))]
        r = [V.int(p + 24, 8) for p in sh if V.int(p + 4, 4) == 4 and V.int(p + 32, 8)][0]
        st = st.fork()
        d[r + at] = 1
        h.put_file(st, "t.o", d)
        ok = True
        try:
            rs, dead = h.call("elf_read_object", [("str", "t.o")], st)
            for s, p in rs:
                b = h.get_object(s, p) if p != 0 else None
                x = b.sections[0].relocs if b and b.sections else []
                ok = ok and not (x and x[0][2] == 0 and x[0][1] == "64")
        except Wrong:
            pass
        out.append(("read back", "relocation %s" % what, ok, "the upper half of the relocation's %s is ignored" % what))
    return out


def one(ctx, name, o):
    h = heap(ctx)
    out = []
    w = h.put_object(o)
    try:
        rs, dead = h.call("elf_write_object", [("str", "t.o"), w])
        if dead or len(rs) != 1:
            return [("header", "%s" % name, False, "the writer has %d outcomes and %d failures" % (len(rs), len(dead)))]
        st = rs[0][0]
        ev = [(e.k, e.name, e.args) for e in st.events() if e.k in ("fopen", "fclose")]
        out.append(("header", "file", [e[:2] for e in ev] == [("fopen", "t.o"), ("fclose", "#file:t.o")] and ev[0][2][0].startswith("wb"), "file operations %s" % ev))
        out += parse(h, o, h.file(st, "t.o") or [])
    except Wrong as e:
        return out + [("header", "emission", False, str(e))]
    if not all(x[2] for x in out):
        return out
    st = st.fork()
    try:
        rs, dead = h.call("elf_read_object", [("str", "t.o")], st)
        if dead or len(rs) != 1 or rs[0][1] == 0:
            why = [e.events[-1].name if e.events else "?" for e in dead]
            return out + [("read back", "reading", False, "the reader has %d outcomes and failures %s" % (len(rs), why))]
        out += compare(h, o, h.get_object(rs[0][0], rs[0][1]))
    except Wrong as e:
        out.append(("read back", "reading", False, str(e)))
    return out


def run(ctx):
    P = ctx.P
    R = {"header": "ELF header and layout of the file", "sections": "each section of the object is a section of the file with its bytes, alignment and flags",
         "symbols": "the symbol table lists the object's symbols, locals first", "relocations": "each reference is a relocation entry with its place, type, symbol and addend",
         "strings": "string tables", "read back": "reading the file gives the object",
         "building": "the object built holds, in each section, the bytes, symbols and references of the items emitted to it"}
    for k, t in R.items():
        ctx.rule(k, t)
    file = P.need("elf_write_object").file
    sh = shapes()

    def job(name):
        def go():
            n = {}
            for rule, what, ok, why in one(ctx, name, sh[name]):
                ctx.ob(rule, "%s: %s" % (name, what), ok, file, why)
        return go

    def wide():
        for rule, what, ok, why in widths(ctx):
            ctx.ob(rule, what, ok, file, why)
    its = list(enumerate(c09.items(P)))
    ctx.parallel([job(n) for n in sh] + [wide] + [lambda k=k: c09.do_items(ctx, its[k::4], "building", (0,)) for k in range(4)])
