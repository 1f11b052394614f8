"""C19: the COFF object file written for an object says exactly what the object says. Abstract evaluation of the writer on objects of many
shapes whose numbers and contents are unknowns; the bytes written are parsed by an independent COFF reader."""
from absint import show, Limit
from front import AnalysisError
from rules import c09, c18
from lib_obj import Heap, Obj, Section, Sym, View, Wrong, U

EXPLANATION = ("abstract evaluation of the COFF writer on abstract objects (section, symbol and relocation counts and name lengths enumerated; symbol values, "
               "relocation places and addends and section bytes are unknowns followed bit by bit); the bytes written are parsed by an independent COFF reader "
               "and compared with the object")
FLOORS = {"header": 8, "sections": 15, "symbols": 15, "relocations": 10, "names": 10, "building": 20}
ASSUMPTIONS = ["file contents are what fwrite/fputc put there, in order (I/O failures are C27)",
               "the bytes of a section at a relocation's place are zero before the addend is stored (the encoder and the data directives emit zeros: C08, C33)"]
TYPE = {"64": (1, 8), "32": (2, 4), "pc32": (4, 4)}
V32 = [("value%d" % i, 31) for i in range(12)] + [("size%d" % i, 64) for i in range(12)] + [("byte%d" % i, 8) for i in range(12)]


def unknowns():
    return [(U(n), 32 if w == 31 else w, False) for n, w in V32]


def shapes():
    v, b = lambda i: U("value%d" % i), lambda i: U("byte%d" % i)
    s = lambda i: U("size%d" % i)
    text = lambda n, r=(): Section(".text", [b(i % 12) for i in range(n)], 0, r)

    def holes(sec):
        for off, kind, _, _ in sec.relocs:
            for k in range(TYPE[kind][1]):
                sec.data[off + k] = 0
        return sec
    out = {}
    out["empty text"] = Obj([Section(".text")], [])
    out["one function"] = Obj([text(3)], [Sym("f", 0, v(0), 1, s(0))])
    out["a local label"] = Obj([text(5)], [Sym(".L1", 0, v(0), 0, s(0))])
    out["an undefined symbol"] = Obj([holes(text(9, [(1, "pc32", 0, -4)]))], [Sym("ext", -1, 0, 1)])
    n = 0
    for kind in TYPE:
        for add in (0, 1, -1, -4, -5, 8, 0x7fffff00, -0x80000000, 300, -70000):
            out["reference %s%+d" % (kind, add)] = Obj([holes(text(14, [(3, kind, 1, add)])), holes(Section(".data", [b(k) for k in range(9)], 8, [(0, kind, 0, add)]))],
                                                       [Sym("f", 0, v(0), 1, 0), Sym("g_long_name", 1, v(1), 0, 0)])
    secs = [holes(text(30, [(1, "pc32", 3, -4), (10, "pc32", 4, -8), (18, "64", 0, 40)])), holes(Section(".data", [b(i) for i in range(11)], 16, [(2, "64", 2, 12)])),
            Section(".rodata", [b(9)], 1), Section(".bss", [0] * 7, 8)]
    syms = [Sym("main", 0, v(0), 1, s(0)), Sym(".Lx", 2, v(1), 0, s(1)), Sym("counter", 3, v(2), 0, s(2)), Sym("table", 1, v(3), 1, s(3)), Sym("puts", -1, 0, 1, 0)]
    out["four sections"] = Obj(secs, syms)
    out["data before text"] = Obj([holes(Section(".data", [b(i) for i in range(11)], 16, [(2, "64", 2, 12)])), text(3), Section(".rodata", [], 4)],
                                  [Sym("counter", 1, v(2), 0, s(2)), Sym("main", 1, v(0), 1, s(0)), Sym("t", 0, v(3), 1, 0)])
    for a in [1 << k for k in range(14)]:
        out["alignment %d" % a] = Obj([text(3), Section(".data", [b(1)] * 3, a)], [Sym("x", 1, 0, 1, 0)])
    for n in (1, 7, 8, 9, 10, 40, 300):
        out["names of %d characters" % n] = Obj([text(2), Section("." + "abcdefghij" * 40 if False else ("." + "s" * 400)[:max(n, 2)], [b(1)], 1)],
                                                [Sym(("abcdefghijklmnop" * 30)[:n], 0, v(0), 1, 0), Sym("x", 0, v(1), 0, 0), Sym(("zyxwvut" * 60)[:n], 1, v(2), 0, 0), Sym("q" * 20, -1, 0, 1, 0)])
    n = 300
    out["many symbols"] = Obj([holes(text(8 * n, [(8 * i, "64", n - 1 - i, i - 4) for i in range(n)]))],
                              [Sym(("s%d" % i) * (1 + i % 3), 0 if i % 3 else -1, v(i % 12) if i % 3 else 0, 1 if i % 3 != 1 else 0, 0) for i in range(n)])
    n = 270
    out["many sections"] = Obj([Section(".text.%d" % i if i else ".text", [0] * 4 + [b(i % 12)] * (i % 3), 1 << i % 6, [(0, "pc32", i, -4)]) for i in range(n)],
                               [Sym("f%d" % i, i, v(i % 12), i % 2, 0) for i in range(n)])
    big = [(7 * i) & 255 for i in range(300)]
    out["large contents"] = Obj([Section(".text", big + big), Section(".data", big[::-1], 64)], [Sym("z", 1, 299, 1, 1)])
    return out


def parse(h, o, data):
    V, res = View(h, data), []
    chk = lambda rule, what, ok, why="": res.append((rule, what, bool(ok), why))
    I = V.int
    ns, ptr, nsym = I(2, 2), I(8, 4), I(12, 4)
    chk("header", "machine", I(0, 2) == 0x8664, "machine %#x" % I(0, 2))
    chk("header", "section count", ns == len(o.sections), "%d sections for %d" % (ns, len(o.sections)))
    chk("header", "symbol count", nsym == len(o.symbols), "%d symbols for %d" % (nsym, len(o.symbols)))
    chk("header", "optional header and characteristics", I(16, 2) == 0 and I(18, 2) & ~0x2c == 0, "optional header of %d bytes, characteristics %#x" % (I(16, 2), I(18, 2)))
    strp = ptr + 18 * nsym
    slen = I(strp, 4)
    chk("names", "string table size", slen >= 4 and strp + slen <= len(data), "string table of %d bytes at %d in a file of %d" % (slen, strp, len(data)))
    if not (slen >= 4 and strp + slen <= len(data)):
        return res
    areas = [(0, 20 + 40 * ns, "the headers"), (ptr, strp + slen, "the symbol and string tables")]

    def short(p):
        r = ""
        for k in range(8):
            c = I(p + k, 1)
            if c:
                if len(r) != k:
                    raise Wrong("a name with an embedded NUL")
                r += chr(c)
        return r

    def longname(off):
        if off < 4:
            raise Wrong("string table offset %d lies inside the table's size" % off)
        return V.cstr(strp + off, strp + slen)
    rel = []
    for i, s in enumerate(o.sections):
        p = 20 + 40 * i
        if p + 40 > len(data):
            break
        nm = short(p)
        if nm.startswith("/"):
            nm = longname(int(nm[1:]))
        chk("names", "section %s" % s.name[:40], nm == s.name, "section %d is named %r" % (i, nm))
        vs, va, size, raw, prel, pln, nrel, nln, ch = I(p + 8, 4), I(p + 12, 4), I(p + 16, 4), I(p + 20, 4), I(p + 24, 4), I(p + 28, 4), I(p + 32, 2), I(p + 34, 2), I(p + 36, 4)
        chk("sections", "%s header" % s.name[:40], va == 0 and nln == 0 and (pln == 0 or not nln) and vs in (0, len(s.data)), "virtual address %d, %d line numbers" % (va, nln))
        chk("sections", "%s size" % s.name[:40], size == len(s.data), "%d bytes for %d" % (size, len(s.data)))
        al = ch >> 20 & 15
        chk("sections", "%s alignment" % s.name[:40], al == 0 and s.align in (0, 16) or al and 1 << al - 1 == max(s.align, 1) or s.align == 0 and al, "alignment field %d for %d bytes" % (al, s.align))
        ok = ch & 0x40000000 and ch & 0xe0 and not ch & 0x3fc2 * 0 and not ch & 0x0100ba1f & ~0x100000
        if s.name == ".text":
            ok = ok and ch & 0x20000020 == 0x20000020
        if s.name in (".data", ".bss"):
            ok = ok and ch & 0x80000000
        chk("sections", "%s characteristics" % s.name[:40], ok, "characteristics %#x" % ch)
        if size:
            areas.append((raw, raw + size, "section %d" % i))
        if nrel:
            areas.append((prel, prel + 10 * nrel, "the relocations of section %d" % i))
        want = [h.byte(b) for b in s.data]
        for off, kind, idx, add in s.relocs:
            n = TYPE[kind][1]
            a = add + (4 if kind == "pc32" else 0)
            for k in range(n):
                want[off + k] = h.byte(a >> 8 * k & 255)
        got = V.raw(raw, size) if raw + size <= len(data) else None
        bad = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), None) if got else 0 if want else None
        chk("sections", "%s contents" % s.name[:40], bad is None, "byte %s is not the section's (with the addend of its reference)" % bad)
        chk("relocations", "%s count" % s.name[:40], nrel == len(s.relocs), "%d entries for %d" % (nrel, len(s.relocs)))
        ent = [(I(prel + 10 * j, 4), I(prel + 10 * j + 4, 4), I(prel + 10 * j + 8, 2)) for j in range(nrel) if prel + 10 * j + 10 <= len(data)]
        for j, (off, kind, idx, add) in enumerate(s.relocs):
            chk("relocations", "%s #%d" % (s.name[:40], j), (off, idx, TYPE[kind][0]) in ent, "no entry for place %d, symbol %d, type %d" % (off, idx, TYPE[kind][0]))
    areas.sort()
    bad = next((b[2] + " overlaps " + a[2] for a, b in zip(areas, areas[1:]) if b[0] < a[1]), None)
    chk("header", "areas", bad is None, bad)
    chk("header", "extent", max(a[1] for a in areas) == len(data), "the file has %d bytes, its parts end at %d" % (len(data), max(a[1] for a in areas)))
    for i, y in enumerate(o.symbols):
        p = ptr + 18 * i
        if i >= nsym:
            break
        nm = short(p) if I(p, 4) else longname(I(p + 4, 4)) if I(p + 4, 4) else ""
        chk("names", "symbol %s" % y.name[:40], nm == y.name, "symbol %d is named %r" % (i, nm[:60]))
        chk("symbols", "%s value" % y.name[:40], V.bits(p + 8, 4) == h.bits_of(y.value, 64)[:32], "the value differs")
        chk("symbols", "%s section" % y.name[:40], I(p + 12, 2) == (0 if y.sec == -1 else y.sec + 1), "section number %d" % I(p + 12, 2))
        chk("symbols", "%s class" % y.name[:40], I(p + 14, 2) in (0, 0x20) and I(p + 16, 1) == (2 if y.glob else 3) and I(p + 17, 1) == 0,
            "type %d, class %d, %d auxiliary entries" % (I(p + 14, 2), I(p + 16, 1), I(p + 17, 1)))
    return res


def one(ctx, name, o):
    h = Heap(ctx, {ctx.P.need("coff_write_object").file}, unknowns=unknowns())
    st, out = h.st, []
    for n, w in V32:
        if w == 31:
            st.facts[U(n)] = ("iv", 0, (1 << 31) - 1, frozenset())
    w = h.put_object(o)
    try:
        rs, dead = h.call("coff_write_object", [("str", "t.obj"), w])
        if dead or len(rs) != 1:
            return [("header", "writing", False, "the writer has %d outcomes and %d failures" % (len(rs), len(dead)))]
        st = rs[0][0]
        ev = [(e.k, e.name, e.args) for e in st.events() if e.k in ("fopen", "fclose")]
        out.append(("header", "file", [e[:2] for e in ev] == [("fopen", "t.obj"), ("fclose", "#file:t.obj")] and ev[0][2][0].startswith("wb"), "file operations %s" % ev))
        out += parse(h, o, h.file(st, "t.obj") or [])
    except (Wrong, ValueError) as e:
        out.append(("header", "emission", False, str(e)))
    return out


def run(ctx):
    P = ctx.P
    R = {"header": "COFF header and layout of the file", "sections": "each section of the object is a section of the file with its bytes, addends, alignment and characteristics",
         "symbols": "the symbol table lists the object's symbols", "relocations": "each reference is a relocation entry with its place, type and symbol",
         "names": "names: short ones in place, long ones through the string table",
         "building": "the object built holds, in each section, the bytes, symbols and references of the items emitted to it"}
    for k, t in R.items():
        ctx.rule(k, t)
    file = P.need("coff_write_object").file
    sh = shapes()

    def job(names):
        def go():
            for name in names:
                for rule, what, ok, why in one(ctx, name, sh[name]):
                    ctx.ob(rule, "%s: %s" % (name, what), ok, file, why)
        return go
    ns = [n for n in sh if not n.startswith("many")]
    its = list(enumerate(c09.items(P)))
    ctx.parallel([job([n]) for n in sh if n.startswith("many")] + [job(ns[k::6]) for k in range(6)] +
                 [lambda k=k: c09.do_items(ctx, its[k::4], "building", (0,)) for k in range(4)])
