"""C20: linking. Abstract evaluation of the linker and of the executable writer on sets of objects; the file written is loaded as the ELF
specification says and its contents compared with an independent account of what the objects ask for."""
import random
from absint import show, Limit, St, Ev
from front import AnalysisError, locs
from rules import c18
from lib_obj import Heap, Obj, Section, Sym, View, Wrong, U

EXPLANATION = ("abstract evaluation of linker_link and elf_write_executable on enumerated sets of abstract objects (contents unknown, places, addends, symbol values, "
               "alignments and bindings enumerated); the executable's bytes are parsed by an independent ELF reader, each input section is located in the loaded image "
               "by its unknown bytes, and each reference's value is recomputed; the driver is evaluated on lists of objects")
FLOORS = {"image": 15, "contents": 30, "references": 40, "diagnosis": 6, "driver": 3, "inputs": 15}
ASSUMPTIONS = ["input objects are ones this compiler emits (C18 covers reading them back)"]


def sets(seed=1):
    """{name: (objects, failure expected)}; data cells None are filled with unknown bytes of their own"""
    out = {}
    T = lambda n, a=0, r=(): Section(".text", [None] * n, a, r)
    start = lambda v=0, sec=0: Sym("_start", sec, v, 1, 0)
    out["one object"] = ([Obj([T(16, 0, [(3, "pc32", 0, -4)])], [start(2)])], False)
    out["absolute reference"] = ([Obj([T(16), Section(".data", [None] * 24, 8, [(0, "64", 0, 0), (8, "64", 1, 5), (17, "32", 1, -3)])], [start(4), Sym("d", 1, 6, 0)])], False)
    out["two objects"] = ([Obj([T(13, 0, [(1, "pc32", 1, -4), (6, "pc32", 2, -4)])], [start(), Sym("f", -1, 0, 1), Sym("g", -1, 0, 1)]),
                           Obj([T(21, 0, [(9, "pc32", 2, -4)])], [Sym("f", 0, 3, 1), Sym("g", 0, 11, 1), Sym("_start", -1, 0, 1)])], False)
    out["local names"] = ([Obj([T(20, 0, [(1, "64", 1, 0), (10, "64", 2, 1)])], [start(), Sym("x", 0, 7, 0), Sym("y", -1, 0, 1)]),
                           Obj([T(20, 0, [(1, "64", 0, 0), (10, "64", 1, 2)])], [Sym("x", 0, 9, 0), Sym("y", 0, 5, 1)]),
                           Obj([T(20, 0, [(1, "64", 1, 0)])], [Sym("y", 0, 1, 0), Sym("y", -1, 0, 1)] if False else [Sym("z", 0, 1, 0), Sym("y", -1, 0, 1)])], False)
    out["local shadows"] = ([Obj([T(20, 0, [(1, "64", 1, 0)])], [start(), Sym("v", -1, 0, 1)]), Obj([T(9)], [Sym("v", 0, 4, 1)]), Obj([T(9, 0, [(0, "64", 0, 0)])], [Sym("v", 0, 2, 0)])], False)
    out["local after"] = ([Obj([T(9, 0, [(0, "64", 0, 0)])], [Sym("v", 0, 2, 0)]), Obj([T(9)], [Sym("v", 0, 4, 1)]), Obj([T(20, 0, [(1, "64", 1, 0)])], [start(3), Sym("v", -1, 0, 1)])], False)
    out["common prefixes"] = ([Obj([T(30, 0, [(0, "64", 1, 0), (8, "64", 2, 0), (16, "64", 3, 0)])], [start(), Sym("ab", -1, 0, 1), Sym("a", -1, 0, 1), Sym("abc", -1, 0, 1)]),
                               Obj([T(9)], [Sym("abc", 0, 1, 1), Sym("ab", 0, 2, 1), Sym("a", 0, 3, 1)])], False)
    for a in (2, 8, 16, 64, 4096):
        out["alignment %d" % a] = ([Obj([T(5), Section(".data", [None] * 9, a, [(0, "64", 1, 0)])], [start(1), Sym("q", 1, 1, 1)]),
                                    Obj([T(3, 4), Section(".data", [None] * 10, a), Section(".rodata", [None] * 9, 1)], [Sym("k", 1, 0, 1)])], False)
    out["empty sections"] = ([Obj([T(7, 0, [(0, "pc32", 1, -4)]), Section(".rodata"), Section(".data", [], 4), Section(".bss", [], 1)], [start(), Sym("e", -1, 0, 1)]),
                              Obj([T(0), Section(".data", [None] * 12, 4, [(4, "64", 0, 0)])], [Sym("e", 1, 2, 1)])], False)
    out["unused undefined"] = ([Obj([T(8, 0, [(0, "pc32", 0, -4)])], [start(), Sym("nowhere", -1, 0, 1)])], False)
    out["unused undefined in two"] = ([Obj([T(8)], [Sym("nowhere", -1, 0, 1), start(2)]), Obj([T(9)], [Sym("nowhere", -1, 0, 1)])], False)
    out["undefined"] = ([Obj([T(8, 0, [(0, "pc32", 1, -4)])], [start(), Sym("nowhere", -1, 0, 1)])], True)
    out["undefined in two"] = ([Obj([T(8)], [start(), Sym("other", 0, 3, 1)]), Obj([T(8, 0, [(0, "64", 1, 0)])], [Sym("f", 0, 0, 1), Sym("nowhere", -1, 0, 1)])], True)
    out["only a local definition"] = ([Obj([T(8, 0, [(0, "pc32", 1, -4)])], [start(), Sym("h", -1, 0, 1)]), Obj([T(9)], [Sym("h", 0, 3, 0)])], True)
    out["twice defined"] = ([Obj([T(8)], [start(), Sym("h", 0, 1, 1)]), Obj([T(9)], [Sym("h", 0, 3, 1)])], True)
    out["twice defined, referenced"] = ([Obj([T(8, 0, [(0, "pc32", 1, -4)])], [start(), Sym("h", -1, 0, 1)]), Obj([T(9)], [Sym("h", 0, 3, 1)]), Obj([Section(".data", [None], 1)], [Sym("h", 0, 0, 1)])], True)
    out["main twice"] = ([Obj([T(8)], [start()]), Obj([T(8)], [start(2)])], True)
    rnd = random.Random(seed)
    for n in range(10):
        objs, k = [], 1 + n % 5
        home = {g: rnd.randrange(k) for g in ("_start", "g1", "g2", "tab", "fn")}
        for i in range(k):
            secs = [Section(nm, [None] * rnd.randrange(9, 40), 1 << rnd.randrange(6)) for nm in rnd.sample([".text", ".data", ".rodata", ".bss"], rnd.randrange(1, 5))]
            syms = []
            for g in rnd.sample(sorted(home), 5):
                if home[g] == i:
                    s = rnd.randrange(len(secs))
                    syms.append(Sym(g, s, rnd.randrange(len(secs[s].data) + 1), 1))
                elif rnd.random() < .7:
                    syms.append(Sym(g, -1, 0, 1))
            for j in range(rnd.randrange(4)):
                s = rnd.randrange(len(secs))
                syms.append(Sym(".L%d" % j, s, rnd.randrange(len(secs[s].data) + 1), 0))
            for s in secs:
                off = rnd.randrange(3)
                while syms and off + 8 <= len(s.data):
                    kind = rnd.choice(["64", "32", "pc32"])
                    s.relocs.append((off, kind, rnd.randrange(len(syms)), rnd.choice([0, -4, 4, 100, -1, -5, 0x1234])))
                    off += 8 + rnd.randrange(9)
            objs.append(Obj(secs, syms))
        out["mixed %d" % n] = (objs, False)
    return out


def fill(objs):
    un = []
    for i, o in enumerate(objs):
        for j, s in enumerate(o.sections):
            for k, d in enumerate(s.data):
                if d is None:
                    u = U("c%d_%d_%d" % (i, j, k))
                    s.data[k] = u
                    un.append((u, 8, False))
    return un


SIZE = {"64": 8, "32": 4, "pc32": 4}


def load(h, data):
    """(entry, {address: byte bits}, problems) of an executable"""
    V, bad = View(h, data), []
    I = V.int
    if [I(k, 1) for k in range(16)] != [0x7f, 0x45, 0x4c, 0x46, 2, 1, 1, 0, 0] + [0] * 7:
        bad.append("e_ident is wrong")
    if (I(16, 2), I(18, 2), I(20, 4), I(48, 4), I(52, 2)) != (2, 62, 1, 0, 64):
        bad.append("type %d machine %d version %d flags %d header size %d" % (I(16, 2), I(18, 2), I(20, 4), I(48, 4), I(52, 2)))
    ph, n = I(32, 8), I(56, 2)
    if n and I(54, 2) != 56 or not n:
        bad.append("%d program headers of %d bytes" % (n, I(54, 2)))
    if I(60, 2) and I(58, 2) != 64:
        bad.append("section headers of %d bytes" % I(58, 2))
    mem, spans = {}, []
    for i in range(n):
        p = ph + 56 * i
        ty, fl, off, va, pa, fs, ms, al = I(p, 4), I(p + 4, 4), I(p + 8, 8), I(p + 16, 8), I(p + 24, 8), I(p + 32, 8), I(p + 40, 8), I(p + 48, 8)
        if ty != 1:
            continue
        if al & al - 1 or al > 1 and (off - va) % al:
            bad.append("segment %d: offset %#x, address %#x, alignment %#x" % (i, off, va, al))
        if off % 4096 != va % 4096:
            bad.append("segment %d cannot be mapped: offset %#x, address %#x" % (i, off, va))
        if off + fs > len(data) or fs > ms or not va:
            bad.append("segment %d: offset %#x, %d bytes in a file of %d, %d in memory" % (i, off, fs, len(data), ms))
            continue
        if fs and off < ph + 56 * n:
            bad.append("segment %d overlaps the headers" % i)
        spans.append((va, va + ms, fl))
        for k in range(ms):
            mem[va + k] = V.raw(off + k, 1)[0] if k < fs else [0] * 8
    spans.sort()
    for a, b in zip(spans, spans[1:]):
        if b[0] < a[1]:
            bad.append("segments overlap")
    return I(24, 8), mem, spans, bad


def link(ctx, name, objs, fails):
    un = fill(objs)
    files = {ctx.P.need("linker_link").file, ctx.P.need("elf_write_executable").file}
    h = Heap(ctx, files, unknowns=un)
    res = []
    chk = lambda rule, what, ok, why="": res.append((rule, what, bool(ok), why))
    b = h.X.new(h.st)
    for i, o in enumerate(objs):
        h.put_object(o, at=("i", b, i))
    try:
        rs, dead = h.call("linker_link", [len(objs), ("addr", ("i", b, 0))])
        if fails:
            chk("diagnosis", "failure", not rs and dead, "is linked without a diagnostic")
            return res
        if dead or len(rs) != 1:
            chk("diagnosis", "success", False, "%d results, %d failures" % (len(rs), len(dead)))
            return res
        chk("diagnosis", "success", True)
        st, exe = rs[0]
        rs, dead = h.call("elf_write_executable", [("str", "a.out"), exe], st)
        if dead or len(rs) != 1:
            chk("image", "writing", False, "%d results, %d failures" % (len(rs), len(dead)))
            return res
        entry, mem, spans, bad = load(h, h.file(rs[0][0], "a.out") or [])
    except Wrong as e:
        chk("image", "emission", False, str(e))
        return res
    chk("image", "headers and segments", not bad, "; ".join(bad))
    # where did each section go: its unknown bytes identify it
    place, owner = {}, {}
    for a, v in mem.items():
        for x in v:
            if isinstance(x, tuple):
                owner.setdefault(x[0], set()).add(a)
    for i, o in enumerate(objs):
        for j, s in enumerate(o.sections):
            holes = set()
            for off, kind, _, _ in s.relocs:
                holes |= set(range(off, off + SIZE[kind]))
            own = [k for k in range(len(s.data)) if k not in holes]
            if not own:
                continue
            at = {a - k for k in own for a in owner.get("c%d_%d_%d" % (i, j, k), set())}
            what = "object %d %s" % (i, s.name)
            if len(at) != 1 or any(len(owner.get("c%d_%d_%d" % (i, j, k), ())) != 1 for k in own):
                chk("contents", what, False, "its bytes are not at one place: %s" % sorted(at)[:5])
                continue
            a = place[i, j] = at.pop()
            chk("contents", what, all(mem.get(a + k) == h.byte(s.data[k]) for k in own), "its bytes are not kept")
            chk("contents", what + " alignment", a % max(s.align, 1) == 0, "address %#x, alignment %d" % (a, s.align))
            fl = next((f for lo, hi, f in spans if lo <= a and a + len(s.data) <= hi), 0)
            need = 4 | (1 if s.name == ".text" else 0) | (2 if s.name in (".data", ".bss") else 0)
            chk("contents", what + " protection", fl & need == need, "segment flags %d" % fl)
    iv = sorted((a, a + len(objs[i].sections[j].data)) for (i, j), a in place.items())
    chk("contents", "sections do not overlap", all(y[0] >= x[1] for x, y in zip(iv, iv[1:])))
    glob = {}
    for i, o in enumerate(objs):
        for y in o.symbols:
            if y.glob and y.sec != -1:
                glob[y.name] = (i, y)

    def address(i, y):
        if y.sec == -1:
            i, y = glob[y.name]
        p = place.get((i, y.sec))
        return None if p is None else p + y.value
    for i, o in enumerate(objs):
        for j, s in enumerate(o.sections):
            for n, (off, kind, ix, add) in enumerate(s.relocs):
                y = o.symbols[ix]
                S, p = address(i, y), place.get((i, j))
                if S is None or p is None:
                    continue
                v = S + add - (p + off if kind == "pc32" else 0)
                got = [mem.get(p + off + k) for k in range(SIZE[kind])]
                chk("references", "object %d %s #%d" % (i, s.name, n), got == [h.byte(v >> 8 * k & 255) for k in range(SIZE[kind])],
                    "the reference to %s%+d (%s) at %#x is %s instead of %#x" % (y.name, add, kind, p + off, hexb(got), v & (1 << 8 * SIZE[kind]) - 1))
    if "_start" in glob:
        e = address(*glob["_start"])
        chk("image", "entry", e is None or entry == e, "entry %#x instead of %#x" % (entry, e or 0))
    return res


def hexb(got):
    try:
        return "%#x" % sum(sum(b << i for i, b in enumerate(v)) << 8 * k for k, v in enumerate(got))
    except TypeError:
        return "unknown"


def driver(ctx):
    P = ctx.P
    main = P.need("main")
    own = [f.name for f in P.all_funcs if f.file == main.file and f.static]
    for files in (["a.o"], ["b.o", "dir/a.o"], ["x.o", "y.o", "z.o"]):
        for out in (0, "prog"):
            def m_args(I, st, a, n, f):
                d = {"flag_S": 0, "flag_c": 0, "flag_E": 0, "flag_MD": 0, "n_include": 0, "n_define": 0, "n_undefine": 0, "n_operand": len(files),
                     "operands": ("addr", ("i", ("g", "#ops"), 0)), "outfile": ("str", out) if out else 0, "mt_path": 0, "mf_path": 0}
                return [(st, ("struct", "arguments", tuple(d.items())))]

            def m_read(I, st, a, n, f):
                st.ev = (st.ev, Ev("step", "read", tuple(a), locs(n), f.name if f else "?"))
                nm = h.X.chars(I, st, a[0])
                b = h.X.new(st)
                st.mem[("i", b, 0)] = ("struct", "object", (("section_size", ("p", "of " + nm)),))
                return [(st, ("addr", ("i", b, 0)))]

            def m_link(I, st, a, n, f):
                l = I.deref(st, a[1])
                st.ev = (st.ev, Ev("step", "link", (a[0],) + tuple(I.rd(st, ("f", ("i", l[1], l[2] + k), "section_size")) for k in range(a[0])), locs(n), f.name if f else "?"))
                return [(st, ("ob", "exe"))]

            def m_write(I, st, a, n, f):
                st.ev = (st.ev, Ev("step", "write", tuple(a), locs(n), f.name if f else "?"))
                return [(st, 0)]
            sv = lambda I, st, a, n, f: [(st, h.X.mksv(h.X.chars(I, st, a[0])))]
            h = Heap(ctx, {main.file, P.need("sv_slice_string").file}, inline=own, models={"elf_read_object": m_read, "linker_link": m_link, "elf_write_executable": m_write})
            st = h.st
            for k, n in enumerate(files):
                st.mem[("i", ("g", "#ops"), k)] = ("str", n)
            text = lambda I, st, a, n, f: [(st, ("ob", "text"))]
            models = {"snprintf": text, "sprintf": text, "allocate_printf": text, "arguments_parse": m_args, "arguments_set": m_args}
            h.I.models.update(models)
            prs = [n for n, f in P.funcs.items() if n.startswith("arguments") and "struct arguments" in (f.node.t[0] if f.node.t else "")]
            for n in prs:
                h.I.models[n] = m_args
            rs, dead = h.call("main", [2, ("ob", "argv")])
            inst = "%s to %s" % (" ".join(files), out or "a.out")
            ok = bool(rs)
            why = "fails" if not ok else ""
            for s, v in rs:
                ev = [e for e in s.events() if e.k == "step"]
                want = [("read", (("str", n),)) for n in files] + [("link", (len(files),) + tuple(("p", "of " + n) for n in files)), ("write", (("str", out or "a.out"), ("ob", "exe")))]
                if [(e.name, e.args) for e in ev] != want or v != 0:
                    ok, why = False, "does %s, exits with %s" % ([(e.name, [show(x) for x in e.args]) for e in ev], show(v))
            ctx.ob("driver", inst, ok, main.file, why)


def run(ctx):
    P = ctx.P
    R = {"image": "the executable is a loadable ELF file whose entry is _start", "contents": "each input section is kept at one aligned place with the protection it needs",
         "references": "each reference has the value its type prescribes for the definition the ELF rules choose", "diagnosis": "undefined and multiply defined symbols are diagnosed, others are not",
         "inputs": "an object read from a file is the object written to it",
         "driver": "the driver links all objects named, in order, into the file asked for"}
    for k, t in R.items():
        ctx.rule(k, t)
    file = P.need("linker_link").file
    ss = sets(1)
    if ctx.tier != "quick":
        for n in range(2, 30):
            for k, v in sets(n).items():
                if k.startswith("mixed"):
                    ss["%s seed %d" % (k, n)] = v

    def job(names):
        def go():
            for name in names:
                for rule, what, ok, why in link(ctx, name, *ss[name]):
                    ctx.ob(rule, "%s: %s" % (name, what), ok, file, why)
        return go
    ins = {k: v for k, v in c18.shapes().items() if not k.startswith("many") and k != "large contents"}

    def inputs():
        for name, o in ins.items():
            for rule, what, ok, why in c18.one(ctx, name, o):
                if rule == "read back":
                    ctx.ob("inputs", "%s: %s" % (name, what), ok, P.need("elf_read_object").file, why)
    ns = sorted(ss)
    ctx.parallel([job(ns[k::16]) for k in range(16)] + [lambda: driver(ctx), inputs])
