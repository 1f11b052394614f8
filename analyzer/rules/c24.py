"""Character and string literals: escape decoding, UTF-8/16/32, concatenation, values, types and emission."""
from lib import *
from lib_pp import *
from lib_tok import *
from absint import Limit
import itertools, re

EXPLANATION = ("The UTF-8 encoder and decoder are evaluated on symbolic code points of each length class and on symbolic bytes of each "
               "sequence form; every result bit must come from the bit the encoding prescribes, so all code points are covered. The literal "
               "pipeline (tokenizer, escape decoding, prefix handling, concatenation) is evaluated on every octal and two-digit hexadecimal "
               "escape, every simple escape, boundary code points of every encoding length in all spellings, for every prefix, on all "
               "combinations of adjacent prefixes; the resulting bytes must be those of an independent decoder. The types, array lengths "
               "and constant values the parser gives these tokens, and the bytes emitted for all 256 byte values as text and as object "
               "data, are checked the same way.")
SIMPLE = {"n": 10, "t": 9, "a": 7, "b": 8, "f": 12, "r": 13, "v": 11, "\\": 92, "'": 39, "\"": 34, "?": 63}
PRE = {"": 1, "u8": 1, "u": 2, "U": 4, "L": 4}
KIND = {"": "T_STRING", "u8": "T_STRING", "u": "T_STRING_CHAR16", "U": "T_STRING_CHAR32", "L": "T_STRING_WCHAR"}
CKIND = {"": "T_CHARACTER_CONSTANT", "u": "T_CHARACTER_CONSTANT_CHAR16", "U": "T_CHARACTER_CONSTANT_CHAR32", "L": "T_CHARACTER_CONSTANT_WCHAR"}


def units(body, size):
    """code units of a literal body (a Python string) as bytes, little endian"""
    out, i = b"", 0

    def unit(v):
        return (v & ((1 << 8 * size) - 1)).to_bytes(size, "little")

    def point(cp):
        c = chr(cp)
        return c.encode("utf-8") if size == 1 else c.encode("utf-16-le") if size == 2 else c.encode("utf-32-le")
    while i < len(body):
        c = body[i]
        if c != "\\":
            out += point(ord(c))
            i += 1
            continue
        m = re.compile(r"\\([0-7]{1,3})").match(body, i)
        h = re.compile(r"\\x([0-9a-fA-F]+)").match(body, i)
        u = re.compile(r"\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})").match(body, i)
        if m:
            out += unit(int(m.group(1), 8))
            i = m.end()
        elif h:
            out += unit(int(h.group(1), 16))
            i = h.end()
        elif u:
            out += point(int(u.group(1) or u.group(2), 16))
            i = u.end()
        else:
            out += unit(SIMPLE[body[i + 1]])
            i += 2
    return out


# ---------------------------------------------------------------------------------------------- bit provenance
def bits(t, n, src):
    """the N low bits of T as a list of 0 | 1 | ("src", i), or None where unknown; SRC: {atom: (name, width)}"""
    if isinstance(t, int):
        return [(t >> i) & 1 for i in range(n)]
    if t in src:
        nm, w = src[t]
        return [(nm, i) if i < w else 0 for i in range(n)]
    k = t[0]
    if k == "cast":
        w, sg = t[1], t[2]
        b = bits(t[3], max(n, w), src)
        return [b[i] if i < w else (b[w - 1] if sg else 0) for i in range(n)]
    if k == "sc":
        return bits(t[2], n, src)
    if k == "u" and t[1] == "~":
        return [None if x is None or isinstance(x, tuple) else 1 - x for x in bits(t[2], n, src)]
    if k == "b":
        op = t[1]
        if op in ("<<", ">>") and isinstance(t[3], int):
            s = t[3]
            if op == "<<":
                return ([0] * s + bits(t[2], n, src))[:n]
            return bits(t[2], n + s, src)[s:]
        if op in ("&", "|", "+", "^", "-", "*", "/", "%"):
            if op == "*" and isinstance(t[3], int) and t[3] > 0 and t[3] & (t[3] - 1) == 0:
                return bits(("b", "<<", t[2], t[3].bit_length() - 1), n, src)
            if op == "/" and isinstance(t[3], int) and t[3] > 0 and t[3] & (t[3] - 1) == 0:
                return bits(("b", ">>", t[2], t[3].bit_length() - 1), n, src)
            if op == "%" and isinstance(t[3], int) and t[3] > 0 and t[3] & (t[3] - 1) == 0:
                return bits(("b", "&", t[2], t[3] - 1), n, src)
            a, b = bits(t[2], n, src), bits(t[3], n, src)
            r = []
            ok = True
            for x, y in zip(a, b):
                if op == "&":
                    r.append(0 if 0 in (x, y) and (x == 0 or y == 0) else x if y == 1 else y if x == 1 else x if x == y else None)
                elif op == "|":
                    r.append(1 if x == 1 or y == 1 else x if y == 0 else y if x == 0 else x if x == y else None)
                elif op == "^":
                    r.append(x if y == 0 else y if x == 0 else 0 if x == y and x is not None else
                             None if isinstance(x, tuple) or isinstance(y, tuple) or None in (x, y) else x ^ y)
                elif op == "+":
                    if ok and (x == 0 or y == 0):
                        r.append(x if y == 0 else y)
                    else:
                        ok = False
                        r.append(None)
                else:
                    if op == "-" and ok and (y == 0 or x == 1 and y == 1):
                        r.append(x if y == 0 else 0)
                    else:
                        ok = False
                        r.append(None)
            return r
    return [None] * n


def run(ctx):
    P = ctx.P
    quick = ctx.tier == "quick"

    # ------------------------------------------------------------------ codec
    ctx.rule("utf-8 encode", "every code point is encoded as the sequence UTF-8 prescribes, bit by bit")
    forms = [(0, 0x7f, [(0, 0x80, 0)]), (0x80, 0x7ff, [(0xc0, 0xe0, 6), (0x80, 0xc0, 0)]),
             (0x800, 0xffff, [(0xe0, 0xf0, 12), (0x80, 0xc0, 6), (0x80, 0xc0, 0)]),
             (0x10000, 0x10ffff, [(0xf0, 0xf8, 18), (0x80, 0xc0, 12), (0x80, 0xc0, 6), (0x80, 0xc0, 0)])]
    for lo, hi, bs in forms:
        I = ctx.interp(inline=["utf8_encode"])
        f = P.need("utf8_encode")
        st = St()
        cp = ("p", "codepoint")
        st.facts = dict(st.facts)
        st.facts[cp] = ("iv", lo, hi, frozenset())
        I.tt[cp] = (32, False)
        out = ("i", ("g", "#out"), 0)
        res = [r for r in I.call_body(st, f, [cp, ("addr", out)]) if r[1] is None]
        dead = I.take_dead()
        ctx.functions |= I.analysed
        ctx.paths += len(res)
        ok = bool(res) and not dead
        msg = "%d results, %d errors" % (len(res), len(dead))
        for t, _, _ in res:
            for i in range(4):
                v = I.rd(t, ("i", ("g", "#out"), i))
                w = hi.bit_length()
                got = bits(v, 8, {cp: ("cp", w)})
                if i < len(bs):
                    tag, mask, sh = bs[i]
                    want = [(tag >> b) & 1 if (mask >> b) & 1 else (("cp", b + sh) if b + sh < w else 0) for b in range(8)]
                else:
                    want = [0] * 8
                if got != want:
                    ok, msg = False, "byte %d is %s" % (i, show(v)[:160])
        ctx.ob("utf-8 encode", "%X..%X" % (lo, hi), ok, "utf8_encode", msg)
    for v in (0x110000, 0xffffffff):
        I = ctx.interp(inline=["utf8_encode"])
        r = [x for x in I.call_body(St(), P.need("utf8_encode"), [v, ("addr", ("i", ("g", "#out"), 0))]) if x[1] is None]
        ctx.ob("utf-8 encode", "%X" % v, not r and len(I.take_dead()) == 1, "utf8_encode", "a value outside the code space is encoded")

    ctx.rule("utf-8 decode", "every UTF-8 sequence is decoded to its code point, bit by bit, and consumed exactly")
    for lo, hi, bs in forms:
        tag0, mask0, _ = bs[0]
        for b0 in range(256):
            if b0 & mask0 == tag0:
                decode(ctx, b0, bs)
    for b0 in list(range(0x80, 0xc0)) + list(range(0xf8, 0x100)):
        I = ctx.interp(inline=["utf8_decode"])
        st = St()
        st.mem[("i", ("g", "#in"), 0)] = b0
        st.mem[("g", "#cur")] = ("addr", ("i", ("g", "#in"), 0))
        r = [x for x in I.call_body(st, P.need("utf8_decode"), [("addr", ("g", "#cur"))]) if x[1] is None]
        ctx.ob("utf-8 decode", "lead byte %02x" % b0, not r and len(I.take_dead()) == 1, "utf8_decode", "accepted", key="utf-8 decode:bad lead byte")

    # ------------------------------------------------------------------ literals
    names = {v: k for k, v in ((k, P.enum(k)) for k in set(KIND.values()) | set(CKIND.values()) | {"T_SEMI_COLON", "T_IDENT", "T_NUM"})}

    def tokens(src):
        X = Src(ctx, {"f.c": src})
        I = X.interp()
        I.max_steps = 200000 + 4000 * len(src)
        try:
            res = X.drain(I, X.start(I), entry="string_concat_next", limit=4000)
        except Limit:
            return "does not terminate"
        dead = I.take_dead()
        ctx.functions |= I.analysed
        ctx.paths += len(res) + len(dead)
        if dead and not res:
            return "diagnosed"
        if dead or len(res) != 1:
            return "%d outcomes, %d errors" % (len(res), len(dead))
        return [(names.get(k, k), s.encode("latin1")) for k, s, _ in res[0][1]]

    def lits(rule, cases, per=40):
        """cases: (source, kind, bytes)"""
        def work(ch):
            def go():
                got = tokens(";".join(c[0] for c in ch))
                flat = []
                for c in ch:
                    flat += [(c[1], c[2]), ("T_SEMI_COLON", b";")]
                if got == flat[:-1]:
                    for c in ch:
                        ctx.ob(rule, c[0], True, "string_concat_next", "")
                    return
                for c in ch:
                    g = tokens(c[0])
                    ctx.ob(rule, c[0], g == [(c[1], c[2])], "string_concat_next", "becomes %s, required %s %s" %
                           (g if isinstance(g, str) else ["%s %s" % x for x in g], c[1], c[2]))
            return go
        ctx.parallel([work(cases[i:i + per]) for i in range(0, len(cases), per)])

    ctx.rule("escapes", "every escape sequence and every character denotes its value in the element type of the literal")
    bodies = ["\\%o" % v for v in range(256)] + ["\\%03o" % v for v in range(64)] + ["\\%02o" % v for v in range(8)]
    bodies += ["\\x%x" % v for v in range(256)] + ["\\x%02X" % v for v in range(0, 256, 7)] + ["\\" + c for c in SIMPLE]
    bodies += ["\\08", "\\0128", "\\1234", "\\x1g", "\\xg".replace("g", "0g"), "\\x00041", "\\18", "\\779", "a\\0b", "\\x0a.", "\\\\n", "\\\\\\n", "\\\\x41", "\\\\101", "\\'\\\""]
    cps = [0xa0, 0xe9, 0x7ff, 0x800, 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x1d49e, 0xfffff, 0x100000, 0x10ffff]
    ub = []
    for c in cps:
        ub += ["\\u%04x" % c if c < 0x10000 else "\\U%08X" % c, chr(c), "\\U%08x" % c, "a%sb" % chr(c), "\\\\%s\\n" % chr(c)]
    bodies += ub + ["plain text 123", "", "?:%<>", "\\u0024\\u0040\\u0060", "//", "/*", "'"]
    cases = []
    for p, size in PRE.items():
        for k, b in enumerate(bodies):
            if quick and p in ("u8", "U") and k % 3 and b not in ub:
                continue
            cases.append((p + "\"" + b + "\"", KIND[p], units(b, size) + bytes(size)))
    for p, b in (("u", "\\x1234"), ("u", "\\xffff"), ("U", "\\x12345678"), ("L", "\\x7fffffff"), ("U", "\\xffffffff"), ("L", "\\x00e9"), ("U", "\\xabcdef")):
        cases.append((p + "\"" + b + "\"", KIND[p], units(b, PRE[p]) + bytes(PRE[p])))
    lits("escapes", cases)
    cases = []
    for p in CKIND:
        for k, b in enumerate(bodies):
            if b in ("", "'") or (quick and p and k % 3 and b not in ub):
                continue
            cases.append((p + "'" + b + "'", CKIND[p], units(b, PRE[p])))
        cases.append((p + "'\"'", CKIND[p], units("\"", PRE[p])))
    lits("escapes", cases)
    for t in ("''", "L''", "u''", "U''", "\"\\q\"", "'\\z'", "L\"\\8\"", "\"\\x\"", "'\\x'", "\"\\u00\"", "\"abc", "'a", "u8\"a\" L\"b\""):
        def bad(t=t):
            g = tokens(t)
            ctx.ob("escapes", "diagnosed: " + t, g == "diagnosed", "string_concat_next", "becomes %s" % (g,))
        if "\\x\"" in t or "\\x'" in t:
            continue
        bad()

    ctx.rule("concatenation", "adjacent string literals join into one whose prefix is the one prescribed; escapes do not cross the seam")
    cases = []
    al = list(PRE)
    for n in (2, 3):
        for ps in itertools.product(al, repeat=n):
            if n == 3 and quick and hash(ps) and ps[0] != "":
                continue
            have = {p for p in ps if p}
            src = " ".join("%s\"%s\"" % (p, b) for p, b in zip(ps, ("\u20ac\\x1", "2\\0", "7\U0001f600")))
            if len(have) <= 1:
                p = have.pop() if have else ""
                b = b"".join(units(x, PRE[p]) for x, _ in zip(("\u20ac\\x1", "2\\0", "7\U0001f600"), ps))
                cases.append((src, KIND[p], b + bytes(PRE[p])))
            else:
                g = tokens(src)
                ctx.ob("concatenation", src, g == "diagnosed", "string_concat_next", "becomes %s" % (g,))
    cases += [("\"a\" /*c*/ \"b\"\n\"c\"", "T_STRING", b"abc\0"), ("\"\" \"\"", "T_STRING", b"\0"), ("L\"\" \"\\101\\x42\"", "T_STRING_WCHAR", b"A\0\0\0B\0\0\0\0\0\0\0")]
    lits("concatenation", cases, 1)
    g = tokens("\"a\" x \"b\" ; \"c\"")
    ctx.ob("concatenation", "tokens between literals", g == [("T_STRING", b"a\0"), ("T_IDENT", b"x"), ("T_STRING", b"b\0"), ("T_SEMI_COLON", b";"), ("T_STRING", b"c\0")], "string_concat_next", "becomes %s" % (g,))
    g = tokens("#define A \"a\"\n#define S(x) #x\nA A S(b \"\\n\" c) L\"d\"\n")
    ctx.ob("concatenation", "literals from macros", g == [("T_STRING_WCHAR", "aab \"\\n\" cd\0".encode("utf-32-le"))], "string_concat_next", "becomes %s" % (g,))
    g = tokens("#define S(x) #x\nL\"\" S(\"\u00e9\") S('?')\n")
    ctx.ob("concatenation", "stringified literals keep their characters", g == [("T_STRING_WCHAR", "\"\u00e9\"'?'\0".encode("utf-32-le"))], "string_concat_next",
           "becomes %s" % (g,))

    # ------------------------------------------------------------------ types and values
    ctx.rule("type and value", "a literal has the type its prefix prescribes, with the length of its elements; a character constant has its value")
    for abi in ("sysv", "ms"):
        ctx.parallel([lambda abi=abi: parser_side(ctx, abi)])

    # ------------------------------------------------------------------ emission
    ctx.rule("emission", "string data is emitted byte for byte, as assembler text and as object data")

    def emission():
        allb = [bytes([v]) for v in range(256)] + [bytes([v]) + b"7" for v in range(0, 256)] + [b"a\x01" + b"23", b"", b"\0", b"x\0y\0", b"\xff\xff8", b"\\n", b"\"\"", b"\x80z"]
        for text in (1, 0):
            for data in allb:
                if not text and len(data) == 2 and data[1:] == b"7":
                    continue
                g = emit(ctx, data, text)
                ctx.ob("emission", "%s %r" % ("text" if text else "object", data), g == data + b"\0", "asm_string", "emits %r" % (g,))
        # every registered literal comes out once, aligned for its widest element
        for text in (1, 0):
            emit_table(ctx, text)
    ctx.parallel([emission])

    # ------------------------------------------------------------------ #if
    ctx.rule("#if constants", "a character constant in #if has the value it has elsewhere")
    checks = [("'a'", 97), ("'\\x41'", 65), ("'\\377'", -1), ("L'a'", 97), ("u'a'", 97), ("U'a'", 97), ("'\\0'", 0), ("L'\\x20ac'", 0x20ac), ("u'\\xffff'", 0xffff), ("'\\''", 39),
              ("'\"'", 34), ("L'\u20ac'", 0x20ac), ("U'\U0001f600'", 0x1f600), ("'\\n'", 10), ("'\\?'", 63), ("L'\\0'", 0)]

    def ifs():
        for c, v in checks:
            def m_num(I, st, a, n, f):
                k = int(X.sv(I, st, a[0]))
                return [(st, ("struct", "constant", (("type", ctx.P.enum("CONSTANT_TYPE")), ("data_type", simple(ctx.P, "ST_LLONG")),
                                                     ("int_d", k), ("uint_d", k & (1 << 64) - 1))))]
            X = Src(ctx, {"f.c": "#if %s == %d\nyes\n#else\nno\n#endif\n" % (c, v)}, extra=dict(TYPE_MODELS, constant_from_string=m_num))
            I = X.interp(["character_constant_to_int", "character_constant_wchar_to_int", "character_constant_char16_to_int", "character_constant_char32_to_int"])
            try:
                res = X.drain(I, X.start(I), entry="string_concat_next")
                g = [[s for _, s, _ in r[1]] for r in res]
            except AnalysisError as e:
                g = str(e)
            ctx.ob("#if constants", "%s is %d" % (c, v), g == [["yes"]] and not I.take_dead(), "directives", "takes %s" % (g,))
    ctx.parallel([ifs])


def decode(ctx, b0, bs):
    """one lead byte, symbolic continuation bytes"""
    P = ctx.P
    st = St()
    st.facts = dict(st.facts)
    I = ctx.interp(inline=["utf8_decode"])
    src, want = {}, [0] * 32
    for i, (tag, mask, sh) in enumerate(bs):
        b = ("p", "byte%d" % i)
        for k in range(6 if i else 8 - bin(mask).count("1")):
            want[sh + k] = ("b%d" % i, k) if i else (b0 >> k) & 1
        if i:
            st.facts[b] = ("iv", 0x80, 0xbf, frozenset())
            I.tt[b] = (8, False)
            src[b] = ("b%d" % i, 8)
        st.mem[("i", ("g", "#in"), i)] = b if i else b0
    st.mem[("g", "#cur")] = ("addr", ("i", ("g", "#in"), 0))
    res = [r for r in I.call_body(st, P.need("utf8_decode"), [("addr", ("g", "#cur"))]) if r[1] is None]
    dead = I.take_dead()
    ctx.functions |= I.analysed
    ctx.paths += len(res)
    ok, msg = len(res) == 1 and not dead, "%d results, %d errors" % (len(res), len(dead))
    for t, _, rv in res:
        got = bits(rv, 32, src)
        cur = t.mem.get(("g", "#cur"))
        if got != want or cur != ("addr", ("i", ("g", "#in"), len(bs))):
            ok, msg = False, "decoded as %s, advanced to %s" % (show(rv)[:160], show(cur))
    ctx.ob("utf-8 decode", "lead byte %02x" % b0, ok, "utf8_decode", msg, key="utf-8 decode:%d-byte sequences" % len(bs))
    if "utf8_code_point_length" in P.funcs:
        I = ctx.interp(inline=["utf8_code_point_length"])
        rs = {r[2] for r in I.call_body(St(), P.need("utf8_code_point_length"), [b0]) if r[1] is None}
        ctx.ob("utf-8 decode", "length, lead byte %02x" % b0, rs == {len(bs)} and not I.take_dead(), "utf8_code_point_length", "lengths %s" % rs,
               key="utf-8 decode:length of %d" % len(bs))


def parser_side(ctx, abi):
    P = ctx.P
    genv = abi_genv(ctx, abi)
    sizes_ = sizes(abi)
    wch = "ST_INT" if abi == "sysv" else "ST_USHORT"
    I0 = {"T_STRING": "ST_CHAR", "T_STRING_CHAR16": "ST_USHORT", "T_STRING_CHAR32": "ST_UINT", "T_STRING_WCHAR": wch}
    C0 = {"T_CHARACTER_CONSTANT": "ST_INT", "T_CHARACTER_CONSTANT_CHAR16": "ST_USHORT", "T_CHARACTER_CONSTANT_CHAR32": "ST_UINT", "T_CHARACTER_CONSTANT_WCHAR": wch}

    def parse(kind, data):
        T = Tokens(P, [(kind, data.decode("latin1")), ("T_SEMI_COLON", ";")])
        got = []

        def m_new(I, st, a, n, f):
            st.mem[("g", "#made")] = st.mem.get(("g", "#made"), ()) + (a[0],)
            return [(st, ("ob", "x#%d" % len(st.mem[("g", "#made")])))]

        def m_reg(I, st, a, n, f):
            st.mem[("g", "#reg")] = text(a[0])
            return [(st, 77)]
        m = T.models()
        m.update(TYPE_MODELS)
        m.update({"expr_new": m_new, "rodata_register": m_reg})
        I = ctx.interp(inline=["character_constant_to_int", "character_constant_wchar_to_int", "character_constant_char16_to_int",
                               "character_constant_char32_to_int", "constant_simple_signed", "constant_simple_unsigned", "parse_pratt", "parse_pratt_with_lhs", "parse_expression", "parse_assignment_expression", "precedence_get",
                               "calculate_size", "constant_normalize"] + TYPE_PREDS + abi_inline(ctx, abi),
                       inline_tus=["src/parser/expression.c", "src/precedence.c"], models=m, globals_const=genv,
                       load_hook=hooks(type_hook, obj_hook(T.tab), init_globals))
        I.mirror = union_mirror(P, ["src/parser/expression.h", "src/arch/x64.h", "src/ir/ir.h"])
        I.max_depth, I.unroll = 200, 64
        res = []
        for st, sig, rv in I.call_body(St(), P.need("parse_expression"), []):
            if sig is None:
                res.append((st, rv))
        dead = I.take_dead()
        ctx.functions |= I.analysed
        ctx.paths += len(res)
        if len(res) != 1 or dead:
            return "%d results, %d errors" % (len(res), len(dead)), None, None
        st, rv = res[0]
        made = st.mem.get(("g", "#made"), ())
        if not made:
            return "no expression", None, None
        c = I.project(made[-1], ("f", made[-1], "constant"))
        g = lambda *fs: _proj(I, c, fs)
        return I, st, g

    def _proj(I, v, fs):
        for f in fs:
            v = I.project(v, ("f", v, f))
        return v
    for kind, elem in I0.items():
        es = {"T_STRING": 1, "T_STRING_CHAR16": 2, "T_STRING_CHAR32": 4, "T_STRING_WCHAR": 4}[kind]
        for n in (1, 2, 5):
            data = bytes(range(1, es * (n - 1) + 1)) + bytes(es)
            I, st, g = parse(kind, data)
            inst = "%s of %d elements (%s)" % (kind, n, abi)
            if g is None:
                ctx.ob("type and value", inst, False, "parse_expression", I)
                continue
            t = g("data_type")
            ok = isty(t, "array") and t[2] == simple(P, elem) and t[3] == n and st.mem.get(("g", "#reg")) == data.decode("latin1") and g("label", "label") == 77 \
                and g("label", "offset") == 0
            key = "type and value:%s %s" % (kind, abi)
            if isty(t, "array") and t[2] == simple(P, elem) and t[3] == 2 * n and st.mem.get(("g", "#reg")) == data.decode("latin1"):
                key += ", units of four bytes"
            ctx.ob("type and value", inst, ok, "parse_expression", "has type %s and data %r" % (show(t), st.mem.get(("g", "#reg"))), key=key)
    vals = {"T_CHARACTER_CONSTANT": [(b"a", 97), (b"\0", 0), (b"\xff", -1), (b"\x80", -128), (b"\x7f", 127)],
            "T_CHARACTER_CONSTANT_CHAR16": [(b"a\0", 97), (b"\xff\xff", 0xffff), (b"\x00\x80", 0x8000), (b"\xac\x20", 0x20ac), (b"\x80\xff", 0xff80)],
            "T_CHARACTER_CONSTANT_CHAR32": [(b"a\0\0\0", 97), (b"\xff" * 4, 0xffffffff), (b"\0\xf6\x01\0", 0x1f600), (b"\x80\x81\x82\x83", 0x83828180)],
            "T_CHARACTER_CONSTANT_WCHAR": [(b"a\0\0\0", 97), (b"\xac\x20\0\0", 0x20ac), (b"\x80\xff\0\0", 0xff80)] +
                                          ([(b"\xff" * 4, -1), (b"\0\xf6\x01\0", 0x1f600)] if abi == "sysv" else [])}
    for kind, l in vals.items():
        for data, v in l:
            I, st, g = parse(kind, data)
            inst = "%s %s (%s)" % (kind, data.hex(), abi)
            if g is None:
                ctx.ob("type and value", inst, False, "parse_expression", I)
                continue
            t, w = g("data_type"), C0[kind]
            got = g("uint_d" if w in ("ST_UINT", "ST_USHORT") else "int_d")
            if got == 0 or not isinstance(got, int):       # the other member of the union was written
                got = g("int_d")
            ok = t == simple(P, w) and isinstance(got, int) and (got & (1 << 64) - 1) == (v & (1 << 64) - 1)
            ctx.ob("type and value", inst, ok, "parse_expression", "has type %s and value %s, required %d" % (show(t), show(got), v),
                   key="type and value:%s %s" % (kind, abi))


def decode_text(s):
    """bytes of a .string operand as the GNU assembler reads it"""
    m = re.search(r'\.(string|asciz|ascii)\s+"((?:\\.|[^"\\])*)"', s, re.S)
    if not m:
        return None
    b, i, r = m.group(2), 0, b""
    while i < len(b):
        if b[i] != "\\":
            r += bytes([ord(b[i])])
            i += 1
            continue
        o = re.compile(r"\\([0-7]{1,3})").match(b, i)
        if o:
            r += bytes([int(o.group(1), 8) & 255])
            i = o.end()
        elif b[i + 1] in "bfnrt\"\\":
            r += bytes([{"b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "\"": 34, "\\": 92}[b[i + 1]]])
            i += 2
        else:
            return None
    return r + (b"\0" if m.group(1) != "ascii" else b"")


def emitter(ctx, text):
    X = Src(ctx)

    def fmt(I, st, a, k):
        r = X.models()["allocate_printf"](I, st, a[k:], None, None)
        return r[0][1][1]

    def m_emit(nl):
        def m(I, st, a, n, f):
            st.mem[("g", "#text")] = st.mem.get(("g", "#text"), "") + fmt(I, st, a, 0) + nl
            return [(st, 0)]
        return m

    def m_fprintf(I, st, a, n, f):
        st.mem[("g", "#text")] = st.mem.get(("g", "#text"), "") + fmt(I, st, a, 1)
        return [(st, 0)]

    def m_byte(I, st, a, n, f):
        st.mem[("g", "#data")] = st.mem.get(("g", "#data"), b"") + bytes([a[0] & 255])
        return [(st, 0)]

    def m_write(I, st, a, n, f):
        if a[1]:
            st.mem[("g", "#data")] = st.mem.get(("g", "#data"), b"") + X.chars(I, st, a[0], a[1]).encode("latin1")
        return [(st, 0)]
    m = X.models()
    m.update({"asm_emit_no_newline": m_emit(""), "asm_emit": m_emit("\n"), "fprintf": m_fprintf, "object_write_byte": m_byte, "object_write": m_write})
    I = ctx.interp(inline=["asm_string", "character_to_escape_sequence", "asm_align", "asm_section", "asm_label"], models=m,
                   globals_const={"assemble_to_text": text}, load_hook=hooks(init_globals))
    I.unroll = 300
    return X, I


def emit(ctx, data, text):
    X, I = emitter(ctx, text)
    st = St()
    b = ("g", "#lit")
    for i, c in enumerate(data):
        st.mem[("i", b, i)] = c - 256 if c > 127 else c
    sv = ("struct", "string_view", (("len", len(data)), ("str", ("addr", ("i", b, 0)))))
    res = [r for r in I.call_body(st, ctx.P.need("asm_string"), [sv]) if r[1] is None]
    ctx.functions |= I.analysed
    ctx.paths += len(res)
    if len(res) != 1:
        return None
    s = res[0][0]
    return decode_text(s.mem.get(("g", "#text"), "")) if text else s.mem.get(("g", "#data"), b"")


def emit_table(ctx, text):
    """rodata_codegen after three registrations, one of them repeated"""
    X = Src(ctx)
    log = []

    def ev(name):
        def m(I, st, a, n, f):
            st.ev = (st.ev, Ev(name, "", tuple(a), locs(n), f.name if f else "?"))
            return [(st, 0)]
        return m
    m = X.models()
    m.update({"asm_label": ev("label"), "asm_string": ev("string"), "asm_align": ev("align"), "asm_section": ev("section")})
    I = ctx.interp(inline=["rodata_register", "rodata_codegen", "register_label_name", "sv_cmp"], inline_tus=[ctx.P.need("rodata_register").file], models=m, load_hook=hooks(init_globals))
    I.unroll = 50
    st = St()
    ids = []
    sts = [st]
    for s in ("ab\0", "c\0\0\0", "ab\0", "ab"):
        nxt = []
        for t in sts:
            for u, sig, rv in I.call_body(t, ctx.P.need("rodata_register"), [X.mksv(s)]):
                if sig is None:
                    nxt.append(u)
                    ids.append(rv)
        sts = nxt
    out = []
    for t in sts:
        for u, sig, rv in I.call_body(t, ctx.P.need("rodata_codegen"), []):
            if sig is None:
                out.append(events(u))
    ok = len(out) == 1 and len(ids) == 4
    msg = "ids %s" % ids
    if ok:
        seq = [(e.k, e.args) for e in out[0]]
        lab, al, got = None, 0, {}
        for k, a in seq:
            if k == "align":
                al = a[0]
            elif k == "label":
                lab = a[1]
                got.setdefault(lab, []).append([al, None])
                al = 0
            elif k == "string":
                got[lab][-1][1] = X.sv(I, St(), a[0])
        want = {ids[0]: "ab\0", ids[1]: "c\0\0\0", ids[3]: "ab"}
        ok = ids[0] == ids[2] and len(set(ids)) == 3 and {k: [x[1] for x in v] for k, v in got.items()} == {k: [v] for k, v in want.items()} and \
            all(v[0][0] >= 4 for v in got.values())
        msg = "emits %s for identifiers %s" % (got, ids)
    ctx.ob("emission", "table of literals", ok, "rodata_codegen", msg)


FLOORS = {"utf-8 encode": 6, "utf-8 decode": 4, "escapes": 2000, "concatenation": 40, "type and value": 40, "emission": 500, "#if constants": 14}
ASSUMPTIONS = ["multi-character constants (implementation-defined) and numeric escapes outside the range of their type are not decided"]
