"""Translation phases 2 and 3: the tokenizer evaluated on every short string over its character classes."""
from lib import *
from lib_pp import *
from absint import Limit
import itertools, re

EXPLANATION = ("The tokenizer is evaluated on all strings of bounded length over the characters that can take part in each kind of token: "
               "punctuators (all pairs, all triples of the characters that combine, all quadruples that can matter), identifiers and "
               "preprocessing numbers (all triples of their character classes after every kind of start), literal prefixes, comments "
               "(all strings over / * newline and text), line splices at every position of every kind of token, and every truncation "
               "of a text that contains all of them. Kind, spelling, line and white-space flags of each token must be those of an "
               "independent implementation of the standard's phases 2 and 3; nothing may be read behind the end of the text.")

PUN = ["...", "<<=", ">>=", "%:%:", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=",
       "|=", "##", "<:", ":>", "<%", "%>", "%:", "[", "]", "(", ")", "{", "}", ".", "&", "*", "+", "-", "~", "!", "/", "%", "<", ">", "^",
       "|", "?", ":", ";", "=", ",", "#"]
DIG = {"<:": "[", ":>": "]", "<%": "{", "%>": "}", "%:": "#", "%:%:": "##"}
UCN = r"\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8}"
TOK = re.compile(r"(?P<str>(?:u8|u|U|L)?\"(?:\\.|[^\"\\\n])*\")|(?P<chr>[uUL]?'(?:\\.|[^'\\\n])*')|"
                 r"(?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.$\x80-\xff])*)|"
                 r"(?P<id>(?:[A-Za-z_$\x80-\xff]|" + UCN + r")(?:[0-9A-Za-z_$\x80-\xff]|" + UCN + r")*)|"
                 r"(?P<p>" + "|".join(re.escape(p) for p in PUN) + r")")


class Bad(Exception):
    pass


def ref(s):
    """phases 2 and 3 on a latin-1 decoded byte string"""
    if s.startswith("\xef\xbb\xbf"):
        s = s[3:]
    # phase 2
    t, ln, line, i = "", [], 1, 0
    while i < len(s):
        m = re.compile(r"\\\r?\n").match(s, i)
        if m:
            line += 1
            i = m.end()
            continue
        t += s[i]
        ln.append(line)
        line += s[i] == "\n"
        i += 1
    ln.append(line)
    out, i, ws, fl, hdr, dirv = [], 0, 1, 1, False, False
    while i < len(t):
        c = t[i]
        if c == "\n":
            ws = fl = 1
            hdr = dirv = False
            i += 1
        elif c in " \t\v\f\r":
            ws = 1
            i += 1
        elif t.startswith("/*", i):
            j = t.find("*/", i + 2)
            if j < 0:
                raise Bad()
            i, ws = j + 2, 1
        elif t.startswith("//", i):
            j = t.find("\n", i)
            i, ws = (len(t) if j < 0 else j), 1
        else:
            if hdr and c == "<":
                m = re.compile(r"<[^>\n]*>").match(t, i)
                if not m:
                    raise Bad()
                k, e = "PP_HEADER_NAME_H", m.end()
            else:
                m = TOK.match(t, i)
                if m is None:
                    if re.match(r"\\[uU]", t[i:]):
                        raise Bad()     # not a universal character name: undefined
                    if c in "\"'":
                        raise Bad()
                    k, e = "PP_OTHER", i + 1
                else:
                    g, e = m.lastgroup, m.end()
                    k = {"str": "T_STRING", "chr": "T_CHARACTER_CONSTANT", "num": "T_NUM", "id": "T_IDENT"}.get(g)
                    if k is None:
                        k = PUNCT[DIG.get(m.group(), m.group())]
            sp = t[i:e]
            if k == "PP_HASH" and fl:
                k, dirv = "PP_DIRECTIVE", True
            elif dirv and k == "T_IDENT":
                hdr, dirv = sp == "include", False
            if k in ("T_IDENT", "T_STRING", "T_CHARACTER_CONSTANT"):
                for m in re.finditer(UCN + r"|\\.", sp):
                    if m.group()[1] in "uU":
                        v = int(m.group()[2:], 16) if len(m.group()) > 2 else -1
                        if v < 0xa0 and v not in (0x24, 0x40, 0x60) or 0xd800 <= v < 0xe000 or v > 0x10ffff:
                            raise Bad()
                if k == "T_IDENT":
                    sp = re.sub(UCN, lambda m: chr(int(m.group()[2:], 16)).encode().decode("latin1"), sp)
                else:
                    sp = re.sub(UCN + r"|\\.", lambda m: chr(int(m.group()[2:], 16)).encode().decode("latin1") if m.group()[1] in "uU" else m.group(), sp)
            out.append((k, sp, ws, fl, ln[i]))
            ws = fl = 0
            i = e
    return out


def run(ctx):
    P = ctx.P
    quick = ctx.tier == "quick"
    X = Src(ctx)
    over = []

    def hook(I, st, loc):
        if loc[0] == "i" and loc[1][0] == "g" and str(loc[1][1]).startswith("#heap") and isinstance(loc[2], int) and loc[1] in over:
            raise Limit("read behind the end of the text")
        return None

    class S2(Src):
        def zero(self, I, st, loc):
            if loc[0] == "i" and loc[1] == ("g", "#heap1"):
                raise Limit("reads behind the end of the text")
            return None

        def buf(self, st, data):
            b = self.new(st)
            for i, c in enumerate(data + b"\0"):
                st.mem[("i", b, i)] = c - 256 if c > 127 else c
            return ("addr", ("i", b, 0))
    X = S2(ctx)
    kinds = {v: k for k, v in ((k, P.enum(k)) for k in set(list(PUNCT.values()) + ["T_IDENT", "T_NUM", "T_STRING", "T_CHARACTER_CONSTANT",
             "PP_HEADER_NAME_H", "PP_DIRECTIVE"]))}

    def evaluate(s):
        """-> list of tuples | 'diagnosed' | text describing a failure"""
        I = X.interp()
        I.max_steps = 60000 + 3000 * len(s)
        try:
            r = X.tokens(I, s.encode("latin1"))
        except Limit as e:
            return str(e) if "behind" in str(e) else "does not terminate"
        dead = I.take_dead()
        ctx.paths += len(r) + len(dead)
        ctx.functions |= I.analysed
        if dead and not r:
            return "diagnosed"
        if len(r) != 1 or dead:
            return "%d outcomes, %d diagnostics" % (len(r), len(dead))
        return [(kinds.get(d["k"], "PP_OTHER"), d["s"], int(d["ws"] != 0), int(d["fl"] != 0), d["line"]) for d in r[0][1]]

    def want(s):
        try:
            return ref(s)
        except Bad:
            return "diagnosed"

    def group(rule, texts, per=60):
        """texts that are all well formed, evaluated many at a time on lines of their own"""
        texts = list(dict.fromkeys(texts))
        chunks = [texts[i:i + per] for i in range(0, len(texts), per)]

        def work(ch):
            def go():
                src = "".join(t + "\n" for t in ch)
                got = evaluate(src)
                if got == want(src):
                    for t in ch:
                        ctx.ob(rule, repr(t), True, "tokenize_input", "")
                    return
                for t in ch:
                    one(rule, t)
            return go
        ctx.parallel([work(c) for c in chunks])

    def one(rule, t):
        g, w = evaluate(t), want(t)
        ctx.ob(rule, repr(t), g == w, "tokenize_input", "%s, required %s" % (brief(g), brief(w)))

    def each(rule, texts, per=25):
        texts = list(dict.fromkeys(texts))

        def work(ch):
            return lambda: [one(rule, t) for t in ch]
        ctx.parallel([work(texts[i:i + per]) for i in range(0, len(texts), per)])

    def brief(x):
        return x if isinstance(x, str) else " ".join("%s:%s%s%s@%d" % (k, s, "" if w else "_", "^" if f else "", l) for k, s, w, f, l in x)[:200]

    def good(t):
        try:
            ref(t + "\n")
            return "/*" not in t
        except Bad:
            return False

    # ------------------------------------------------------------------ punctuators
    ctx.rule("punctuators", "adjacent punctuation characters form the longest tokens possible, digraphs included")
    pc = "<>=-+&|%:.#!*/^~?,;()[]{}"
    comb = "<>=-+&|%:.#!*/^"
    texts = [a for a in pc] + [a + b for a in pc for b in pc] + ["".join(t) for t in itertools.product(comb if not quick else "<>=-&%:.#/", repeat=3)]
    texts += ["".join(t) for t in itertools.product("%:<" if quick else "%:<>=.", repeat=4)] + ["." * n for n in range(1, 8)] + \
             ["".join(t) for t in itertools.product(".1", repeat=4)] + ["".join(t) for t in itertools.product("%:", repeat=5)]
    texts += [a + p + b for a in ("a", "1", ")") for b in ("a", "1", "\"s\"") for p in PUN]
    texts += [p + c for p in PUN if len(p) > 1 for c in pc] + [p + q for p in PUN for q in PUN if len(p) == 3 or len(p) == 2 and len(q) == 2]
    group("punctuators", ["x " + t for t in texts if good(t)])
    group("punctuators", [t for t in texts[:len(pc) * (len(pc) + 1)] if good(t)])

    # ------------------------------------------------------------------ identifiers and numbers
    ctx.rule("words", "identifiers and preprocessing numbers extend as far as their characters go")
    cls = ["1", "8", ".", "e", "p", "+", "-", "a", "u", "L", "_"] + ([] if quick else ["E", "P", "U", "x", "$", "\xc3\xa9", "9", "0"])
    texts = ["".join(t) for n in (1, 2, 3) for t in itertools.product(cls, repeat=n)]
    texts += ["".join(t) for t in itertools.product(["1", "e", "+", "."], repeat=4)]
    texts += [c for c in map(chr, range(33, 127)) if c not in "\"'"] + ["a" + chr(c) + "b" for c in range(33, 256) if chr(c) not in "\"'"] + \
             ["1" + chr(c) + "b" for c in range(33, 127) if chr(c) not in "\"'\\"]
    texts += [x + chr(c) + y for c in range(33, 127) for x in ("1", ".5", "a") for y in ("+1", "-b") if chr(c) not in "\"'\\"]
    texts += ["0x1p-3", "1e+", "1E+5.e-x", "0x1.8p+1f", "1.2.3", ".5.", "1..2", "0xe+1", "1u+1", "u8x", "u81", "L1", "u8_\"s\"", "\\u00e9", "a\\u00e9b",
              "a\\U0001F600", "\\u00e9\\u00ea1", "\xc3\xa9\xe2\x82\xac", "a\\", "\\", "a\\b", "1\\", "@", "`", "a@b", "\\u00e9\"s\""]
    group("words", [t for t in texts if good(t)])

    # ------------------------------------------------------------------ literals
    ctx.rule("literals", "string and character literals with their prefixes end at the first unescaped quote, and a missing quote is diagnosed")
    pre = ["", "u", "U", "L", "u8", "u8u", "a", "l", "U8", "LL", "uL", "_L", "Lu"]
    bodies = ["", "a", "ab c", "\\\"", "\\'", "\\\\", "\\\\\\\"", "a\\nb", "//", "/*x*/", "\\x41", "\\101", "'", "\"", "\\u00e9", "\\\\u0041", "\\u00e9\\\\u0041",
              "\\U0001F600\\\\", "\xc3\xa9", "?:%", "#", "<", "\\u0024", "\t"]
    texts = []
    for p in pre:
        for b in bodies:
            for q in "\"'":
                texts.append(p + q + b + q + "z")
                if p in ("", "L", "u8"):
                    texts.append(p + q + b + q + p + q + b + q)
    each("literals", texts, 40)
    each("literals", ["x " + p + q + b for p in ("", "L", "u8", "u") for q in "\"'" for b in ("", "a", "\\" + q, "a\n", "\\", "\\\\", "a\\" + q + "\n" + q)])

    each("literals", ["x " + q + p + u + q + y for u in ("\\u0041", "\\ud800", "\\udfff", "\\ud7ff", "\\ue000", "\\U00110000", "\\U0010ffff", "\\u009f", "\\u00a0",
                      "\\u0040", "\\u0060", "\\u0023", "\\u00E9", "\\u12", "\\U0001f60", "\\u12G4") for q in "\"'" for p in ("", "a") for y in ("", "z")])
    each("literals", ["a" + u for u in ("\\ud800", "\\U00110000", "\\uE9aFz")])
    g = evaluate("1'0 \"it's\" 'a' i's'")
    ctx.ob("literals", "literals after a digit separator", [t[1] for t in g[1:]] == ["\"it's\"", "'a'", "i", "'s'"] if isinstance(g, list) else False,
           "tokenize_input", brief(g))

    # ------------------------------------------------------------------ comments
    ctx.rule("comments", "a comment is one space; comments do not nest, do not start inside literals and must end")
    texts = ["a/*" + "".join(t) for n in range(0, 5) for t in itertools.product("*/x" if quick else "*/x\n", repeat=n)]
    texts += ["a/*" + t + "*/b" for t in ("", "*", "**", "***", "/", "//", "/*", "*/*", "\n", "\n\n*", "\"", "'", "* /", "\\", "x\ny\n")]
    texts += ["a//" + t for t in ("", "x", "\nb", "*\nb", "/\nb", "\\\nx\nb", "/*\nb*/", "\"\nb", "'\nb", "\\x\nb")]
    texts += ["a/ /b", "a/**/b", "a/**/\nb", "/**/#x", "#/**/define/**/x", "a\n/**/ b", "/*\n*/a", "\"/*\"x\"*/\"", "'//'a", "a/*/b*/c", "//*\na*/b", "a//**/b\nc"]
    each("comments", texts)

    # ------------------------------------------------------------------ line splices
    ctx.rule("splices", "a backslash before the end of the line joins lines anywhere, inside every kind of token")
    toks = ["abc", "123", "1e+5", "...", "<<=", "%:%:", "\"ab\"", "'a'", "u8\"x\"", "L'x'", "->", "/*x*/", "//x", "a\\u00e9", "\"\\n\"", ".5", "++", "#", "\"\\u00e9\"",
            "##", "\"\\\\\\u00e9\"", "%:"]
    texts = []
    for nl in ("\\\n", "\\\r\n"):
        for t in toks:
            for i in range(len(t) + 1):
                texts.append("x " + t[:i] + nl + t[i:] + " y\nz")
            texts.append(nl.join(t) + " y\nz")
            texts.append(t[0] + nl + nl + t[1:] + "\nz")
    each("splices", texts)

    # ------------------------------------------------------------------ white space, lines, headers
    ctx.rule("layout", "every token knows its line and whether white space or a new line came before it; directives and header names are "
             "recognised only where they can occur")
    texts = ["a" + w + "b" for n in (0, 1, 2, 3) for w in map("".join, itertools.product(" \t\n\r\v\f", repeat=n)) if n < 3 or not quick]
    texts += ["\xef\xbb\xbfa", "\xef\xbb\xbf#x", "\xef\xbba", "", "\n", " ", "\n\n a", "a ", "a\n", "# include <a b>\n<a>", "#include <a>\n#include <b>", "#include <x.h> <y>", "#include M <y>",
              "#define include <a>", "include <a>", "x #include <a>", "%:include <a//b>", "#include <a/*b>", "#include \"a\"", "#include <a", "#include <a\n>",
              "#if a <b> c", "a\r\nb\r\n", "#\ninclude <a>", "#\\\ninclude <a>", "#/**/include/**/<a>", "# define x\n  # y\nz #w", "#include\n<a>", "#include_next <a>",
              "#include <a>>", "#include <sys/a-b.h>"]
    each("layout", texts)
    whole = ("#include <a.h>\nint a\\u00e9 = 0x1e+3 /* c ** */ + L\"w\\\\\\\"\" 'c' ... %:%: <<= \\\n .. u8\"s\" // e\n x ->y\\\r\n;")
    ctx.rule("truncation", "every prefix of a text is handled without reading behind its end")
    for i in range(len(whole) + 1):
        pass
    each("truncation", [whole[:i] for i in range(len(whole) + 1)], 10)

    # ------------------------------------------------------------------ keywords
    ctx.rule("keywords", "exactly the keywords of C11 are keywords, in every position, and only after macro expansion")
    KW = ("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short "
          "signed sizeof static struct switch typedef union unsigned void volatile while _Alignas _Alignof _Bool _Complex _Generic _Imaginary "
          "_Noreturn _Static_assert _Thread_local _Atomic").split()

    def keywords():
        eoi = {}
        for w in KW + [k[:-1] for k in KW] + [k + "x" for k in KW] + [k.capitalize() for k in KW] + ["asm_", "define", "elif", "main", "include"]:
            Y = Src(ctx, {"f.c": "(" + w + ")"})
            I = Y.interp()
            res = Y.drain(I, Y.start(I), entry="string_concat_next")
            I.take_dead()
            ks = [r[1][1][0] for r in res if len(r[1]) == 3]
            eoi[w] = ks[0] if len(ks) == 1 else None
        seen = {}
        T = {"restrict": "T_KRESTRICT"}
        for w, k in eoi.items():
            kw = w in KW
            if w in ("_Complex", "_Imaginary", "_Atomic"):
                continue      # optional features
            if kw:
                e = P.enum("T_K" + w.lstrip("_").upper().replace("_", "")) if "T_K" + w.lstrip("_").upper().replace("_", "") in P.enums else None
                ctx.ob("keywords", w, k is not None and k != P.enum("T_IDENT") and k not in seen and (e is None or e == k), "string_concat_next",
                       "%s is token kind %s" % (w, k))
                seen[k] = w
            else:
                ctx.ob("keywords", w, k == P.enum("T_IDENT"), "string_concat_next", "%s is token kind %s, required an identifier" % (w, k))
    ctx.parallel([keywords])


FLOORS = {"punctuators": 1000, "words": 1200, "literals": 600, "comments": 100, "splices": 200, "layout": 60, "truncation": 100, "keywords": 100}
ASSUMPTIONS = ["trigraphs, universal characters inside preprocessing numbers and ' as a digit separator (an extension) are not decided"]
