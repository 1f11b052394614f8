"""A translation unit through the front end: the source of the parser, the symbol tables, the types and the intermediate representation
evaluated abstractly on a sequence of tokens. Nothing of it is replaced by a model but allocation, string functions and the token source."""
from absint import show, Ev, St
from front import AnalysisError, locs
from lib import *
from lib_asm import cformat, Wrong
import re
from lib_obj import Heap
from lib_pp import union_mirror
from lib_tok import Tokens, text, init_globals

NOT = ("preprocessor_init", "tokenizer_next", "t_peek", "directiver_next", "input_open", "dbg_type", "main", "arguments_parse", "elf_write_object", "coff_write_object", "linker_link")


KINDS = {"auto": "T_KAUTO", "const": "T_KCONST", "double": "T_KDOUBLE", "float": "T_KFLOAT", "int": "T_KINT", "short": "T_KSHORT", "_Bool": "T_KBOOL", "_Complex":
         "T_KCOMPLEX", "struct": "T_KSTRUCT", "unsigned": "T_KUNSIGNED", "break": "T_KBREAK", "continue": "T_KCONTINUE", "else": "T_KELSE", "for": "T_KFOR", "long": "T_KLONG",
         "signed": "T_KSIGNED", "switch": "T_KSWITCH", "void": "T_KVOID", "case": "T_KCASE", "default": "T_KDEFAULT", "enum": "T_KENUM", "goto": "T_KGOTO", "register":
         "T_KREGISTER", "sizeof": "T_KSIZEOF", "typedef": "T_KTYPEDEF", "volatile": "T_KVOLATILE", "char": "T_KCHAR", "do": "T_KDO", "extern": "T_KEXTERN", "if": "T_KIF",
         "return": "T_KRETURN", "static": "T_KSTATIC", "_Thread_local": "T_KTHREAD_LOCAL", "_Atomic": "T_KATOMIC", "restrict": "T_KRESTRICT", "union": "T_KUNION", "while":
         "T_KWHILE", "_Noreturn": "T_KNORETURN", "inline": "T_KINLINE", "_Alignas": "T_KALIGNAS", "_Alignof": "T_KALIGNOF", "_Static_assert": "T_KSTATIC_ASSERT", "_Generic":
         "T_KGENERIC", "__builtin_va_start": "T_KVA_START", "__builtin_va_end": "T_KVA_END", "__builtin_va_arg": "T_KVA_ARG", "__builtin_va_copy": "T_KVA_COPY",
         "__builtin_offsetof": "T_KOFFSETOF", "__func__": "T_KFUNC", "__attribute__": "T_KATTRIBUTE", "<<=": "T_LSHIFTA", ">>=": "T_RSHIFTA", "...": "T_ELLIPSIS", ">=": "T_GEQ",
         "<=": "T_LEQ", "==": "T_EQ", "!=": "T_NEQ", "&=": "T_BANDA", "^=": "T_XORA", "|=": "T_BORA", "+=": "T_ADDA", "-=": "T_SUBA", "*=": "T_MULA", "/=": "T_DIVA", "%=":
         "T_MODA", "<<": "T_LSHIFT", ">>": "T_RSHIFT", "&&": "T_AND", "||": "T_OR", "++": "T_INC", "--": "T_DEC", "->": "T_ARROW", "+": "T_ADD", "-": "T_SUB", "/": "T_DIV", "%":
         "T_MOD", ">": "T_G", "<": "T_L", "!": "T_NOT", "|": "T_BOR", "^": "T_XOR", "~": "T_BNOT", "=": "T_A", "*": "T_STAR", ".": "T_DOT", "&": "T_AMP", "?": "T_QUEST", ":":
         "T_COLON", ";": "T_SEMI_COLON", "(": "T_LPAR", ")": "T_RPAR", "[": "T_LBRACK", "]": "T_RBRACK", ",": "T_COMMA", "{": "T_LBRACE", "}": "T_RBRACE"}
LEX = re.compile(r'\s+|([A-Za-z_]\w*)|((?:0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+)[uUlLfF]*)|"([^"]*)"|\'([^\']*)\'|(\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|[<>=!+*/%&|^-]=|&&|\|\||[-+*/%&|^~!<>=?:;,.()\[\]{}#])')


def lex(src):
    """C text (no directives) -> [(kind, spelling)]"""
    r, i = [], 0
    while i < len(src):
        m = LEX.match(src, i)
        if not m:
            raise AnalysisError("cannot lex %r" % src[i:i + 20])
        i = m.end()
        if m.group(1):
            r.append((KINDS.get(m.group(1), "T_IDENT"), m.group(1)))
        elif m.group(2):
            r.append(("T_NUM", m.group(2)))
        elif m.group(3) is not None:
            r.append(("T_STRING", m.group(3)))
        elif m.group(4) is not None:
            r.append(("T_CHARACTER_CONSTANT", m.group(4)))
        elif m.group(5):
            r.append((KINDS[m.group(5)], m.group(5)))
    return r


class Crash(Wrong):
    pass


class Unit(Heap):
    def __init__(self, ctx, abi="sysv", models=None, record=False):
        P = ctx.P
        tus = {f.file for f in P.all_funcs} - {f.file for f in P.all_funcs if f.name in NOT}
        self.toks = []
        T = self.T = Tokens(P, [])

        def m_peek(I, st, a, n, f):
            l = ("i", ("g", "#toks"), min(st.mem.get(("g", "#at"), 0) + a[0], self.n))
            return [(st, ("addr", l))]

        def m_next(I, st, a, n, f):
            st.mem[("g", "#at")] = st.mem.get(("g", "#at"), 0) + 1
            return [(st, 0)]

        def m_push(I, st, a, n, f):          # the token consumed last
            st.mem[("g", "#at")] = st.mem.get(("g", "#at"), 0) - 1
            return [(st, 0)]

        def buf(st, s):
            b = self.X.new(st)
            for k, c in enumerate(s + "\0"):
                st.mem[("i", b, k)] = ord(c)
            st.mem[("g", "#size", b)] = len(s) + 1
            return ("addr", ("i", b, 0))

        def m_printf_new(I, st, a, n, f):
            return [(st, buf(st, cformat(self.X, I, st, self.X.chars(I, st, a[0]), a[1:])))]

        def m_dup(I, st, a, n, f):
            return [(st, buf(st, self.X.chars(I, st, a[0])))]

        def m_cmp(I, st, a, n, f):
            x, y = self.X.chars(I, st, a[0]), self.X.chars(I, st, a[1])
            return [(st, (x > y) - (x < y))]

        def m_ncmp(I, st, a, n, f):
            x, y = self.X.chars(I, st, a[0])[:a[2]], self.X.chars(I, st, a[1])[:a[2]]
            return [(st, (x > y) - (x < y))]

        def m_strlen(I, st, a, n, f):
            return [(st, len(self.X.chars(I, st, a[0])))]
        M = {"t_peek": m_peek, "t_next": m_next, "t_push": m_push, "allocate_printf": m_printf_new, "strdup": m_dup, "strcmp": m_cmp, "strncmp": m_ncmp, "strlen": m_strlen,
             "dbg_token": lambda I, st, a, n, f: [(st, ("str", "?"))], "dbg_type": lambda I, st, a, n, f: [(st, ("str", "?"))],
             "dbg_token_type": lambda I, st, a, n, f: [(st, ("str", "?"))]}
        # a hash of an address: any bucket will do (C29, C32)
        M["hash32"] = lambda I, st, a, n, f: [(st, (a[0] * 0x9E3779B1 >> 7) & 0xffffffff if isinstance(a[0], int) else 0)]
        M["define_string"] = M["define_remove"] = lambda I, st, a, n, f: [(st, 0)]
        if record:
            M.update(self.recording())
        M.update(models or {})
        Heap.__init__(self, ctx, tus, models=M)
        self.I.max_rec, self.I.max_depth = 200, 2000
        self.I.mirror = dict(union_mirror(P, ["src/parser/expression.h", "src/arch/x64.h"]), int_d=(64, True), uint_d=(64, False), float_d="f", double_d="d")
        deref = self.I.deref

        def checked(st, v):
            if v == 0:
                raise Crash("dereferences a null pointer in %s" % (self.I.stack[-1][0].name if self.I.stack else "?"))
            return deref(st, v)
        self.I.deref = checked
        project = self.I.project
        same = {"pointer": "variable", "variable": "pointer"}        # pointers of one type sharing storage in struct evaluated_expression

        def proj(v, loc):
            if loc[2] in same and isinstance(v, tuple) and v[0] == "struct" and v[1] in ("evaluated_expression", "struct evaluated_expression"):
                d = dict(v[2])
                if loc[2] not in d and same[loc[2]] in d:
                    return d[same[loc[2]]]
            return project(v, loc)
        self.I.project = proj

    def source(self, st, src):
        P = self.P
        toks = lex(src) if isinstance(src, str) else src
        self.n = len(toks)
        for i, (k, s) in enumerate(toks + [("T_EOI", "")]):
            st.mem[("i", ("g", "#toks"), i)] = ("struct", "token", (("type", P.enum(k)), ("first_of_line", 0), ("whitespace", 1), ("whitespace_after", 1),
                ("str", ("struct", "string_view", (("len", len(s)), ("str", ("str", s))))), ("pos", ("struct", "position", (("path", ("str", "t.c")), ("line", 1), ("column", i))))))

    def parse(self, src):
        st = self.st.fork()
        self.source(st, src)
        rs, dead = self.call("symbols_init", [], st)
        (st, _), = rs
        rs, dead = self.call("abi_init_sysv", [], st)
        (st, _), = rs
        return self.call("parse_into_ir", [], st)

    STAGES = ("optimize_mem2reg", "optimize_peephole", "optimize_remove_dead", "ir_schedule_blocks", "ir_local_schedule", "ir_calculate_block_local_variables")

    def recording(self):
        """the assembler's interface records what it is asked to emit"""
        def m(name):
            def go(I, st, a, n, f):
                st.ev = (st.ev, Ev("asm", name, tuple(self.value(I, st, v) for v in a), locs(n), f.name if f else "?"))
                return [(st, 0)]
            return go
        return {n: m(n) for n in ("asm_section", "asm_ins", "asm_ins0", "asm_ins1", "asm_ins2", "asm_ins3", "asm_label", "asm_quad", "asm_byte", "asm_zero", "asm_string", "asm_align")} | \
               {n: (lambda I, st, a, n, f: [(st, 0)]) for n in ("asm_comment", "asm_finish")}

    def value(self, I, st, v):
        return v

    def compile(self, src, emit=True):
        """-> [(state, ())], dead: the whole pipeline after the tokens"""
        rs, dead = self.parse(src)
        for fn in self.STAGES + (("codegen",) if emit else ()):
            nrs = []
            for st, _ in rs:
                r, d = self.call(fn, [], st)
                nrs += r
                dead = list(dead) + list(d)
            rs = nrs
        return rs, dead
