"""C15: initialisers give every element the value that designators, brace elision and position assign to it (C11 6.7.9)."""
import random
from absint import show, Limit
from front import AnalysisError
from lib import *
from lib_asm import Wrong
from lib_run import *
from lib_x86 import NAMES, canon, lindict

EXPLANATION = ("Translation units with one initialised object are compiled abstractly as a whole (parser, types, intermediate form, passes, emission; nothing replaced). For static "
               "objects the emitted data, for automatic objects the memory at the moment a function receives the object's address - the emitted instructions are executed on a symbolic "
               "machine, operands of the initialiser may be unknown parameters - must be the image computed by an independent implementation of C11 6.7.9 (current object, designator "
               "lists, brace elision, overriding, zero fill, arrays of unknown size). Initialisers: a table of every form for every shape of aggregate, and seeded random ones over random types.")
ASSUMPTIONS = ["layout is C14's: the oracle uses natural alignment and no bit-fields except in the table"]
FLOORS = {"static": 200, "automatic": 150, "length": 20, "reject": 4}

SZ = {"char": 1, "short": 2, "int": 4, "long": 8}


class Ty:
    n = 0

    def __init__(self, k, a=None, n=None, mem=None):
        self.k, self.a, self.n, self.mem = k, a, n, mem       # k: a scalar name, "arr", "struct", "union"
        if k in ("struct", "union"):
            off, al = 0, 1
            self.off = []
            for nm, t in mem:
                x = t.al
                if k == "union":
                    off = max(off, t.size)
                    self.off.append(0)
                else:
                    off = (off + x - 1) // x * x
                    self.off.append(off)
                    off += t.size
                al = max(al, x)
            self.al, self.size = al, (off + al - 1) // al * al
        elif k == "arr":
            self.al, self.size = a.al, a.size * (n or 0)
        else:
            self.al = self.size = SZ[k]

    def decl(self, name, defs):
        if self.k == "arr":
            return self.a.decl(name + "[%s]" % (self.n if self.n is not None else ""), defs)
        return self.spec(defs) + " " + name

    def spec(self, defs):
        if self.k not in ("struct", "union"):
            return self.k
        if id(self) not in [i for i, _ in defs]:
            body = " ".join(t.decl(nm, defs) + ";" for nm, t in self.mem)
            defs.append((id(self), "%s T%d { %s };" % (self.k, len(defs), body)))
        i = [i for i, _ in defs].index(id(self))
        return "%s T%d" % (self.k, i)

    def count(self):
        return {"arr": lambda: self.n, "struct": lambda: len(self.mem), "union": lambda: 1}[self.k]()

    def sub(self, i):
        """(type, offset) of sub-object I"""
        if self.k == "arr":
            return self.a, i * self.a.size
        return self.mem[i][1], self.off[i]

    @property
    def aggregate(self):
        return self.k in ("arr", "struct", "union")


# initialisers: int | ("p", name) | ("s", text) | [(designators, initialiser)], designators: list of int or member name
def text(i):
    if isinstance(i, list):
        return "{ " + ", ".join("".join("[%d]" % d if isinstance(d, int) else "." + d for d in ds) + (" = " if ds else "") + text(x) for ds, x in i) + " }"
    return '"%s"' % i[1] if isinstance(i, tuple) and i[0] == "s" else str(i[1] if isinstance(i, tuple) else i)


class Image:
    def __init__(self):
        self.b = {}
        self.active = {}        # (offset, union): initialised member
        self.max = 0

    def clear(self, off, n):
        self.active = {k: v for k, v in self.active.items() if not off <= k[0] < off + n}
        for k in range(n):
            self.b.pop(off + k, None)

    def scalar(self, t, off, v):
        for k in range(t.size):
            self.b[off + k] = (v >> 8 * k & 255) if isinstance(v, int) else (v[1], k)


def isstr(t, v):
    return t.k == "arr" and t.a.k == "char" and isinstance(v, tuple) and v[0] == "s"


def string(t, off, s, im):
    im.clear(off, t.size)
    b = [ord(c) for c in s] + [0]
    for k in range(len(b) if t.n is None else t.n):
        im.b[off + k] = b[k] if k < len(b) else 0
    im.max = max(im.max, len(b))


def assign(t, off, v, im):
    if isinstance(v, list):
        im.clear(off, t.size)
        braced(t, off, v, im)
    elif isstr(t, v):
        string(t, off, v[1], im)
    else:
        im.scalar(t, off, v)


def braced(T, off, items, im, top=False):
    if not T.aggregate:
        return assign(T, off, items[0][1], im)
    if len(items) == 1 and not items[0][0] and isstr(T, items[0][1]):
        return string(T, off, items[0][1][1], im)
    path = None

    def resolve(p):
        t, o = T, off
        for i in p:
            t, d = t.sub(i)
            o += d
        return t, o

    def parent(p):
        return resolve(p[:-1])[0]
    for ds, v in items:
        if ds:
            path, t = [], T
            for d in ds:
                i = d if isinstance(d, int) else [m for m, _ in t.mem].index(d)
                path.append(i)
                t = t.sub(i)[0]
        elif path is None:
            path = [0]
        else:
            path = path[:-1] + [path[-1] + 1]
            while len(path) > 1 and path[-1] >= parent(path).count():
                path = path[:-2] + [path[-2] + 1]
        while True:
            t, o = resolve(path)
            if isinstance(v, list) or not t.aggregate or isstr(t, v):
                break
            path = path + [0]
        if top:
            im.max = max(im.max, path[0] + 1)
        unions = [(resolve(path[:k]), path[k]) for k in range(len(path)) if resolve(path[:k])[0].k == "union"]
        for (u, x), m in unions:
            if im.active.get((x, u), m) != m:
                im.clear(x, u.size)
        assign(t, o, v, im)
        for (u, x), m in unions:
            im.active[x, u] = m


def image(T, init):
    im = Image()
    if isinstance(init, list):
        braced(T, 0, init, im, T.k == "arr")
    else:
        assign(T, 0, init, im)
    n = T.size if T.n is not None or T.k != "arr" else im.max * T.a.size
    return [im.b.get(k, 0) for k in range(n)]


A = lambda t, n: Ty("arr", t, n)
C, S, I, L = Ty("char"), Ty("short"), Ty("int"), Ty("long")
ST = lambda *m: Ty("struct", mem=[(n, t) for n, t in m])
UN = lambda *m: Ty("union", mem=[(n, t) for n, t in m])
N = lambda *v: [([], x) for x in v]
D = lambda *v: [(d if isinstance(d, list) else [d], x) if d != "" else ([], x) for d, x in v]
CI = ST(("a", C), ("b", I))
NS = ST(("x", S), ("s", CI), ("y", L))
AS = ST(("v", A(I, 3)), ("w", C))
UU = UN(("i", I), ("l", L), ("c", A(C, 3)))
SU = ST(("a", C), ("u", UU), ("z", S))
DEEP = ST(("m", A(AS, 2)), ("n", NS))
STR = ST(("s", A(C, 4)), ("t", A(C, 3)), ("k", I))
Q3 = ST(("z", C), ("q", A(A(A(CI, 2), 2), 2)), ("e", S))

TABLE = [
    (I, 7), (I, N(7)), (C, 200), (L, 1 << 40), (S, N(-2)), (A(I, 3), N(1, 2, 3)), (A(I, 3), N(1)), (A(I, 3), N()) if False else (A(I, 3), N(0)),
    (A(C, 5), ("s", "abc")), (A(C, 3), ("s", "abc")), (A(C, 5), N(("s", "abc"))), (A(C, 1), ("s", "")), (A(C, 9), ("s", "a")),
    (A(I, 5), D((2, 7))), (A(I, 5), D((2, 7), ("", 8))), (A(I, 5), D((4, 7), (0, 1), ("", 2))), (A(I, 5), D(("", 1), (3, 4), ("", 5), (1, 9))), (A(I, 3), D((1, 5), (1, 6))),
    (A(I, 3), D(("", 1), ("", 2), (0, 9), ("", 8))), (CI, N(1)), (CI, N(1, 2)), (CI, D(("b", 2))), (CI, D(("b", 2), ("a", 1))), (CI, D(("a", 1), ("b", 3), ("a", 4))),
    (NS, N(1, N(2, 3), 4)), (NS, N(1, 2, 3, 4)), (NS, N(1, N(2), 4)), (NS, N(1, 2)), (NS, D((["s", "b"], 3))), (NS, D((["s", "b"], 3), ("", 5))), (NS, D((["s", "a"], 3), ("", 5), ("", 6))),
    (NS, D(("s", N(1, 2)), (["s", "a"], 7))), (NS, D((["s", "a"], 7), ("s", N(1)))) , (NS, D(("", 1), (["s", "b"], 2), ("y", 9))), (NS, D(("y", 9), ("x", 8), ("", 1), ("", 2), ("", 3))),
    (AS, N(1, 2, 3, 4)), (AS, N(N(1, 2), 4)), (AS, N(N(1), 4)), (AS, D((["v", 1], 5), ("", 6), ("", 7))), (AS, D((["v", 2], 5), ("", 6))), (AS, D(("w", 5), (["v", 0], 6), ("", 7))),
    (AS, D(("v", N(1, 2, 3)), (["v", 1], 9))), (AS, D((["v", 1], 9), ("v", N(1)))), (A(AS, 2), N(1, 2, 3, 4, 5, 6)), (A(AS, 2), N(N(1, 2), N(N(3), 4))), (A(AS, 2), N(N(N(1), 2), 3, 4)),
    (A(AS, 2), D(([1, "v", 2], 5), ("", 6))), (A(AS, 2), D(([0, "v", 2], 5), ("", 6), ("", 7))), (A(AS, 3), D((2, N(N(1), 2)), (0, N(N(3))), ("", 4))),
    (A(A(I, 2), 3), N(1, 2, 3, 4, 5)), (A(A(I, 2), 3), N(N(1), N(2), N(3))), (A(A(I, 2), 3), N(N(1), 2, 3, N(4))), (A(A(I, 2), 3), D(([1, 1], 5), ("", 6))), (A(A(I, 2), 3), D((2, N(5)), (0, N(6, 7)), ("", 8))),
    (A(A(A(C, 2), 2), 2), N(1, 2, 3, 4, 5, 6, 7, 8)), (A(A(A(C, 2), 2), 2), N(N(1, 2, 3), N(N(4), N(5, 6)))), (A(A(A(C, 2), 2), 2), D(([1, 0, 1], 5), ("", 6))),
    (UU, N(5)), (UU, D(("l", 1 << 33))), (UU, D((["c", 1], 5))), (UU, D(("c", N(1, 2)))), (SU, N(1, 2, 3)), (SU, N(1, N(2), 3)), (SU, D((["u", "l"], 7), ("", 3))), (SU, D((["u", "c"], N(7, 8)), ("", 3))),
    (SU, D((["u", "c", 2], 7), ("", 3))), (SU, D(("u", D(("l", 7))), ("", 3))), (UU, D(("l", 1 << 33 | 7), ("i", 5))), (UU, D(("i", 5), ("l", 1 << 33 | 7))), (UU, D((["c", 1], 5), ("", 6), ("i", 2))), (UU, D(("i", 0x1234), (["c", 1], 5), (["c", 2], 6))), (SU, D((["u", "c", 1], 3), (["u", "i"], 9), ("", 4))),
    (SU, D(("u", D(("l", -1))), (["u", "i"], 9), ("", 4))), (SU, D((["u", "i"], 9), ("u", D(("c", N(1, 2)))), ("", 4))), (A(UU, 2), D(([1, "l"], -1), (0, N(3)), (1, D(("i", 5))), ([0, "c", 1], 6))), (A(UU, 2), D(([1, "l"], -1), ([1, "i"], 2), ([0, "l"], 8), ([0, "c", 0], 6), ("", 7))),
    (A(UU, 2), N(1, 2)), (A(UU, 2), N(N(1), D(("l", 2)))),
    (DEEP, N(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)), (DEEP, N(N(N(N(1), 2), N(N(3), 4)), N(5, N(6, 7), 8))), (DEEP, D((["m", 1, "v", 2], 5), ("", 6), ("", 7))), (DEEP, D((["n", "s", "b"], 5), ("", 6), (["m", 0], N(N(1))))),
    (DEEP, D((["m", 1], N(N(1, 2))), (["m", 1, "w"], 3), ("", 4), ("", 5), ("", 6), ("", 7))), (DEEP, D(("m", N(1, 2, 3, 4)), ("n", N(5)), (["m", 1, "v", 1], 6))),
    (STR, N(("s", "ab"), ("s", "xyz"), 5)), (STR, N(N(("s", "ab")), N(1, 2), 5)), (STR, D(("t", ("s", "q")), ("", 5), ("s", ("s", "abc")))), (STR, N(1, 2, 3, 4, ("s", "uv"), 6)), (STR, D((["s", 1], 9), ("", 8), ("", 7), ("", ("s", "k")), ("", 4))),
    (A(A(C, 4), 3), N(("s", "abc"), ("s", "d"))), (A(A(C, 4), 3), N(N(("s", "ab")), N(1, 2), ("s", "wxyz"))), (A(A(C, 4), 3), D((2, ("s", "z")), (0, ("s", "y")), ("", ("s", "x")))), (A(STR, 2), N(("s", "ab"), ("s", "x"), 3, ("s", "cd"))),
    (A(A(C, 4), 2), D((0, ("s", "abc")), ([0, 1], 65))), (STR, D(("s", ("s", "abc")), (["s", 0], 65), ("k", 1))),
    (ST(("a", A(C, 3)), ("b", A(S, 2)), ("c", L)), N(1, 2, 3, 4, 5, 6)), (A(CI, 3), D((1, N(1, 2)), ("", N(3)), ([0, "b"], 4))), (A(CI, 3), D(([2, "a"], 1), ([1, "b"], 2), ("", 3), ("", 4))),
    (ST(("p", CI), ("q", A(CI, 2)), ("r", C)), N(1, 2, 3, 4, 5, 6, 7)), (ST(("p", CI), ("q", A(CI, 2)), ("r", C)), N(N(1, 2), N(N(3)), 7)), (ST(("p", CI), ("q", A(CI, 2)), ("r", C)), D((["q", 1, "a"], 3), ("", 4), ("", 5))),
    (A(C, 12), ("s", "abcdefghijk")), (A(C, 11), N(("s", "abcdefghijk"))), (A(C, 40), ("s", "the quick brown fox jumps over the dog")), (A(A(C, 11), 2), N(("s", "abcdefghijkl"[:10]), ("s", "0123456789"))),
    (Q3, D((["q", 0, 0, 0], N(1, 2)), ("", N(3)), ("", N(4, 5)), ("", 6), ("", 7), ("", N(8)), ("", 9))), (Q3, D((["q", 1, 0, 1, "b"], 1), ("", N(3)), ("", 4), (["q", 0, 1, 1], N(9)), ("", N(N(6), 7)))), (Q3, N(9, N(N(N(1), 2, 3), N(N(4))), 8)),
    (A(L, 2), N(-1, 1)), (A(S, 4), D((1, -1), (3, -2))), (A(C, 3), N(255, 128, 1)),
]
UNKNOWN = [(A(I, None), N(1, 2, 3)), (A(I, None), D((4, 7))), (A(I, None), D((4, 7), (1, 2), ("", 3))), (A(I, None), D((4, 7), ("", 8))), (A(C, None), ("s", "abcd")), (A(C, None), N(("s", "abcd"))), (A(C, None), ("s", "")), (A(C, None), N(1)),
           (A(AS, None), N(1, 2, 3, 4, 5)), (A(AS, None), N(N(1), N(2))), (A(AS, None), D(([2, "w"], 5), ("", 6))), (A(A(I, 2), None), N(1, 2, 3)), (A(A(I, 2), None), N(N(1), 2)), (A(A(C, 4), None), N(("s", "ab"), ("s", "cd"), ("s", "e"))),
           (A(CI, None), N(1, 2, 3)), (A(CI, None), N(1, 2, 3, 4, N(5))), (A(CI, None), D((3, N(1)), (0, N(2)))), (A(UU, None), N(1, 2, 3)), (A(S, None), D((0, 1), (0, 2), (0, 3))), (A(I, None), D((2, 1), (0, 1), ("", 2), ("", 3), ("", 4), ("", 5))),
           (A(NS, None), D(([1, "s", "b"], 4), ("", 5), ("", 6)))]


def le(*vs):
    """(value, bytes), ... -> bytes"""
    return [v >> 8 * k & 255 for v, n in vs for k in range(n)]


def fb(*vs):
    import struct
    return [b for v, c in vs for b in struct.pack("<" + c, v)]


# declarations before, declaration of x, bytes; used for static and automatic objects
BOTH = [("struct s { unsigned a : 3, b : 7; int c : 22; char d; };", "struct s x = { 5, 100, -1, 7 }", le((5 | 100 << 3 | 0x3fffff << 10, 4), (7, 4))),
        ("struct s { unsigned a : 3, b : 7; int c : 22; char d; };", "struct s x = { .b = 127, .d = 1 }", le((127 << 3, 4), (1, 4))),
        ("struct s { unsigned a : 3, b : 7; int c : 22; char d; };", "struct s x = { .c = 2, .a = 9, .b = 1 }", le((1 | 1 << 3 | 2 << 10, 4), (0, 4))),
        ("struct s { long a : 40, b : 24; int c : 5; };", "struct s x = { -2, 3, -1 }", le(((1 << 40) - 2 | 3 << 40, 8), (31, 8))),
        ("struct s { char a : 1, b : 2; unsigned char c : 5; short d : 9; };", "struct s x[2] = { { 1, 1, 3, 5 }, { .d = -1 } }", le((1 | 1 << 1 | 3 << 3, 1), (0, 1), (5, 2), (0, 1), (0, 1), (511, 2))),
        ("struct s { int a; struct { int b, c; }; int d; };", "struct s x = { 1, 2, 3, 4 }", le((1, 4), (2, 4), (3, 4), (4, 4))), ("struct s { int a; struct { int b, c; }; int d; };", "struct s x = { 1, { 2 }, 4 }", le((1, 4), (2, 4), (0, 4), (4, 4))),
        ("struct s { int a; struct { int b, c; }; int d; };", "struct s x = { .c = 3, 4 }", le((0, 4), (0, 4), (3, 4), (4, 4))), ("struct s { int a; union { short b; int c; }; int d; };", "struct s x = { .c = 70000, 4 }", le((0, 4), (70000, 4), (4, 4))),
        ("struct s { int a; union { short b; int c; }; int d; };", "struct s x = { 1, 2, 3 }", le((1, 4), (2, 4), (3, 4))), ("struct s { struct { struct { int a; }; int b; }; int c; };", "struct s x = { .a = 1, 2, 3 }", le((1, 4), (2, 4), (3, 4))),
        ("struct s { int z; struct { int y; struct { int x, w; struct { int a, b; }; int v; }; int u; }; int t; };", "struct s x = { .b = 1, 2, 3, 4 }", le(*[(0, 4)] * 5, *[(i, 4) for i in (1, 2, 3, 4)])), ("struct s { int z; struct { int y; union { int x; struct { int a, b; }; }; int u; }; int t; };", "struct s x = { .b = 1, 2, .y = 7, .a = 9 }", le((0, 4), (7, 4), (9, 4), (1, 4), (2, 4), (0, 4))),
        ("", "double x[3] = { 1, 2.5 }", fb((1, "d"), (2.5, "d"), (0, "d"))), ("struct s { char a; float b; };", "struct s x = { 1, 3 }", le((1, 4)) + fb((3, "f"))), ("", "float x = 1.5", fb((1.5, "f"))),
        ("", "_Bool x[3] = { 5, 0, 1 }", [1, 0, 1]), ("", "unsigned char x[2] = { 300, -1 }", [44, 255]), ("", "int x[2] = { 1.9, 'a' }", le((1, 4), (97, 4))), ("", "long x = -1", [255] * 8), ("", "unsigned long x[1] = { -1 }", [255] * 8),
        ("", "char x[4] = { \"ab\", }", [97, 98, 0, 0]), ("", "char x[] = { \"ab\", }", [97, 98, 0]), ("", "int x = { 5, }", le((5, 4))), ("", "int x[2] = { 1, 2, }", le((1, 4), (2, 4))), ("", "unsigned char x[4] = \"ab\"", [97, 98, 0, 0]),
        ("enum { P = 2 };", "int x[4] = { [P] = P, [P - 1] = 7 }", le((0, 4), (7, 4), (2, 4), (0, 4))), ("", "int x[sizeof(int)] = { [sizeof(char)] = 7 }", le((0, 4), (7, 4), (0, 4), (0, 4))),
        ("struct s { char a[3]; char b; };", "struct s x[2] = { \"ab\", 1, { \"cd\" } }", [97, 98, 0, 1, 99, 100, 0, 0]), ("struct s { int a, b; };", "struct s x = (struct s) { 1, 2 }", le((1, 4), (2, 4))),
        ("union u { char c; long l; };", "union u x = { 1 }", le((1, 8))), ("union u { long l; char c; };", "union u x = { .c = 1 }", le((1, 8))), ("struct s { int n; int *p; };", "struct s x = { 3, 0 }", le((3, 8), (0, 8)))]
BOTH += [("", "char x[%d] = { 1 }" % n, [1] + [0] * (n - 1)) for n in list(range(1, 34)) + [63, 64, 65]] + [("", "char x[%d] = \"a\"" % n, [97] + [0] * (n - 1)) for n in (3, 4, 9, 17, 31)] + [("", "short x[%d] = { [%d] = 5 }" % (n, n - 1), le(*[(0, 2)] * (n - 1), (5, 2))) for n in (2, 3, 5, 7, 9)]
# body of f(int a, long b), bytes at each call of g
CALLS = [("struct s { int a, b; }; struct t { char c; struct s s; int d; };", "struct s y = { 1, 2 }; struct t x = { 5, y, 6 }; g(&x, sizeof(x));", [le((5, 4), (1, 4), (2, 4), (6, 4))]),
         ("struct s { int a, b; }; struct t { char c; struct s s; int d; };", "struct s y = { 1, 2 }; struct t x[2] = { [1] = { .s = y, 7 }, [0].d = 3 }; g(x, sizeof(x));", [le((0, 4), (0, 4), (0, 4), (3, 4), (0, 4), (1, 4), (2, 4), (7, 4))]),
         ("struct s { int a, b; }; struct t { char c; struct s s; int d; };", "struct t x = { 5, (struct s) { 1, 2 }, 6 }; g(&x, sizeof(x));", [le((5, 4), (1, 4), (2, 4), (6, 4))]),
         ("struct s { int a, b; }; struct t { struct s s[2]; int d; };", "struct s y = { 1, 2 }, *p = &y; struct t x = { *p, y, 6 }; g(&x, sizeof(x));", [le((1, 4), (2, 4), (1, 4), (2, 4), (6, 4))]),
         ("struct s { int a, b; }; struct t { struct s s; int d; }; struct u { struct t t; int e; };", "struct s y = { 1, 2 }; struct t z = { y, 3 }; struct u x = { y, 4, 5 }, w = { z, 6 }; g(&x, sizeof(x)); g(&w, sizeof(w));", [le(*[(i, 4) for i in (1, 2, 4, 5)]), le(*[(i, 4) for i in (1, 2, 3, 6)])]),
         ("struct s { int a, b; };", "struct s y = { 1, 2 }; struct s x = y; x.a = 9; g(&y, sizeof(y)); g(&x, sizeof(x));", [le((1, 4), (2, 4)), le((9, 4), (2, 4))]),
         ("", "int x[2] = { 1, 2 }; { int x[3] = { 3 }; g(x, sizeof(x)); } g(x, sizeof(x));", [le((3, 4), (0, 4), (0, 4)), le((1, 4), (2, 4))]),
         ("", "int i = 4; int x[3] = { i++, i++, i++ }; g(x, sizeof(x)); g(&i, sizeof(i));", [le((4, 4), (5, 4), (6, 4)), le((7, 4))]),
         ("", "int y[3] = { 1, 2, 3 }; int x[3] = { y[2], y[1], y[0] }; g(x, sizeof(x)); g(y, sizeof(y));", [le((3, 4), (2, 4), (1, 4)), le((1, 4), (2, 4), (3, 4))]),
         ("struct s { char c; int n; };", "g((struct s []) { { 1, 2 }, { .n = 3 } }, 16);", [le((1, 4), (2, 4), (0, 4), (3, 4))]), ("", "g((int [4]) { [2] = 5 }, 16);", [le((0, 4), (0, 4), (5, 4), (0, 4))]), ("", "g((char []) { \"ab\" }, 3);", [[97, 98, 0]]),
         ("", "g(&(int) { 5 }, 4); g(&(long) { 6 }, 8);", [le((5, 4)), le((6, 8))]), ("", "char *x[2] = { 0, 0 }; g(x, sizeof(x));", [[0] * 16])]
lab = lambda n, o=0: [(n, o, k) for k in range(8)]
# declarations before, declaration of the static x, bytes (label, addend, index)
LABELS = [("int a, b[9];", "int *x[3] = { &a, 0, b + 2 }", lab("a") + [0] * 8 + lab("b", 8)), ("int a, b[9];", "int *x[3] = { [2] = &a, [0] = &b[3], [2] = 0 }", lab("b", 12) + [0] * 16), ("int a, b[9];", "int *x[] = { [1] = &a, &a, [1] = b }", [0] * 8 + lab("b") + lab("a")),
          ("int a; struct s { char c; int *p; long l; };", "struct s x[2] = { { 1, &a, 2 }, [1].p = &a, 3 }", [1] + [0] * 7 + lab("a") + le((2, 8)) + [0] * 8 + lab("a") + le((3, 8))), ("int f(void);", "int (*x[2])(void) = { f, &f }", lab("f") * 2),
          ("struct s { int a, b; } v; struct t { long l; int *p, *q; };", "struct t x = { .q = &v.b, .l = 4 }", le((4, 8)) + [0] * 8 + lab("v", 4)), ("struct s { int a, b; } v[3];", "void *x = &v[2].b", lab("v", 20)), ("int b[9];", "int *x = &b[4] - 3", lab("b", 4)),
          ("struct s { int a; struct s *n; };", "struct s x = { 1, &x }", le((1, 8)) + lab("x")), ("struct s { int a; struct s *n; };", "struct s x[2] = { { 1, x + 1 }, { 2, x } }", le((1, 8)) + lab("x", 16) + le((2, 8)) + lab("x"))]
REJECT = ["struct s { int a; } x = { .b = 1 };", "int x[2] = { [2] = 1 };", "int x[2] = { [-1] = 1 };", "int x[2] = { [4294967296] = 1 };", "int x[] = { [4294967297] = 1 };", "int x[2] = { 1, 2, 3 };", "struct s { int a; } x = { 1, 2 };", "int x[2][2] = { { 1, 2, 3 } };", "int x[2] = { .a = 1 };", "struct s { int a; } x = { [0] = 1 };",
          "struct s { struct { int a; } t; } x = { .t.b = 1 };", "int x[2] = 1;" , "struct s { int a; } x = 1;"]


def rtype(r, d=3):
    k = r.random()
    if d == 0 or k < .15:
        return r.choice((C, S, I, L))
    if k < .55:
        return A(rtype(r, d - 1), r.randrange(1, 4))
    return ST(*[("m%d" % i, rtype(r, d - 1)) for i in range(r.randrange(1, 4))])


def rinit(r, t, val, d=0):
    """a braced initialiser of T, elided or designated at random"""
    if not t.aggregate:
        return next(val)
    items, n = [], t.count()

    def flat(t):
        """elided initialiser of all of T (its first element cannot be braced)"""
        if not t.aggregate:
            return [next(val)]
        out = []
        for i in range(t.count()):
            s = t.sub(i)[0]
            out += flat(s) if s.aggregate and (i == 0 or r.random() < .7) else [rinit(r, s, val, d + 1)]
        return out
    i, k = 0, 0
    while k < n + 1:
        k += 1
        ds = []
        if r.random() < .3 or i >= n:
            if i >= n and r.random() < .5:
                break
            i = r.randrange(n)
            ds = [i if t.k == "arr" else t.mem[i][0]]
        s = t.sub(i)[0]
        if ds and s.aggregate and r.random() < .4:
            j = r.randrange(s.count())
            ds.append(j if s.k == "arr" else s.mem[j][0])
            s2 = s.sub(j)[0]
            items.append((ds, rinit(r, s2, val, d + 1)))
            for q in range(j + 1, s.count()):
                s2 = s.sub(q)[0]
                items.append(([], rinit(r, s2, val, d + 1)))
        elif s.aggregate and r.random() < .4:
            f = flat(s)
            items.append((ds, f[0]))
            items += [([], x) for x in f[1:]]
        else:
            items.append((ds, rinit(r, s, val, d + 1)))
        i += 1
        if i < n and r.random() < .12:
            break
    return items


def values():
    k = 0
    while True:
        k += 1
        yield k % 120 + 1


def params(init, at):
    """replace some numbers by the parameters a (int) and b (long)"""
    if isinstance(init, list):
        return [(ds, params(x, at)) for ds, x in init]
    if isinstance(init, int):
        at[0] += 1
        if at[0] % 3 == 0:
            return ("p", "a" if at[0] % 2 else "b")
    return init


def run(ctx):
    ctx.rule("static", "the data emitted for an initialised object of static storage duration is the image the initialiser prescribes")
    ctx.rule("automatic", "the contents of an initialised automatic object are those the initialiser prescribes, for every value of its operands")
    ctx.rule("length", "an array of unknown size gets the length its initialiser implies")
    ctx.rule("reject", "initialisers that designate nothing are rejected")
    U = Prog(ctx)

    def guarded(rule, inst, fn):
        U.I.take_dead()
        try:
            bad = fn()
        except (Wrong, Bad) as e:
            bad = str(e)
        except AnalysisError as e:
            if "does not end" not in str(e):
                raise
            bad = str(e)
        except RecursionError:
            bad = "does not end"
        ctx.ob(rule, inst, bad is None, "initializers", bad or "")

    def differ(got, want):
        for k, w in enumerate(want):
            if k >= len(got) or got[k] != w:
                return "byte %d is %s, required %s" % (k, got[k] if k < len(got) else "missing", w)
        return "%d bytes, required %d" % (len(got), len(want)) if len(got) != len(want) else None

    def build(T, init):
        defs = []
        d = T.decl("x", defs)
        return " ".join(t for _, t in defs), d + " = " + text(init) + ";"

    def static(rows):
        def go_():
            for T, init in rows:
                defs, d = build(T, init)

                def one():
                    p = U.program(defs + " " + d)
                    return differ(contents(p.get("x", [])), image(T, init))
                guarded("static", (defs + " " + d)[:200], one)
        return go_

    def auto(rows, rule="automatic"):
        def go_():
            for T, init in rows:
                init = params(init, [0])
                defs, d = build(T, init)
                src = defs + " int g(void *, long); int f(int a, long b) { " + d + " g(&x, sizeof(x)); return 0; }"

                def one():
                    p = U.program(src)
                    want = image(T, init)
                    for m in go(p["f"], machine()):
                        if len(m.calls) != 1:
                            return "%d calls" % len(m.calls)
                        c = m.calls[0][1]
                        n = canon(c.r[NAMES.index("rsi")], 64)
                        if n != len(want):
                            return "the size of the object is %s, required %d" % (n, len(want))
                        b, o = c.key(c.r[NAMES.index("rdi")])
                        for k, w in enumerate(want):
                            v = cell(c, (b, o + k))
                            if not isinstance(w, int):
                                w = canon(("shr", 64, ("v", "in.rdi" if w[0] == "a" else "in.rsi", 64), 8 * w[1]), 8) if w[1] else canon(("v", "in.rdi" if w[0] == "a" else "in.rsi", 64), 8)
                                if v != w:
                                    # sign extension of a into a wider element
                                    x = canon(("shr", 64, ("sx", 32, ("v", "in.rdi", 64)), 8 * want[k][1]), 8)
                                    if want[k][0] == "a" and want[k][1] >= 4 and v == x:
                                        continue
                                    return "byte %d is %s, required byte %d of %s" % (k, v, want[k][1], want[k][0])
                            elif v != w:
                                return "byte %d is %s, required %d" % (k, v, w)
                    return None
                guarded(rule, src[:220], one)
        return go_

    def both(rows, auto):
        def go_():
            for defs, d, want in rows:
                src = "%s %s;" % (defs, d) if not auto else "%s int g(void *, long); int f(int a, long b) { %s; g(&x, sizeof(x)); return 0; }" % (defs, d)

                def one():
                    p = U.program(src)
                    if not auto:
                        return differ(contents(p.get("x", [])), want)
                    return calls(p, [want])
                guarded("automatic" if auto else "static", src[:200], one)
        return go_

    def calls(p, wants):
        for m in go(p["f"], machine()):
            if len(m.calls) != len(wants):
                return "%d calls, required %d" % (len(m.calls), len(wants))
            for (_, c), want in zip(m.calls, wants):
                if want is None:
                    continue
                n = canon(c.r[NAMES.index("rsi")], 64)
                if n != len(want):
                    return "the size of the object is %s, required %d" % (n, len(want))
                b, o = c.key(c.r[NAMES.index("rdi")])
                bad = differ([cell(c, (b, o + k)) for k in range(len(want))], want)
                if bad:
                    return bad
        return None

    def several(rows):
        def go_():
            for defs, body, wants in rows:
                src = "%s int g(void *, long); int f(int a, long b) { %s return 0; }" % (defs, body)
                guarded("automatic", src[:220], lambda: calls(U.program(src), wants))
        return go_

    def reject():
        for s in REJECT:
            def one():
                try:
                    U.program(s)
                except Crash:
                    raise
                except Wrong as e:
                    return None if "not compiled" in str(e) else str(e)
                return "accepted"
            guarded("reject", s, one)

    def length():
        for T, init in UNKNOWN:
            defs, d = build(T, init)
            n = len(image(T, init))

            def one():
                p = U.program(defs + " " + d + ' _Static_assert(sizeof(x) == %d, "");' % n)
                return differ(contents(p.get("x", [])), image(T, init))
            guarded("length", (defs + " " + d)[:200], one)
    r = random.Random(ctx.seed * 7919 + 15)
    rnd = []
    while len(rnd) < (90 if ctx.tier == "quick" else 400):
        T = rtype(r)
        if T.aggregate and T.size <= 96:
            rnd.append((T, rinit(r, T, values())))
    rows = TABLE + rnd
    au = TABLE + rnd[:20 if ctx.tier == "quick" else 200]
    ctx.parallel([static(rows[i::4]) for i in range(4)] + [auto(au[i::8]) for i in range(8)] + [length, reject, auto(UNKNOWN[::2])] + [both((BOTH + LABELS)[i::2], False) for i in range(2)] + [both(BOTH[i::3], True) for i in range(3)] + [several(CALLS)])
