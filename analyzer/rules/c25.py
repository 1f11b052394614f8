"""C25: identifiers denote the innermost visible declaration of their name space; linkage and definitions follow 6.2.1-6.2.3 and 6.9.2."""
from absint import show, Ev, St, Limit
from front import AnalysisError, locs
from lib import *
from lib_asm import Wrong
from lib_tu import Unit, Crash

EXPLANATION = ("The front end and the emission of data and code are evaluated abstractly, together and without replacing any of it, on translation units whose declarations nest, shadow, repeat and "
               "interleave. Which declaration an identifier denotes is decided by static assertions about sizes and enumerators at every point of interest (all must hold, and hold with every name in one "
               "hash bucket too), and by the labels the generated code of each function refers to; linkage and tentative definitions by the labels that are defined, their binding and their contents.")
ASSUMPTIONS = ["hash values are arbitrary: every unit is evaluated with two hash functions, one of them constant"]
FLOORS = {"scope": 60, "visible": 30, "emitted": 60, "refers": 20}


def A(s):
    """@x=3@ asserts sizeof x == 3, @!E@ asserts E"""
    out, i = "", 0
    parts = s.split("@")
    for k, p in enumerate(parts):
        if k % 2 == 0:
            out += p
        elif p.startswith("!"):
            out += "_Static_assert(%s, \"\");" % p[1:]
        else:
            n, v = p.split("=")
            out += "_Static_assert(sizeof(%s) == %s, \"\");" % (n, v)
    return out


SCOPE = ["char x[1]; int f(void) { @x=1@ char x[2]; @x=2@ { @x=2@ char x[3]; @x=3@ } @x=2@ return 0; } int g(void) { @x=1@ return 0; }",
         "char x[1]; int f(void) { { char x[2]; @x=2@ } @x=1@ { @x=1@ char x[3]; @x=3@ { char x[4]; @x=4@ } @x=3@ { @x=3@ } } @x=1@ return 0; }",
         "char x[1]; int f(void) { { { { char x[2]; { } @x=2@ } @x=1@ } @x=1@ } @x=1@ return 0; } @x=1@",
         "char x[1]; int f(char (*x)[7]) { @*x=7@ { char x[3]; @x=3@ } @*x=7@ return 0; } @x=1@",
         "char x[1]; int f(char (*x)[7], int (*y)[sizeof(*x)]); @x=1@ int g(char (*y)[9]) { @*y=9@ @x=1@ return 0; }",
         "char x[1]; int f(char (*x)[7], char (*z)[sizeof(*x)]) { @*z=7@ @*x=7@ return 0; } @x=1@",
         "char x[1]; int (*p)(char (*x)[7]); @x=1@",
         "char x[1]; int f(int g(char (*x)[7])) { @x=1@ return 0; } @x=1@",
         "char x[1]; int f(void) { int g(char (*x)[7]); @x=1@ return 0; } @x=1@",
         "char x[1]; int f(char (*x)[2]) { int g(char (*x)[7]); @*x=2@ return 0; } @x=1@",
         "char x[1]; struct s { char x[5]; } y; @x=1@ @y.x=5@ int f(void) { @x=1@ return 0; }",
         "char x[1]; int f(void) { for (char x[2]; sizeof(x) == 2;) { @x=2@ char x[3]; @x=3@ } @x=1@ return 0; }",
         "char x[1]; int f(void) { for (char x[2];;) @x=2@ @x=1@ return 0; }".replace("@x=2@ @x=1@", "break; @x=1@"),
         "char x[1]; int f(int n) { for (int i = 0; i < n; i++) { char x[2]; for (int j = 0; j < n; j++) { @x=2@ char x[3]; @x=3@ } @x=2@ } @x=1@ return 0; }",
         "char x[1]; int f(int n) { while (n) { char x[2]; @x=2@ n--; } @x=1@ do { char x[3]; @x=3@ } while (n); @x=1@ return 0; }",
         "char x[1]; int f(int n) { if (n) { char x[2]; @x=2@ } else { @x=1@ char x[3]; @x=3@ } @x=1@ return 0; }",
         "char x[1]; int f(int n) { switch (n) { case 1: { char x[2]; @x=2@ } case 2: @!sizeof(x) == 1@ } @x=1@ return 0; }".replace("case 2: @!sizeof(x) == 1@", "case 2: ;"),
         "char x[1]; int f(int n) { return ({ 1; }); }".replace("({ 1; })", "n"),
         "struct s { char a[1]; }; int f(void) { @struct s=1@ struct s { char a[2]; }; @struct s=2@ { struct s { char a[3]; } y; @y=3@ @struct s=3@ } @struct s=2@ return 0; } @struct s=1@",
         "struct s { char a[1]; }; int f(void) { struct s x; struct s { char a[2]; } y; @x=1@ @y=2@ return 0; } struct s z; @z=1@",
         "struct s; struct s *p; struct s { char a[4]; }; @*p=4@",
         "struct s { char a[1]; }; int f(void) { struct s; struct s *p; struct s { char a[6]; }; @*p=6@ return 0; } @struct s=1@",
         "struct s { char a[1]; }; int f(void) { struct s { struct s *n; char a[9]; } x; @*x.n=24@ return 0; } @struct s=1@",
         "char x[1]; int (*f(int y))(char (*x)[2]) { @x=1@ return 0; } char z[3]; @x=1@",
         "struct s { char a[1]; }; int f(void) { struct s *p; @*p=1@ { struct s { char a[9]; } *q; @*q=9@ @*p=1@ } return 0; }",
         "struct s { struct t { char a[3]; } b; char c; }; @struct t=3@ @struct s=4@",
         "union u { char a[3]; }; int f(void) { union u { char b[5]; }; @union u=5@ return 0; } @union u=3@",
         "struct s { char a[7]; } s; @s=7@ @struct s=7@ int f(void) { char s[2]; @s=2@ @struct s=7@ return 0; }",
         "struct t { char a[7]; }; typedef char t[3]; @t=3@ @struct t=7@ int f(void) { t t; @t=3@ return 0; }",
         "enum e { P = 1, Q = P + 1, R }; @!Q == 2@ @!R == 3@ int f(void) { enum { P = 7, S = P }; @!P == 7@ @!S == 7@ @!Q == 2@ { enum { Q = P }; @!Q == 7@ } @!Q == 2@ return 0; } @!P == 1@",
         "enum { P = 3 }; int f(void) { char P[9]; @P=9@ { enum { P = 4 }; @!P == 4@ } @P=9@ return 0; } @!P == 3@",
         "enum { P = 3 }; int f(int P) { @P=4@ return P; } @!P == 3@",
         "enum { P = 3 }; int f(void) { enum { P = P + 1, Q = P }; @!P == 4@ @!Q == 4@ return 0; } @!P == 3@",
         "typedef char t[1]; int f(void) { @t=1@ typedef char t[2]; @t=2@ { typedef char t[3]; @t=3@ } @t=2@ return 0; } @t=1@",
         "typedef char t[1]; int f(void) { { typedef char t[2]; t y; @y=2@ } t y; @y=1@ return 0; }",
         "typedef char t[1]; int f(void) { int t = 3; t = t * 2; return t; } t x; @x=1@",
         "typedef char t[1]; int f(int t) { return t * t; } t x; @x=1@",
         "typedef int t; int f(void) { t t = 1; { typedef char t; t y; @y=1@ } return t; }",
         "typedef int t; struct s { t t; t u; } x; @x.t=4@",
         "typedef struct s s; struct s { char a[5]; s *next; }; @s=16@",
         "int f(void) { goto f; f: ; int x = 1; x: return x; }",
         "int f(void) { int x; x = 1; goto x; x: { int x = 2; goto y; } y: return x; } int g(void) { goto x; x: return 0; }",
         "struct s { int s; } s; int f(void) { s: return s.s; }",
         "int f(void) { char y[sizeof(int)]; char (*x)[2]; { char x[sizeof(*x)]; } return 0; }".replace("char x[sizeof(*x)];", ""),
         "char x[4]; int f(void) { char y[sizeof(x)]; char x[sizeof(y) + 1]; char z[sizeof(x)]; @z=5@ return 0; }",
         "int f(void) { char a[1], b[sizeof(a) + 1], c[sizeof(b) + 1]; @c=3@ return 0; }",
         "int f(void) { enum { P = 1 } a[P + 1]; @a=8@ return 0; }",
         "extern char x[]; int f(void) { char x[9]; @x=9@ return 0; } char x[3]; @x=3@",
         "char x[]; char x[3]; @x=3@ char x[]; @x=3@",
         "char x[1]; int f(void) { char x[2]; { extern char x[1]; @x=1@ } @x=2@ return 0; }",
         "int f(void) { return sizeof(int); } int g(void) { int f = 2; return f; } int h(void) { return f(); }",
         "int f(void) { int g(void); return g(); } int g(void) { return 1; } int h(void) { return f() + g(); }",
         "int f(int a) { { int f = a; a = f; } return f(a); }",
         "char x[1]; int f(void) { char x[2]; char (*y)[sizeof(x)]; { char x[3]; @*y=2@ } return 0; } int g(void) { @x=1@ char x[4]; @x=4@ return 0; } @x=1@",
         "int f(int a, int b) { char c[a + 0 * b]; { char a[3]; @a=3@ } return sizeof(c); }",
         "int f(void) { { struct s { char a[3]; }; } { struct s { char a[4]; }; @struct s=4@ } return 0; }",
         "int f(void) { { enum { P = 1 }; } { enum { P = 2 }; @!P == 2@ } return 0; } int g(void) { enum { P = 3 }; @!P == 3@ return 0; }",
         "int f(void) { { typedef int t; } int t; { typedef char t; @t=1@ } return t; }",
         "int f(void) { for (int i = 0; i < 1; i++) ; for (char i = 0; i < 1; i++) { @i=1@ } for (int i[2] = { 1 };;) { @i=8@ break; } return 0; }",
         "struct s { char a[3]; }; struct s f(struct s s) { @s=3@ @struct s=3@ return s; }",
         "int f(struct s { char a[3]; } *p) { @*p=3@ @struct s=3@ return 0; } struct s { char a[4]; }; @struct s=4@",
         "int f(enum { P = 5 } e) { @!P == 5@ return 0; } enum { P = 6 }; @!P == 6@",
         # many names at once, added and removed in every order
         "".join("char x%d[%d]; " % (i, i + 1) for i in range(8)) + "int f(void) { " + "".join("char x%d[%d]; " % (i, 20 + i) for i in (3, 1, 6)) + "{ " +
         "".join("char x%d[%d]; " % (i, 40 + i) for i in (6, 0, 3, 7)) + "".join("@x%d=%d@ " % (i, v) for i, v in enumerate((40, 21, 3, 43, 5, 6, 46, 47))) + "} " +
         "".join("@x%d=%d@ " % (i, v) for i, v in enumerate((1, 21, 3, 23, 5, 6, 26, 8))) + "return 0; } " + "".join("@x%d=%d@ " % (i, i + 1) for i in range(8)),
         # file-scope declarations entered from an inner scope: a function definition
         "int f(char (*a)[3], char (*b)[4]) { @*a=3@ @*b=4@ return f(a, b); } int g(char (*b)[5], char (*a)[6]) { @*a=6@ @*b=5@ f(0, 0); return g(b, a); } char a[7], b[8]; int h(void) { @a=7@ @b=8@ return f(0, 0) + g(0, 0); }",
         "int a(char (*b)[3]) { @*b=3@ return a(b); } int b(char (*a)[4]) { @*a=4@ return b(a); } int c(char (*c)[5], char (*a)[6]) { @*c=5@ @*a=6@ return b(0); } int d(void) { return a(0) + b(0) + c(0, 0); }",
         ]

NOT_VISIBLE = ["int (*f(int a))(int b) { return b ? 0 : 0; }", "int (*f(int a))(int b) { return 0; } int g(void) { return b; }", "int f(void) { { int y; } y = 1; return 0; }", "int f(void) { { { int y; } } return y; }", "int f(int y) { return y; } int g(void) { return y; }", "int f(int y); int g(void) { return y; }",
               "int f(void) { for (int y = 0; y < 1; y++) ; return y; }", "int f(void) { for (int y = 0; y < 1; y++) { int z; } return z; }", "int f(int n) { if (n) { int y; } else { y = 1; } return 0; }",
               "int f(int n) { while (n) { int y; } return y; }", "int f(int n) { do { int y; } while (y); return 0; }", "int f(int n) { switch (n) { case 1: { int y; } case 2: y = 1; } return 0; }",
               "int f(void) { enum { P }; return P; } int g(void) { return P; }", "int f(void) { { enum { P }; } return P; }", "int f(void) { typedef int t; return 0; } t x;", "int f(void) { { typedef int t; } t x; return 0; }",
               "int f(void) { struct s { int a; }; return 0; } int g = sizeof(((struct s *)0)->a);", "int f(void) { { struct s { int a; }; } return ((struct s *)0)->a; }",
               "int f(enum { P } e); int g = P;", "int f(void) { goto y; return 0; } int g(void) { y: return 0; }", "int f(void) { y: return 0; } int g(void) { goto y; return 0; }",
               "struct s { int a; }; int x = a;", "struct s { int a; }; int f(void) { return a; }", "struct s { int a; }; int x = sizeof(s);", "struct s { int a; } y; union s *p;", "enum e { P }; struct e x;",
               "int x = y; int y;", "int f(void) { int x = y; int y; return 0; }", "int f(void) { static int y; return 0; } int g(void) { return y; }", "int f(void) { extern int y; return 0; } int g(void) { return y; }",
               "int f(void) { int g(void); return 0; } int h(void) { return g(); }", "int f(void) { int y; y: ; { int z; } z = 1; return 0; }",
               "int f(void) { char x[1]; { char x[2]; } _Static_assert(sizeof x == 2, \"\"); return 0; }", "char x[1]; int f(char (*x)[2]); _Static_assert(sizeof x == 8, \"\");",
               # redeclarations
               "int f(void) { int x; int x; return 0; }", "int f(void) { int x; char x; return 0; }", "int f(void) { static int x; static int x; return 0; }", "int x = 1; int x = 2;", "int x = 1; int x; int x = 2;",
               "static int x = 1; static int x = 1;", "int f(void) { return 1; } int f(void) { return 1; }", "int f(int a, int a) { return 0; }", "int x; char x;", "int x; int x(void);", "int x(void); int x;",
               "struct s { int a; }; struct s { int a; };", "int f(void) { struct s { int a; }; struct s { int a; }; return 0; }", "enum { P, P };", "enum { P }; enum { P };", "int f(void) { x: ; x: ; return 0; }",
               "char x[1]; char x[2];", "int f(int); int f(char);", "extern int x; extern char x;", "static int f(int a) { return a; } int f(char);"]

Z = "zero"
# unit, {defined label: (global, contents)}; a name starting with * is any name of internal linkage
EMITTED = [("int x;", {"x": (1, Z + "4")}), ("int x; int x;", {"x": (1, Z + "4")}), ("int x; int x; int x; int y; int x;", {"x": (1, Z + "4"), "y": (1, Z + "4")}),
           ("static int x;", {"x": (0, Z + "4")}), ("static int x; static int x;", {"x": (0, Z + "4")}),
           ("extern int x;", {}), ("extern int x; extern int x;", {}), ("extern int x; int x;", {"x": (1, Z + "4")}), ("int x; extern int x;", {"x": (1, Z + "4")}),
           ("static int x; extern int x;", {"x": (0, Z + "4")}), ("static int x = 1; extern int x;", {"x": (0, "1,0,0,0")}), ("static int x; extern int x; static int x;", {"x": (0, Z + "4")}),
           ("static int x; extern int x; static int x = 1; extern int x;", {"x": (0, "1,0,0,0")}),
           ("int x = 1;", {"x": (1, "1,0,0,0")}), ("int x; int x = 1;", {"x": (1, "1,0,0,0")}), ("int x = 1; int x;", {"x": (1, "1,0,0,0")}), ("int x; int x = 1; int x;", {"x": (1, "1,0,0,0")}),
           ("int x = 1; int x; int x;", {"x": (1, "1,0,0,0")}), ("extern int x; int x = 1;", {"x": (1, "1,0,0,0")}), ("int x = 1; extern int x;", {"x": (1, "1,0,0,0")}),
           ("extern int x; int x; extern int x; int x = 1; extern int x; int x;", {"x": (1, "1,0,0,0")}), ("static int x; static int x = 1; static int x;", {"x": (0, "1,0,0,0")}),
           ("int x = 0;", {"x": (1, "0,0,0,0")}), ("int x = 0; int x;", {"x": (1, "0,0,0,0")}), ("char x[3];", {"x": (1, Z + "3")}), ("char x[]; char x[3];", {"x": (1, Z + "3")}), ("char x[3]; char x[];", {"x": (1, Z + "3")}),
           ("char x[]; char x[3]; char x[];", {"x": (1, Z + "3")}), ("char x[]; char x[] = { 1, 2 };", {"x": (1, "1,2")}), ("char x[] = { 1, 2 }; char x[];", {"x": (1, "1,2")}), ("extern char x[]; char x[2];", {"x": (1, Z + "2")}),
           ("extern char x[];", {}), ("extern char x[2];", {}), ("static char x[2]; static char x[2];", {"x": (0, Z + "2")}),
           ("int x, y, z;", {"x": (1, Z + "4"), "y": (1, Z + "4"), "z": (1, Z + "4")}), ("static int x, y = 1;", {"x": (0, Z + "4"), "y": (0, "1,0,0,0")}), ("extern int x, y; int y;", {"y": (1, Z + "4")}),
           ("int x; static int y; extern int z; int w = 1; int x; static int y = 2; int w;", {"x": (1, Z + "4"), "y": (0, "2,0,0,0"), "w": (1, "1,0,0,0")}),
           ("struct s { char a; char b[2]; } x; struct s y = { 1, { 2 } };", {"x": (1, Z + "3"), "y": (1, "1,2,0")}),
           ("typedef int t; t x; typedef char u; static u y;", {"x": (1, Z + "4"), "y": (0, Z + "1")}), ("struct s; struct s *x;", {"x": (1, Z + "8")}), ("enum { P } x;", {"x": (1, Z + "4")}),
           ("int f(void);", {}), ("static int f(void);", {}), ("extern int f(void);", {}), ("int f(void), x;", {"x": (1, Z + "4")}),
           ("void f(void) { }", {"f": (1, "code")}), ("extern void f(void) { }", {"f": (1, "code")}), ("static void f(void) { }", {"f": (0, "code")}), ("static void f(void); static void f(void) { }", {"f": (0, "code")}),
           ("static void f(void); void f(void) { }", {"f": (0, "code")}), ("static void f(void); extern void f(void); void f(void) { }", {"f": (0, "code")}), ("static void f(void) { } void f(void);", {"f": (0, "code")}),
           ("static void f(void) { } extern void f(void);", {"f": (0, "code")}), ("void f(void); void f(void) { }", {"f": (1, "code")}), ("void f(void) { } void f(void);", {"f": (1, "code")}),
           ("extern void f(void); void f(void) { } void g(void) { f(); } void h(void);", {"f": (1, "code"), "g": (1, "code")}),
           ("static void f(void); void g(void) { f(); } static void f(void) { }", {"f": (0, "code"), "g": (1, "code")}),
           ("void f(void) { } static void g(void) { } void h(void) { }", {"f": (1, "code"), "g": (0, "code"), "h": (1, "code")}),
           ("void f(void) { static char x; }", {"f": (1, "code"), "*0": (0, Z + "1")}), ("void f(void) { static char x = 1; { static char x = 2; } }", {"f": (1, "code"), "*0": (0, "1"), "*1": (0, "2")}),
           ("void f(void) { static char x; } void g(void) { static char x = 3; } char x = 4;", {"f": (1, "code"), "g": (1, "code"), "x": (1, "4"), "*0": (0, Z + "1"), "*1": (0, "3")}),
           ("char x; void f(void) { static char x = 3; }", {"f": (1, "code"), "x": (1, Z + "1"), "*0": (0, "3")}), ("void f(void) { extern int x; }", {"f": (1, "code")}),
           ("void f(void) { extern int x; } int x;", {"f": (1, "code"), "x": (1, Z + "4")}), ("int x; void f(void) { extern int x; }", {"f": (1, "code"), "x": (1, Z + "4")}),
           ("static int x; void f(void) { extern int x; }", {"f": (1, "code"), "x": (0, Z + "4")}), ("static char x = 1; void f(void) { extern char x; { extern char x; } }", {"f": (1, "code"), "x": (0, "1")}),
           ("void f(void) { int x; char y = 1; }", {"f": (1, "code")}), ("void f(void) { void g(void); } static void h(void) { void g(void); }", {"f": (1, "code"), "h": (0, "code")}),
           ("void f(void) { for (static char i = 5;;) break; }", {"f": (1, "code"), "*0": (0, "5")}), ("void f(int x, char y) { typedef int t; struct s { int a; } z; enum { P } e; }", {"f": (1, "code")}),
           ]

# unit, function, the labels its code refers to (an own static object is denoted by its contents)
REFERS = [("int x, y; int f(void) { return x; }", {"f": {"x"}}), ("int x; int f(void) { int x = 1; return x; } int g(void) { return x; }", {"f": set(), "g": {"x"}}),
          ("int x; int f(int x) { return x; } int g(void) { return x; }", {"f": set(), "g": {"x"}}),
          ("int x; int f(void) { { int x = 1; x = 2; } return x; }", {"f": {"x"}}), ("int x; int f(void) { int x = 1; { extern int x; return x; } }", {"f": {"x"}}),
          ("char f(void) { static char x = 1; return x; } char g(void) { static char x = 2; return x; }", {"f": {"=1"}, "g": {"=2"}}),
          ("char f(void) { static char x = 1; { static char x = 2; return x; } }", {"f": {"=2"}}), ("char f(void) { static char x = 1; { static char x = 2; } return x; }", {"f": {"=1"}}),
          ("char f(void) { static char x = 1; { static char x = 2; x++; } return x; }", {"f": {"=1", "=2"}}), ("char x = 9; char f(void) { static char x = 1; return x; } char g(void) { return x; }", {"f": {"=1"}, "g": {"x"}}),
          ("char x = 9; char f(void) { { static char x = 1; } return x; }", {"f": {"x"}}), ("char x = 9; char f(void) { static char y = 1; extern char x; return x + y; }", {"f": {"=1", "x"}}),
          ("int g(void); int f(void) { return g(); }", {"f": {"g"}}), ("static int g(void) { return 0; } int f(void) { return g(); }", {"f": {"g"}, "g": set()}), ("int f(void) { return f(); }", {"f": {"f"}}),
          ("int f(void) { int g(void); return g(); }", {"f": {"g"}}), ("int g(void); int f(int (*g)(void)) { return g(); }", {"f": set()}), ("int g(void); int f(void) { { int g = 1; g = 2; } return g(); }", {"f": {"g"}}),
          ("int x; enum { P = 3 }; int f(void) { return P; } int g(void) { int P = x; return P; }", {"f": set(), "g": {"x"}}), ("int x; int f(void) { enum { x = 2 }; return x; } int g(void) { return x; }", {"f": set(), "g": {"x"}}),
          ("int x; int f(void) { for (int x = 0; x < 2; x++) ; return 1; } int g(void) { for (int y = 0; y < 2; y++) x++; return 1; }", {"f": set(), "g": {"x"}}),
          ("int x; int f(void) { int y = x; int x = y; return x; }", {"f": {"x"}}), ("int x; struct s { int x; }; int f(struct s *p) { return p->x; }", {"f": set()}), ("int x; int f(void) { goto x; x: return 1; }", {"f": set()}),
          ("typedef int t; int x; int f(void) { int t = x; return t; }", {"f": {"x"}}), ("extern int x; int f(void) { return x; } int x = 4;", {"f": {"x"}}), ("int f(void) { extern int x; { extern int y; return x + y; } }", {"f": {"x", "y"}}),
          ("int f(void) { int x = 1; int *p = &x; { int *x = p; return *x; } }", {"f": set()}), ("struct s { struct s *p; }; int f(void) { struct s x = { &x }; return x.p == &x; }", {"f": set()})]


class Emit(Unit):
    def label(self, I, st, v):
        if not isinstance(v, int):
            return show(v)
        key = st.mem.get(("g", "#labelbuf"))
        b = self.X.new(st)
        self.busy = True
        try:
            rs = I.call_body(st.fork(), self.P.need("rodata_get_label"), [v, 128, ("addr", ("i", b, 0))])
        finally:
            self.busy = False
        for s, sig, rv in rs:
            return self.X.chars(I, s, ("addr", ("i", b, 0)))
        return "?"

    def labels_in(self, I, st, v, out):
        """the named labels an operand refers to"""
        if isinstance(v, tuple) and v and v[0] == "addr":
            l = v[1]
            for k in st.mem.below(l, []):
                if k[0] == "f" and k[2] == "label_":
                    x = st.mem[k]
                    if isinstance(x, int) and x >= 0:
                        out.add(self.label(I, st, x))
                self.labels_in(I, st, st.mem[k] if not (isinstance(st.mem[k], tuple) and st.mem[k] and st.mem[k][0] == "addr") else 0, out)
            if l in st.mem and st.mem[l] != v:
                self.labels_in(I, st, st.mem[l], out)
            return out
        if isinstance(v, tuple) and v and v[0] == "struct":
            for n, x in v[2]:
                if n == "label_":
                    if isinstance(x, int) and x >= 0:
                        out.add(self.label(I, st, x))
                else:
                    self.labels_in(I, st, x, out)
        elif isinstance(v, tuple) and v and v[0] in ("arr", "upd"):
            for n, x in (v[1] if v[0] == "arr" else v[2]):
                self.labels_in(I, st, x, out)
            if v[0] == "upd":
                self.labels_in(I, st, v[1], out)
        return out

    def recording(self):
        def m(name):
            def go(I, st, a, n, f):
                if name == "asm_label":
                    args = (a[0], self.label(I, st, a[1]))
                elif name == "asm_section":
                    args = (self.X.chars(I, st, a[0]),)
                elif name.startswith("asm_ins") or name in ("asm_quad", "asm_byte"):
                    args = (tuple(sorted(set().union(*[self.labels_in(I, st, v, set()) for v in a]))), a[0] if name in ("asm_quad", "asm_byte") else 0)
                else:
                    args = tuple(a)
                st.ev = (st.ev, Ev("asm", name, args, locs(n), f.name if f else "?"))
                return [(st, 0)]
            return go
        return {n: m(n) for n in ("asm_section", "asm_ins", "asm_ins0", "asm_ins1", "asm_ins2", "asm_ins3", "asm_label", "asm_quad", "asm_byte", "asm_zero", "asm_string", "asm_align")} | \
               {n: (lambda I, st, a, n, f: [(st, 0)]) for n in ("asm_comment", "asm_finish")}


def imm(v):
    """value of an immediate operand"""
    if isinstance(v, tuple) and v and v[0] == "struct":
        d = dict(v[2])
        if "offset" in d:
            return d["offset"]
        for x in d.values():
            r = imm(x)
            if r is not None:
                return r
    return None


def image(evs):
    """events -> {label: [global, contents, referenced labels]} plus complaints"""
    sec, cur, out, bad = ".text", None, {}, []
    for e in evs:
        if e.k != "asm":
            continue
        if e.name == "asm_section":
            sec, cur = e.args[0], None
        elif e.name == "asm_label":
            g, nm = e.args
            if nm.startswith(".L") and not nm.startswith(".LVAR"):
                continue
            if nm in out:
                bad.append("%s is defined twice" % nm)
            if not isinstance(g, int):
                bad.append("binding of %s is %s" % (nm, show(g)))
            cur = out[nm] = [1 if g else 0, [], set(), sec]
        elif cur is not None:
            if e.name == "asm_zero":
                cur[1].append(Z + str(e.args[0]))
            elif e.name == "asm_byte":
                cur[1].append(str(imm(e.args[1])))
            elif e.name == "asm_quad":
                cur[1].append("q" + str(imm(e.args[1])))
            if e.name in ("asm_byte", "asm_quad") or e.name.startswith("asm_ins"):
                cur[2] |= set(e.args[0])
                if e.name.startswith("asm_ins") and not cur[1]:
                    cur[1].append("code")
    return {k: (v[0], ",".join(v[1]), v[2], v[3]) for k, v in out.items()}, bad


def run(ctx):
    ctx.rule("scope", "an identifier denotes the innermost declaration of its name space whose scope has begun and not ended")
    ctx.rule("visible", "a name whose scope has ended, or that is declared twice with no linkage, is rejected")
    ctx.rule("emitted", "each object and function is defined exactly once, with the binding of its linkage; tentative definitions are zero-initialised unless there is a definition")
    ctx.rule("refers", "the code of a function refers to the objects its identifiers denote")
    units = {}
    for hz in (False, True):
        m = {"hash32": (lambda I, st, a, n, f: [(st, 0)]), "sv_hash": (lambda I, st, a, n, f: [(st, 0)])} if hz else {}
        units[hz] = (Unit(ctx, models=m), Emit(ctx, models=m, record=True))

    def guarded(rule, inst, U, fn):
        U.I.take_dead()
        try:
            r = fn()
        except (Crash, Wrong) as e:
            ctx.ob(rule, inst, False, "front end", str(e))
            return None
        ctx.functions |= U.I.analysed
        ctx.paths += len(r[0]) + len(r[1])
        return r

    def where(dead):
        for d in dead:
            es = [e for e in d.st.events() if e.k == "noreturn"]
            if es:
                return str(es[-1].loc)
        return "front end"

    def scope(hz, srcs, good):
        def go():
            U = units[hz][0]
            for s in srcs:
                inst = s[:170] + (" (one bucket)" if hz else "")
                r = guarded("scope" if good else "visible", inst, U, lambda: U.parse(A(s)))
                if r is None:
                    continue
                if good:
                    ctx.ob("scope", inst, bool(r[0]) and not r[1], where(r[1]), "an identifier does not denote the required declaration (an assertion about it fails, or it is rejected)")
                else:
                    ctx.ob("visible", inst, not r[0], "front end", "accepted")
        return go

    def emitted(hz, rows):
        def go():
            U = units[hz][1]
            for src, want in rows:
                inst = src[:170] + (" (one bucket)" if hz else "")
                r = guarded("emitted", inst, U, lambda: U.compile(src))
                if r is None:
                    continue
                if r[1] or not r[0]:
                    ctx.ob("emitted", inst, False, where(r[1]), "rejected")
                    continue
                for st, _ in r[0]:
                    im, bad = image(st.events())
                    got = {k: v[:2] for k, v in im.items() if not k.startswith(".LVAR")}
                    own = sorted(v[:2] for k, v in im.items() if k.startswith(".LVAR"))
                    named = {k: v for k, v in want.items() if not k.startswith("*")}
                    others = sorted(v for k, v in want.items() if k.startswith("*"))
                    # internal objects of a function may have any name that cannot clash
                    extra = {k: v for k, v in got.items() if k not in named}
                    own = sorted(own + list(extra.values()))
                    got = {k: v for k, v in got.items() if k in named}
                    clash = [k for k in extra if k.replace("_", "a").isalnum() and not k[0].isdigit()]
                    ctx.ob("emitted", inst, got == named and own == others and not bad and not clash, "static data and functions",
                           "defines %s%s, required %s" % (sorted(got.items()) + own, " (%s)" % ", ".join(bad + clash) if bad or clash else "", sorted(want.items())))
        return go

    def refers(hz, rows):
        def go():
            U = units[hz][1]
            for src, want in rows:
                inst = src[:170] + (" (one bucket)" if hz else "")
                r = guarded("refers", inst, U, lambda: U.compile(src))
                if r is None:
                    continue
                if r[1] or not r[0]:
                    ctx.ob("refers", inst, False, where(r[1]), "rejected")
                    continue
                for st, _ in r[0]:
                    im, bad = image(st.events())
                    for fn, labels in want.items():
                        got = {("=" + im[l][1] if l in im and l not in src else l) for l in im.get(fn, (0, "", set()))[2]}
                        ctx.ob("refers", inst + " [" + fn + "]", got == labels, fn, "refers to %s, required %s" % (sorted(got), sorted(labels)))
        return go
    tasks = []
    for hz in (False, True):
        tasks += [scope(hz, SCOPE[i::3], True) for i in range(3)] + [emitted(hz, EMITTED[i::3]) for i in range(3)]
        tasks += [refers(hz, REFERS[i::2]) for i in range(2)]
    tasks += [scope(False, NOT_VISIBLE, False)]
    ctx.parallel(tasks)
