"""Front end: clang AST (JSON) of every translation unit of /repo/src -> compact trees.

The source is parsed on every run from the current working tree; nothing is cached
between runs.  Only declarations located under the repository are kept.
"""
import json, os, subprocess, sys, glob, gc
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis could not be carried out (anchors lost, unparsable source)."""


class N:
    __slots__ = ("k", "t", "v", "ch", "loc", "x", "fn")

    def __init__(self, k, t, v, ch, loc, x=None):
        self.k, self.t, self.v, self.ch, self.loc, self.x = k, t, v, ch, loc, x
        self.fn = None

    def __repr__(self):
        return "N(%s,%s,%r)" % (self.k, self.t, self.v)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed([c for c in n.ch if c is not None]))

    def __getstate__(self):
        return (self.k, self.t, self.v, self.ch, self.loc, self.x)

    def __setstate__(self, s):
        self.k, self.t, self.v, self.ch, self.loc, self.x = s
        self.fn = None


def _type(d):
    t = d.get("type")
    if not t:
        return None
    return (t.get("qualType"), t.get("desugaredQualType", t.get("qualType")))


class _Conv:
    def __init__(self, main):
        self.file = None
        self.line = 0
        self.main = main

    def _upd(self, l):
        if not l:
            return None
        if "spellingLoc" in l or "expansionLoc" in l:
            if "spellingLoc" in l:
                self._upd(l["spellingLoc"])
            r = self._upd(l.get("expansionLoc"))
            return r
        if "file" in l:
            self.file = l["file"]
        if "line" in l:
            self.line = l["line"]
        if "col" in l or "line" in l or "offset" in l:
            return (self.file, self.line, l.get("col", 0))
        return None

    def conv(self, d):
        if not d or "kind" not in d:
            # still nothing to track
            return None
        loc = self._upd(d.get("loc"))
        rng = d.get("range")
        if rng:
            b = self._upd(rng.get("begin"))
            self._upd(rng.get("end"))
            if loc is None:
                loc = b
        k = d["kind"]
        x = {}
        v = None
        if k == "DeclRefExpr":
            r = d["referencedDecl"]
            v = r.get("name")
            x = {"rk": r["kind"], "id": r["id"]}
        elif k in ("IntegerLiteral", "CharacterLiteral"):
            v = int(d["value"])
        elif k == "FloatingLiteral":
            v = float(d["value"])
        elif k == "StringLiteral":
            v = _unq(d["value"])
        elif k in ("BinaryOperator", "UnaryOperator", "CompoundAssignOperator"):
            v = d["opcode"]
            if d.get("isPostfix"):
                x["post"] = True
            if "computeResultType" in d:
                x["crt"] = d["computeResultType"].get("desugaredQualType", d["computeResultType"]["qualType"])
        elif k in ("ImplicitCastExpr", "CStyleCastExpr"):
            v = d.get("castKind")
        elif k == "MemberExpr":
            v = d.get("name", "")
            x = {"arrow": d.get("isArrow", False)}
        elif k == "UnaryExprOrTypeTraitExpr":
            v = d.get("name")
            a = d.get("argType")
            if a:
                x["arg"] = a.get("desugaredQualType", a["qualType"])
        elif k == "ConstantExpr":
            v = d.get("value")
        elif k == "GotoStmt":
            v = d.get("targetLabelDeclId")
        elif k == "LabelStmt":
            v = d.get("declId")
            x["name"] = d.get("name")
        elif k == "IfStmt":
            x["else"] = d.get("hasElse", False)
        elif k == "InitListExpr":
            f = d.get("field")
            if f:
                x["field"] = f.get("name", "")
        elif k in ("VarDecl", "ParmVarDecl", "FunctionDecl", "FieldDecl", "EnumConstantDecl",
                   "RecordDecl", "EnumDecl", "TypedefDecl"):
            v = d.get("name")
            x = {"id": d["id"]}
            for key in ("storageClass", "isBitfield", "tagUsed", "completeDefinition", "init",
                        "previousDecl", "variadic", "inline"):
                if key in d:
                    x[key] = d[key]
        elif k == "PredefinedExpr":
            v = d.get("name")
        t = _type(d)
        ch = []
        if k == "InitListExpr" and "array_filler" in d:
            for c in d["array_filler"]:
                cc = self.conv(c)
                if cc is not None:
                    ch.append(cc)
            # clang puts the filler first, then explicit elements
            if ch and ch[0].k == "ImplicitValueInitExpr":
                ch = ch[1:]
                x["filler"] = True
        for c in d.get("inner", ()):
            if c.get("kind", "").endswith("Comment") and "Comment" in c.get("kind", ""):
                continue
            cc = self.conv(c)
            if k in ("ForStmt",):
                ch.append(cc)
            elif cc is not None:
                ch.append(cc)
        return N(k, t, v, ch, loc, x or None)


def _unq(s):
    # JSON value is the C spelling with quotes
    pre = ""
    i = s.index('"')
    body = s[i + 1:-1]
    out = []
    j = 0
    m = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "a": "\a", "b": "\b", "f": "\f", "v": "\v",
         '"': '"', "'": "'", "\\": "\\", "?": "?"}
    while j < len(body):
        c = body[j]
        if c == "\\" and j + 1 < len(body):
            j += 1
            c = body[j]
            if c in "01234567":
                o = ""
                while j < len(body) and len(o) < 3 and body[j] in "01234567":
                    o += body[j]
                    j += 1
                out.append(chr(int(o, 8)))
                continue
            if c == "x":
                j += 1
                o = ""
                while j < len(body) and body[j] in "0123456789abcdefABCDEF":
                    o += body[j]
                    j += 1
                out.append(chr(int(o, 16) & 0xff))
                continue
            out.append(m.get(c, c))
        else:
            out.append(c)
        j += 1
    return "".join(out)


def parse_tu(path):
    cmd = ["clang", "-fsyntax-only", "-w", "-Isrc", "-I.", '-DCONFIG_PATH="config.def.h"',
           "-Xclang", "-ast-dump=json", path]
    p = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise AnalysisError("clang failed on %s: %s" % (path, p.stderr.decode()[-800:]))
    gc.disable()
    d = json.loads(p.stdout)
    c = _Conv(path)
    keep = []
    for top in d.get("inner", ()):
        n = c.conv(top)
        if n is None:
            continue
        f = c_file(n)
        if f and (f.startswith("src/") or f.startswith("./src/") or f.startswith("config")):
            keep.append(n)
        elif n.k == "FunctionDecl":
            # library prototype
            n.ch = [q for q in n.ch if q.k == "ParmVarDecl"]
            keep.append(n)
    gc.enable()
    return path, keep


def c_file(n):
    return os.path.normpath(n.loc[0]) if n.loc and n.loc[0] else None


class Func:
    def __init__(self, name, node, tu):
        self.name, self.node, self.tu = name, node, tu
        self.params = [c for c in node.ch if c.k == "ParmVarDecl"]
        self.body = next((c for c in node.ch if c.k == "CompoundStmt"), None)
        self.static = (node.x or {}).get("storageClass") == "static"
        self.loc = node.loc
        self.rtype = node.t[0].split("(")[0].strip()
        self.file = c_file(node)

    def __repr__(self):
        return "Func(%s)" % self.name


class Program:
    """All translation units, linked by name."""

    def __init__(self, paths=None):
        if paths is None:
            paths = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
            paths = [os.path.relpath(p, REPO) for p in paths]
        self.paths = paths
        self.tus = {}
        if not paths:
            raise AnalysisError("no sources")
        # config.def.h is the tracked configuration; config.h is generated from it.
        with ProcessPoolExecutor(max_workers=8) as ex:
            for p, keep in ex.map(parse_tu, paths, chunksize=2):
                self.tus[p] = keep
        self.funcs = {}          # name -> Func (external) ; static: also (tu,name)
        self.sfuncs = {}         # (tu,name)
        self.records = {}        # type string -> list of (fieldname, typestr, isbit)
        self.enums = {}          # enumerator -> value
        self.enum_types = {}     # enum name -> [enumerators]
        self.globals = {}        # name -> VarDecl node with best init ; static keyed (tu,name) too
        self.sglobals = {}
        self.protos = set()
        self.enum_of = {}
        for p in paths:
            seen = set()
            for n in self.tus[p]:
                self._top(p, n)
        self.all_funcs = sorted(set(self.sfuncs.values()), key=lambda f: (f.file or "", f.loc[1]))
        for f in self.all_funcs:
            for n in f.node.walk():
                if n.k in ("RecordDecl",):
                    self._record(n)
                elif n.k == "EnumDecl":
                    self._enum(n)
                n.fn = f

    def _top(self, p, n):
        if n.k == "FunctionDecl":
            f = Func(n.v, n, p)
            if f.body is None:
                self.protos.add(n.v)
                return
            self.sfuncs[(p, n.v)] = f
            if not f.static:
                self.funcs[n.v] = f
            else:
                self.funcs.setdefault(n.v, f)
        elif n.k == "VarDecl":
            has_init = len(n.ch) > 0
            st = (n.x or {}).get("storageClass")
            if st == "extern" and not has_init:
                return
            key = (p, n.v)
            if key not in self.sglobals or has_init:
                self.sglobals[key] = n
                n.x["tu"] = p
            if n.v not in self.globals or (has_init and not self.globals[n.v].ch):
                self.globals[n.v] = n
        elif n.k == "RecordDecl":
            self._record(n)
        elif n.k == "EnumDecl":
            self._enum(n)

    def _record(self, n):
        if not (n.x or {}).get("completeDefinition"):
            return
        fields = []
        anon = 0
        for c in n.ch:
            if c.k == "FieldDecl":
                fields.append((c.v or "", c.t[1], c.x.get("isBitfield", False)))
            elif c.k == "RecordDecl":
                self._record(c)
            elif c.k == "EnumDecl":
                self._enum(c)
        tag = n.x.get("tagUsed", "struct")
        keys = []
        if n.v:
            keys.append("%s %s" % (tag, n.v))
        if n.loc:
            keys.append("@%s:%d:%d" % (os.path.normpath(n.loc[0]), n.loc[1], n.loc[2]))
        for k in keys:
            self.records[k] = (tag, fields)

    def _enum(self, n):
        cur = 0
        names = []
        for c in n.ch:
            if c.k == "EnumConstantDecl":
                ce = next((q for q in c.walk() if q.k == "ConstantExpr"), None)
                if ce is not None and ce.v is not None:
                    cur = int(ce.v)
                self.enums[c.v] = cur
                names.append(c.v)
                cur += 1
        if n.v:
            self.enum_types[n.v] = names
        elif names:
            self.enum_types["@" + names[0]] = names
        for nm in names:
            self.enum_of[nm] = names

    def record(self, tstr):
        c = self.__dict__.setdefault("_reccache", {})
        if tstr not in c:
            c[tstr] = self.record_(tstr)
        return c[tstr]

    def record_(self, tstr):
        t = tstr.replace("const ", "").replace("volatile ", "").strip()
        if t.endswith("const"):
            t = t[:-5].strip()
        r = self.records.get(t)
        if r:
            return r
        if " at " in t and "(" in t:
            m = t[t.index(" at ") + 4:].rstrip(")")
            parts = m.rsplit(":", 2)
            key = "@%s:%s:%s" % (os.path.normpath(parts[0]), parts[1], parts[2])
            return self.records.get(key)
        return None

    def func(self, name, tu=None):
        if tu is not None and (tu, name) in self.sfuncs:
            return self.sfuncs[(tu, name)]
        return self.funcs.get(name)

    def need(self, name):
        f = self.funcs.get(name)
        if f is None:
            raise AnalysisError("anchor function %s not found" % name)
        return f

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisError("anchor enumerator %s not found" % name)
        return self.enums[name]

    def enum_names(self, member):
        """all enumerators of the enum that defines MEMBER, in order"""
        if member not in self.enum_of:
            raise AnalysisError("anchor enumerator %s not found" % member)
        return self.enum_of[member]


def callee_name(call):
    """direct callee name of a CallExpr or None"""
    c = call.ch[0]
    while c.k in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"):
        c = c.ch[0]
    if c.k == "DeclRefExpr" and c.x["rk"] == "FunctionDecl":
        return c.v
    return None


def locs(n):
    if n is None or not n.loc:
        return "?"
    return "%s:%s" % (os.path.normpath(n.loc[0]) if n.loc[0] else "?", n.loc[1])
