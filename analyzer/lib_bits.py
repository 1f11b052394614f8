"""Bit-vector normal forms for terms of the abstract interpreter (64-bit host arithmetic)."""
from absint import show
from lib_expr import lin

M64 = (1 << 64) - 1


def unsc(t):
    while isinstance(t, tuple):
        if t[0] == "sc":
            t = t[2]
        elif t[0] == "cast" and t[1] == 64:
            t = t[3]
        elif t[0] == "b" and t[1] == "&" and t[3] in (M64, -1):
            t = t[2]
        else:
            break
    return t


def member(t):
    """(object, 'int_d'/'uint_d'/...) of a member access term"""
    t = unsc(t)
    if isinstance(t, tuple) and t[0] == "p" and "." in t[1]:
        o, m = t[1].rsplit(".", 1)
        return o, m
    return None


def signedness(t, tt):
    """host signedness of an operand: True/False, None for a constant"""
    if isinstance(t, int):
        return None
    if t[0] == "sc":
        return t[1][1]
    if t in tt:
        return tt[t][1]
    return None


_TT = {}


def canon(t):
    """linear form modulo 2^64 where int_d/uint_d of one object are the same atom"""
    def atom(a):
        m = member(a)
        if m and m[1] in ("int_d", "uint_d"):
            return ("bits", m[0])
        if isinstance(a, tuple) and a[0] == "b" and a[1] in ("/", "%", ">>", "<<", "&", "|", "^", "<", "<=", "=="):
            x, y = a[2], a[3]
            sg = None
            if a[1] in ("/", "%", "<", "<="):
                ss = [signedness(q, _TT) for q in (x, y)]
                sg = all(q is not False for q in ss)
            elif a[1] == ">>":
                sg = signedness(x, _TT) is not False
            cx, cy = frozenset(canon(x).items()), frozenset(canon(y).items())
            if a[1] in ("&", "|", "^", "==") and str(sorted(map(str, cy))) < str(sorted(map(str, cx))):
                cx, cy = cy, cx
            return (a[1], sg, cx, cy)
        if isinstance(a, tuple) and a[0] == "!":
            return ("!", frozenset(canon(a[1]).items()))
        return a
    out = {}
    for k, v in lin_sc(t).items():
        kk = atom(k) if k is not None else None
        out[kk] = (out.get(kk, 0) + v) & M64
    return {k: v for k, v in out.items() if v}


def lin_sc(t):
    t = unsc(t)
    if isinstance(t, tuple) and t[0] == "u" and t[1] == "-":
        return {k: -v for k, v in lin_sc(t[2]).items()}
    if isinstance(t, tuple) and t[0] == "u" and t[1] == "~":
        r = {k: -v for k, v in lin_sc(t[2]).items()}
        r[None] = r.get(None, 0) - 1
        return r
    if isinstance(t, tuple) and t[0] == "b" and t[1] in ("+", "-", "*"):
        a, b = lin_sc(t[2]), lin_sc(t[3])
        if t[1] == "*":
            if set(a) <= {None}:
                return {k: v * a.get(None, 0) for k, v in b.items()}
            if set(b) <= {None}:
                return {k: v * b.get(None, 0) for k, v in a.items()}
            return {t: 1}
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[1] == "+" else -v)
        return r
    if isinstance(t, tuple) and t[0] == "b" and t[1] == "/" and t[3] == -1:
        return {k: -v for k, v in lin_sc(t[2]).items()}
    if isinstance(t, tuple) and t[0] == "b" and t[1] == "%" and t[3] in (1, -1):
        return {}
    if isinstance(t, int):
        return {None: t}
    return {t: 1}


def boolean(t):
    """the comparison hidden under masks and casts that keep 0 and 1"""
    while True:
        t = unsc(t)
        if isinstance(t, tuple) and t[0] == "b" and t[1] in ("+", "-"):
            l = {k: v & M64 for k, v in lin_sc(t).items() if v & M64}
            if len(l) == 1 and None not in l and list(l.values()) == [1]:
                t = list(l)[0]
                continue
        elif isinstance(t, tuple) and t[0] == "u" and t[1] == "-":
            l = {k: v & M64 for k, v in lin_sc(t).items() if v & M64}
            if len(l) == 1 and None not in l and list(l.values()) == [1]:
                t = list(l)[0]
                continue
        elif isinstance(t, tuple) and t[0] == "b" and t[1] == "&" and isinstance(t[3], int) and t[3] & 1:
            y = boolean(t[2])
            if isinstance(y, tuple) and (y[0] == "!" or (y[0] == "b" and y[1] in ("==", "<", "<="))):
                return y
        elif isinstance(t, tuple) and t[0] == "cast":
            y = boolean(t[3])
            if isinstance(y, tuple) and (y[0] == "!" or (y[0] == "b" and y[1] in ("==", "<", "<="))):
                return y
        return t


def low(t):
    """T as (term, width): value = term mod 2^width; peels truncations"""
    t = unsc(t)
    if isinstance(t, tuple) and t[0] == "cast":
        x, w = low(t[3])
        return (x, min(w, t[1]))
    if isinstance(t, tuple) and t[0] == "b" and t[1] == "&" and isinstance(t[3], int):
        m = t[3] & M64
        if m and (m & (m + 1)) == 0:
            x, w = low(t[2])
            return (x, min(w, m.bit_length()))
    return (t, 64)


def reduces(I, p, t, w, signed, want):
    """does term T, on path P, equal WANT (a term) reduced to W bits with the given signedness (mod 2^64)?
    Returns True/False/None (None: cannot tell)."""
    global _TT
    _TT = I.tt
    iv0 = I.interval(p.st, t) if not isinstance(t, int) else (0, t, t)
    rlo, rhi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if iv0[1] is not None and iv0[2] is not None and rlo <= iv0[1] and iv0[2] <= rhi and same_mod(t, want, w):
        return True
    t = unsc(t)
    if w == 64:
        x, lw = low(t)
        return lw == 64 and canon(x) == canon(want) or canon(t) == canon(want)
    M = (1 << w) - 1
    if isinstance(t, int) or isinstance(want, int):
        if isinstance(t, int) and isinstance(want, int):
            v = want & M
            if signed and v >> (w - 1):
                v -= 1 << w
            return (t & M64) == (v & M64)
        return None
    if isinstance(t, tuple) and t[0] == "cast" and t[1] == w and bool(t[2]) == signed:
        x, lw = low(t[3])
        return lw >= w and same_mod(x, want, w)
    # arithmetic-shift idiom
    if signed and isinstance(t, tuple) and t[0] == "b" and t[1] == ">>" and t[3] == 64 - w:
        y = unsc(t[2])
        if isinstance(y, tuple) and y[0] == "b" and y[1] == "<<" and y[3] == 64 - w and signedness(t[2], I.tt) is not False:
            return same_mod(y[2], want, w)
    # linear in a masked value
    l = lin_sc(t)
    atoms = [k for k in l if k is not None]
    if len(atoms) == 1 and l[atoms[0]] == 1:
        m = atoms[0]
        x, lw = low(m)
        c = l.get(None, 0) & M64
        iv = I.interval(p.st, m)
        if lw == w and same_mod(x, want, w):
            hi = 1 << (w - 1)
            if not signed:
                return c == 0
            if c == 0:
                return iv[2] is not None and iv[2] < hi
            if c == (-(1 << w)) & M64:
                return iv[1] is not None and iv[1] >= hi
            return False
        return False
    return False


def same_mod(x, want, w):
    """x == want modulo 2^w, by linear normal form"""
    a, b = canon(x), canon(want)
    mk = (1 << w) - 1
    r = {}
    for k in set(a) | set(b):
        r[k] = (a.get(k, 0) - b.get(k, 0)) & mk
    return not any(r.values())
