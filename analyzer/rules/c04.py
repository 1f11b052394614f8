"""Scalar type sizes, alignments, signedness and the platform's chosen types."""
from lib import *

EXPLANATION = ("Path-sensitive constant propagation of the ABI initialisers, of the size function they install and of the "
               "size/alignment/signedness queries, partitioned over every basic type of each target ABI; "
               "every value is compared with the published ABI table.")


def run(ctx):
    P = ctx.P
    ctx.rule("size", "for every basic type T and target ABI, the size query returns the ABI's size of T")
    ctx.rule("align", "for every basic type T and target ABI, the alignment query returns the ABI's alignment of T")
    ctx.rule("derived", "pointer size/alignment is 8; array size is length*element; array alignment is the element's; "
                        "struct size/alignment are the layout's")
    ctx.rule("sign", "signedness query: char and the signed integer types are signed, unsigned types and _Bool are not")
    ctx.rule("class", "integer/floating classification covers every basic type exactly once")
    ctx.rule("chosen", "size_t, ptrdiff_t, wchar_t and pointers use the ABI's types")
    ctx.rule("macros", "the ABI's data-model macros are predefined, and only those of that ABI")
    for abi in ("sysv", "ms"):
        genv = abi_genv(ctx, abi)
        env, p = abi_env(ctx, abi)
        info = dict(env["abi_info"][2]) if isinstance(env.get("abi_info"), tuple) else {}
        want = {"sysv": {"pointer_type": "ST_ULONG", "size_type": "ST_ULONG", "wchar_type": "ST_INT",
                         "ptrdiff_type": "ST_LONG"},
                "ms": {"pointer_type": "ST_ULLONG", "size_type": "ST_ULLONG", "wchar_type": "ST_USHORT",
                       "ptrdiff_type": "ST_LLONG"}}[abi]
        where = ABI_INIT[abi]
        for k, v in want.items():
            ctx.ob("chosen", "%s.%s" % (abi, k), info.get(k) == P.enum(v), where,
                   "%s must be %s, is %s" % (k, v, info.get(k)))
        ctx.ob("chosen", "%s.va_list_is_reference" % abi, info.get("va_list_is_reference") == int(abi == "ms"), where,
               "va_list representation")
        defs = {e.args[0][1]: e.args[1][1] for q in [p] for e in q.calls("define_string") if e.args[0][0] == "str"}
        wantdef = {"sysv": {"__LP64__": "1"}, "ms": {"_WIN32": "1", "_WIN64": "1", "__LLP64__": "1"}}[abi]
        for k, v in wantdef.items():
            ctx.ob("macros", "%s.%s" % (abi, k), defs.get(k) == v, where, "macro %s must be predefined as %s" % (k, v))
        other = {"sysv": ("_WIN32", "_WIN64", "__LLP64__"), "ms": ("__LP64__", "_LP64")}[abi]
        for k in other:
            ctx.ob("macros", "%s.no-%s" % (abi, k), k not in defs, where, "macro %s of the other data model predefined" % k)

        inl = abi_inline(ctx, abi) + ["calculate_size", "calculate_alignment", "alignof_simple", "alignof_struct"] + TYPE_PREDS

        def q(fn, t, extra=None):
            table = {("sd:s", "size"): ("p", "S"), ("sd:s", "alignment"): ("p", "A"), ("sd:s", "is_complete"): 1}
            I = ctx.interp(inline=inl, models=TYPE_MODELS, globals_const=genv,
                           load_hook=hooks(type_hook, obj_hook(table)))
            I.max_rec = 6
            r = [x.ret for x in ctx.run(I, fn, args={0: t})]
            I.take_dead()
            return r

        for s in ST_ALL:
            w = sizes(abi)[s]
            t = simple(P, s)
            r = q("calculate_size", t)
            ctx.ob("size", "%s.%s" % (abi, s), r == [w], "calculate_size", "size of %s is %s, ABI says %d" % (s, r, w))
            if s != "ST_VOID":
                r = q("calculate_alignment", t)
                ctx.ob("align", "%s.%s" % (abi, s), r == [w], "calculate_alignment",
                       "alignment of %s is %s, ABI says %d" % (s, r, w))
                for ty, e in ((array(t, ("p", "n")), w), (incarray(t), w)):
                    r = q("calculate_alignment", ty)
                    ctx.ob("derived", "%s.align-%s-%s" % (abi, ty[1], s), r == [e], "calculate_alignment",
                           "alignment of array of %s is %s" % (s, r))
                r = q("calculate_size", array(t, 7))
                ctx.ob("derived", "%s.size-array-%s" % (abi, s), r == [7 * w], "calculate_size",
                       "size of array[7] of %s is %s" % (s, r))
        pt = ptr(simple(P, "ST_CHAR"))
        for fn in ("calculate_size", "calculate_alignment"):
            r = q(fn, pt)
            ctx.ob("derived", "%s.%s-pointer" % (abi, fn), r == [8], fn, "pointer: %s" % r)
        ctx.ob("derived", "%s.size-array-array" % abi, q("calculate_size", array(array(pt, 3), 5)) == [120],
               "calculate_size", "size of char*[5][3]")
        ctx.ob("derived", "%s.struct-size" % abi, q("calculate_size", struct("s")) == [("p", "S")], "calculate_size",
               "struct size")
        ctx.ob("derived", "%s.struct-align" % abi, q("calculate_alignment", struct("s")) == [("p", "A")],
               "calculate_alignment", "struct alignment")
        ctx.ob("derived", "%s.array-of-struct-align" % abi,
               q("calculate_alignment", array(struct("s"), 4)) == [("p", "A")], "calculate_alignment", "array of struct")
    # signedness and classification do not depend on the ABI
    I = ctx.interp(inline=TYPE_PREDS, models=TYPE_MODELS, load_hook=type_hook)
    for s in INTS:
        r = [x.ret for x in ctx.run(I, "is_signed", args={0: P.enum(s)})]
        ctx.ob("sign", s, r == [int(s in SIGNED)], "is_signed", "signedness of %s is %s" % (s, r))
    for s in ST_ALL:
        t = simple(P, s)
        for fn, w in (("type_is_integer", s in INTS), ("type_is_floating", s in ("ST_FLOAT", "ST_DOUBLE", "ST_LDOUBLE")),
                      ("type_is_arithmetic", s != "ST_VOID"), ("is_scalar", True), ("type_is_pointer", False),
                      ("type_is_aggregate", False)):
            r = [int(bool(x.ret)) if isinstance(x.ret, int) else x.ret for x in ctx.run(I, fn, args={0: t})]
            ctx.ob("class", "%s.%s" % (fn, s), r == [int(w)], fn, "%s(%s) = %s" % (fn, s, r))
    sh = {"type_is_integer": (), "type_is_floating": (), "type_is_arithmetic": (), "is_scalar": ("ptr",),
          "type_is_pointer": ("ptr",), "type_is_aggregate": ("array", "incarray", "struct")}
    c = simple(P, "ST_CHAR")
    for t in (ptr(c), array(c, 3), incarray(c), func(c), struct("s")):
        for fn, ks in sh.items():
            r = [int(bool(x.ret)) if isinstance(x.ret, int) else x.ret for x in ctx.run(I, fn, args={0: t})]
            ctx.ob("class", "%s.%s" % (fn, t[1]), r == [int(t[1] in ks)], fn, "%s(%s) = %s" % (fn, t[1], r))


FLOORS = {"size": 32, "align": 30, "sign": 12, "class": 100, "chosen": 8, "macros": 8}
