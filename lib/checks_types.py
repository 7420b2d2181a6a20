"""The generated code of every feature combination against the type checker
(C28).  A witness is a schema; the repository's generator emits its code, rustc's
type and borrow checker decides."""
import collections
import itertools
import json
import os
import subprocess
import tempfile

import build
import corpus as K

RUST = "2021"


# ------------------------------------------------------------------ witnesses

def structs():
    """structures to refer to: (name, single raw field or not)"""
    E = K.enum_view("Kind")
    return [
        K.struct("Byte", K.U("v", 8)), K.struct("Odd", K.U("v", 24)), K.struct("Bits", K.U("v", 5)), K.struct("Huge", K.U("v", 64)),
        K.struct("Sbyte", K.S("v", 8)), K.struct("Sbits", K.S("v", 13)), K.struct("Sodd", K.S("v", 40)), K.struct("Flag", K.F("v", "boolean", 1)), K.struct("Flag8", K.F("v", "boolean", 8)),
        K.struct("Flt", K.F("v", "float", 32)), K.struct("Dbl", K.F("v", "float", 64)), K.struct("Enu", K.U("v", 8, view=E)), K.struct("EnuBits", K.U("v", 3, view=E)),
        K.struct("Ranged", K.F("v", "float", 16, view={"type": "float-range", "min": -1.0, "max": 1.0})),
        K.struct("Head", K.U("kind", 8, view=E), K.U("n", 8)), K.struct("Pair", K.U("a", 4), K.S("b", 12)),
        K.struct("Nest", K.ST("head", "Head"), K.U("x", 16)), K.struct("One", K.ST("head", "Head")), K.struct("Arr", K.U("xs", 16, array_len=3)),
    ]


ENUMS = [{"name": "Kind", "variants": {"A": 0, "B": 2, "C": 5}}]
LOCAL = {"enums": ENUMS, "structs": structs()}
NO_LIFETIME = ("Byte", "Odd", "Huge", "Flt", "Enu")


def inner():
    """messages to refer to"""
    return [
        K.message("Empty"), K.message("Plain", K.item("v", "Byte")), K.message("PlainOpt", K.item("v", "Byte", True)), K.message("Text", K.string("s")), K.message("Text8", K.string("s", 255)), K.message("OptText", K.string("s", None, True)),
        K.message("View", K.item("h", "Head")), K.message("OptView", K.item("h", "Head", True)), K.message("Array", K.lst("xs", "Head", 10)), K.message("Wraps", K.item("t", "Text"), K.item("p", "Plain")),
        K.message("WrapsPlain", K.item("p", "Plain"), K.item("e", "Empty")), K.message("OptWraps", K.item("t", "Text", True), K.item("p", "Plain", True)), K.message("List", K.lst("l", "Text", 300)), K.message("Data", K.payload("p")),
        K.message("OptData", K.payload("p", True)), K.message("Union", K.item("h", "Head"), K.union_f("u", "UMix", "h")), K.message("UnionNone", K.item("h", "Head"), K.union_f("u", "UNone", "h")),
    ]


def unions():
    return [K.union("UMix", "Head.kind", K.case("None", "A"), K.case("Pair", "B", "Pair"), K.case("Nest", "C", "Nest")), K.union("UNone", "Head.kind", K.case("X", "A"), K.case("Y", "B"))]


def proto(name, end, **k):
    return dict({"name": name, "endianness": end}, **k)


POOL = {x["name"] for x in ENUMS + structs() + unions() + inner()}


def needed(k):
    """the declarations without those to refer to which nothing refers to"""
    own = [(kind, x) for kind in ("enums", "structs", "unions", "messages") for x in k.get(kind, ())]
    use = [x for _, x in own if x["name"] not in POOL]
    if not use:
        return k
    keep, by = set(), {x["name"]: x for _, x in own}
    while use:
        x = use.pop()
        if x["name"] in keep:
            continue
        keep.add(x["name"])
        refs = [x.get("discriminant", "").split(".")[0]] + [c.get("item_type") for c in x.get("cases", ())]
        for f in x.get("fields", ()):
            refs += [f["info"].get("item_type"), (f.get("view") or {}).get("name")]
        use += [by[r] for r in refs if r in by]
    return {kind: [x for x in xs if x["name"] in keep] for kind, xs in k.items()}


def witnesses():
    """[(label, schema, {imported schema: path})]; the imported schemas come first"""
    out = []
    names_s = [s["name"] for s in structs()]
    names_m = [m["name"] for m in inner()]
    n = itertools.count()
    for end in ("little", "big"):
        base = "b" + end[0]
        own = dict(LOCAL, unions=unions(), messages=inner())
        out.append(("everything to refer to, " + end, proto(base, end, **own), {}))
        imp = {base: "crate::" + base}

        def add(label, imports, **k):
            name = "w%d" % next(n)
            s = proto(name, end, **needed(k))
            if imports:
                s["imports"] = [{"protocol": base, "type": t} for t in imports]
            out.append(("%s, %s" % (label, end), s, imp if imports else {}))
        # a field of each kind, of a local or an imported type, optional or not, alone, first, in the middle and last
        fields = [("string of at most %s" % m, (), lambda o, m=m: K.string("f", m, o)) for m in (None, 200, 300, 70000)] + [("payload", (), lambda o: K.payload("f", o))]
        for t in names_s + names_m:
            fields.append(("item " + t, (t,), lambda o, t=t: K.item("f", t, o)))
            for m in (10, 300, 70000):
                if m == 10 or t in ("Head", "Byte", "Text", "Plain"):
                    fields.append(("list of %s of at most %d" % (t, m), (t,), lambda o, t=t, m=m: K.lst("f", t, m, o)))
        places = [("alone", [], []), ("first", [], [K.item("z", "Byte")]), ("last", [K.string("a"), K.item("b", "Head")], []), ("between", [K.item("a", "Pair")], [K.string("z", 255), K.item("y", "Flt")])]
        for label, refs, f in fields:
            for o in (None, True):
                ok = "optional " * bool(o) + label
                ms = [(p, K.message("M", *(a + [f(o)] + z))) for p, a, z in places]
                for p, m in ms:
                    add("%s, %s" % (ok, p), (), **dict(LOCAL, unions=unions(), messages=inner() + [m]))
                    if refs:
                        used = sorted({x["info"]["item_type"] for x in m["fields"] if "item_type" in x["info"]})
                        add("%s, imported, %s" % (ok, p), used, messages=[m])
        # unions: discriminants of each kind, cases of each kind, and unions in messages
        discs = {"Head.kind": ("A", "B", "C"), "Enu.v": ("A", "B", "C"), "EnuBits.v": ("A", "B", "C"), "Byte.v": (0, 1, 255), "Bits.v": (0, 1, 31), "Huge.v": (0, 1, (1 << 64) - 1), "Sbyte.v": (-1, 0, 127), "Sbits.v": (-4096, 0, 4095),
                 "Flag.v": (0, 1), "Flag8.v": (0, 1), "Nest.head.kind": ("A", "C", "B"), "One.head.n": (0, 1, 2), "Pair.a": (0, 1, 15), "Pair.b": (-2048, 0, 2047), "Odd.v": (0, 1, 1 << 23)}
        for d, vals in discs.items():
            for kinds in itertools.product((None, "Pair", "Byte"), repeat=min(2, len(vals))):
                cs = [K.case("C%d" % i, vals[i], t) for i, t in enumerate(kinds)] + [K.case("Rest", v) for v in vals[2:]]
                root = d.split(".")[0]
                m = [K.message("M", K.item("d", root), K.union_f("f", "Un", "d"), K.item("z", "Byte"))]
                add("union on %s of cases %s, in a message" % (d, kinds), (), **dict(LOCAL, unions=[K.union("Un", d, *cs)], messages=m))
                add("union on %s of cases %s" % (d, kinds), (), **dict(LOCAL, unions=[K.union("Un", d, *cs)]))
                add("union on imported %s of cases %s" % (d, kinds), sorted({root} | {t for t in kinds if t}), unions=[K.union("Un", d, *cs)])
        for t in names_s + names_m:
            for others in ((), ("none",), ("Pair",)):
                cs = [K.case("It", "A", t)] + [K.case("Other", "B", None if x == "none" else x) for x in others]
                m = [K.message("M", K.item("d", "Head"), K.union_f("f", "Un", "d"), K.string("z"))]
                if t in names_s:
                    add("union with an item %s and %s" % (t, others), (), **dict(LOCAL, unions=[K.union("Un", "Head.kind", *cs)], messages=m))
                add("union with an imported item %s and %s" % (t, others), sorted({"Head", t} | {x for x in others if x != "none"}), unions=[K.union("Un", "Head.kind", *cs)], messages=m)
        for u in ("UMix", "UNone"):
            add("imported union %s" % u, ["Head", u], messages=[K.message("M", K.item("d", "Head"), K.union_f("f", u, "d"), K.string("z"))])
            add("two unions on one discriminant %s" % u, ["Head", u], messages=[K.message("M", K.item("d", "Head"), K.union_f("f", u, "d"), K.union_f("g", u, "d"))])
        # structure fields: kinds and views, alone and together, local and imported types
        fs = [("unsigned %d" % w, K.U("f", w)) for w in (1, 7, 8, 9, 16, 17, 24, 31, 32, 33, 40, 63, 64)] + [("signed %d" % w, K.S("f", w)) for w in (1, 2, 7, 8, 9, 16, 17, 24, 31, 32, 33, 40, 63, 64)]
        fs += [("boolean %d" % w, K.F("f", "boolean", w)) for w in (1, 2, 8, 16)] + [("float %d" % w, K.F("f", "float", w)) for w in (32, 64)]
        fs += [("float %d by %s" % (w, v["type"]), K.F("f", "float", w, view=v)) for w in (7, 8, 12, 16, 24, 31, 32, 48, 64) for v in ({"type": "float-range", "min": -1.5, "max": 1e9}, {"type": "float-range", "min": 0.0, "max": 1e-9}, {"type": "float-multiplier", "multiplier": 1e-30})]
        fs += [("enumeration of %d bits" % w, K.U("f", w, view=K.enum_view("Kind"))) for w in (3, 4, 8, 9, 16, 24, 32, 33, 64)]
        fs += [("array of %d %s %d" % (l, t, w), K.F("f", t, w, array_len=l)) for l in (1, 2, 100) for t in ("unsigned", "signed") for w in (8, 16, 24, 32, 48, 64)] + [("array of %d float %d" % (l, w), K.F("f", "float", w, array_len=l)) for l in (2, 9) for w in (32, 64)]
        fs += [("structure " + t, K.ST("f", t)) for t in names_s]
        for label, f in fs:
            refs = [f["info"].get("item_type")] if f["info"].get("item_type") else ["Kind"] if "enumeration" in label else []
            for p, a, z in (("alone", [], []), ("with others", [K.U("a", 3), K.U("b", 5)], [K.U("y", 8), K.S("z", 16)])):
                st = K.struct("S", *(a + [f] + z))
                use = [K.message("M", K.item("s", "S"), K.item("o", "S", True), K.lst("l", "S", 10))]
                add("field: %s, %s" % (label, p), (), **dict(LOCAL, structs=structs() + [st], messages=use))
                if refs:
                    add("field: imported %s, %s" % (label, p), refs, structs=[st], messages=use)
        # enumerations
        for label, vs in (("one variant", {"A": 0}), ("large values", {"A": 0, "B": 255}), ("unordered", {"B": 9, "A": 3}), ("16 bits", {"A": 1, "B": 65535}), ("32 bits", {"A": 1, "B": 4294967295}), ("64 bits", {"A": 1, "B": (1 << 53)})):
            w = max(1, max(vs.values()).bit_length())
            add("enumeration: " + label, (), enums=[{"name": "E", "variants": vs}], structs=[K.struct("S", K.U("f", w, view=K.enum_view("E"))), K.struct("S2", K.U("f", -(-w // 8) * 8, view=K.enum_view("E")), K.U("g", 8))],
                messages=[K.message("M", K.item("s", "S"), K.item("t", "S2", True))])
        if end == "little":
            for label, k in itertools.chain(names(), limits()):
                add(label, (), **k)
        for label, k in (("nothing", {}), ("only enumerations", {"enums": ENUMS}), ("only structures", {"structs": [structs()[0]]}), ("only an empty message", {"messages": [K.message("Empty")]}),
                         ("an empty structure", {"structs": [K.struct("S")]}), ("a message of an empty structure", {"structs": [K.struct("S")], "messages": [K.message("M", K.item("s", "S"), K.item("o", "S", True))]})):
            add(label, (), **k)
    return out


def limits():
    """numbers at the edges of what the schema language can write"""
    fl = lambda bits, v: dict(structs=[K.struct("S", K.F("f", "float", bits, view=v), K.U("pad", 8 - bits % 8))])
    for bits in (1, 5, 8, 9, 16, 17, 24, 31, 32, 33, 48, 63, 64):
        for lo, hi in ((0.0, 1e300), (-1e300, 1e300), (0.0, 1e-300), (0.0, 1e-60), (0.0, 1e-39), (-3e38, 3e38), (0.0, 3.4e38), (3e38, 3.4e38), (1e-40, 2e-40), (-1.7e308, 1.7e308), (1e30, 2e30), (1e20, 1.0000001e20), (-1.0, 1e-320), (5e-324, 1e-323), (2.0, 1.0), (1.0, 1.0), (-0.0, 0.0)):
            yield "a float of %d bits from %r to %r" % (bits, lo, hi), fl(bits, {"type": "float-range", "min": lo, "max": hi})
        for m in (1e-60, 1e60, 1e-300, 1e300, 3.4e38, 3.5e38, -1e-40, 1e-39, 2.9e-39, 5e-324, 0.0, -1.0, 1.7e308, 6e-309):
            yield "a float of %d bits times %r" % (bits, m), fl(bits, {"type": "float-multiplier", "multiplier": m})
    edges = sorted({x + d for x in (1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63) for d in (-1, 0)} | {0, 1, (1 << 64) - 1})
    for v in edges:
        for bits in (8, 16, 32, 64):
            if v < 1 << bits:
                yield "an enumeration of %d in %d bits" % (v, bits), dict(enums=[{"name": "E", "variants": {"A": 0 if v else 1, "Z": v}}], structs=[K.struct("S", K.U("f", bits, view=K.enum_view("E")), K.U("pad", 8)), ],
                                                                         unions=[K.union("U", "S.f", K.case("A", "A"), K.case("Z", "Z", "S"))])
                yield "a case of %d in %d bits" % (v, bits), dict(structs=[K.struct("S", K.U("f", bits), K.U("pad", 8))], unions=[K.union("U", "S.f", K.case("A", 0 if v else 1), K.case("Z", v, "S"))])
        two, txt = K.struct("In", K.U("q", 8), K.U("z", 8)), K.message("Txt", K.string("t"))
        yield "at most %d" % v, dict(structs=[two], messages=[txt, K.message("M", K.string("s", v), K.lst("a", "In", v), K.lst("l", "Txt", v)), K.message("N", K.string("s", v, True), K.lst("a", "In", v, True), K.lst("l", "Txt", v, True))])
        for bits in (8, 24, 64):
            yield "an array of %d times %d bits" % (v, bits), dict(structs=[K.struct("S", K.U("a", bits, array_len=v), K.U("b", 8)), K.struct("N", K.ST("s", "S"), K.ST("t", "S"))])
    for bits in (1, 7, 8, 15, 16, 31, 32, 63, 64):
        for v in (-(1 << (bits - 1)), -1, (1 << (bits - 1)) - 1):
            yield "a case of %d in signed %d bits" % (v, bits), dict(structs=[K.struct("S", K.S("f", bits), K.U("pad", 8 - bits % 8))], unions=[K.union("U", "S.f", K.case("Z", v, "S"))])


FIELD_NAMES = ("slice byte_offset data offsets input out discriminant value item msg buf size len v a b e i index s t x k n res result buffer bytes start end total_size control_size w f from_slice write_to fixed_size as_ref raw "
               "field this bp3d_proto std core alloc auto default union gen raw_value discriminant_value q_msg q_offsets first_msg last_msg").split()
TYPE_NAMES = ("T W B A E C F R S K V U Some None Ok Err String Vec Box Default Clone Copy Debug Into Iterator Sized Send Drop Fn Message Array List FixedSize ToUsize Error Output Input PhantomData Result "
              "Option From AsRef AsMut FromSlice WriteTo FromSliceWithOffsets").split()


def names():
    """names which the generated code might use itself"""
    b8 = lambda n: K.U(n, 8)
    two = K.struct("In", b8("q"), b8("z"))
    by = K.struct("By", b8("q"))
    txt = K.message("Mm", K.string("z"))
    un = K.union("Un", "In.q", K.case("Aa", 1, "In"), K.case("Bb", 2))
    for x in FIELD_NAMES:
        yield "structure fields named " + x, dict(structs=[K.struct("St", b8(x), K.S("other", 5), K.U("oth", 3))])
        yield "bit fields named " + x, dict(structs=[K.struct("St", K.U(x, 3), K.S("other", 5))])
        yield "arrays named " + x, dict(structs=[K.struct("St", K.U(x, 16, array_len=3), b8("zz"))])
        yield "nested structures named " + x, dict(structs=[two, K.struct("St", K.ST(x, "In"), b8("zz"))])
        yield "enumeration fields named " + x, dict(enums=ENUMS, structs=[K.struct("St", K.U(x, 8, view=K.enum_view("Kind")), b8("zz"))])
        for y, f in (("structure", K.item(x, "In")), ("value", K.item(x, "By")), ("string", K.string(x)), ("message", K.item(x, "Mm")), ("array", K.lst(x, "In", 9)), ("list", K.lst(x, "Mm", 9)), ("optional message", K.item(x, "Mm", True))):
            if x != "offsets" or y not in ("array", "list"):
                yield "message fields of a %s named %s" % (y, x), dict(structs=[two, by], messages=[txt, K.message("Mx", K.item("first", "In"), f, K.item("last", "By"))])
                yield "message fields of a %s named %s, last" % (y, x), dict(structs=[two, by], messages=[txt, K.message("Mx", K.item("first", "Mm"), K.item("last", "By"), f)])
        yield "unions named " + x, dict(structs=[two], unions=[un], messages=[K.message("Mx", K.item("first", "In"), K.union_f(x, "Un", "first"))])
        yield "discriminants named " + x, dict(structs=[two], unions=[un], messages=[K.message("Mx", K.item(x, "In"), K.union_f("u", "Un", x))])
        yield "discriminant paths to " + x, dict(structs=[K.struct("In", b8(x), b8("zz"))], unions=[K.union("Un", "In." + x, K.case("Aa", 1, "In"), K.case("Bb", 2))])
    # names which the generator derives from others
    yield "a union of no cases", dict(structs=[two], unions=[K.union("Un", "In.q")])
    yield "an array of a message named offsets", dict(structs=[two], messages=[K.message("Mx", K.lst("offsets", "In", 9))])
    yield "an array of a message and a structure of one name", dict(structs=[two, K.struct("MxAll", b8("q"), b8("z"))], messages=[K.message("Mx", K.lst("all", "In", 9))])
    yield "fields x and raw_x", dict(structs=[K.struct("St", b8("x"), b8("raw_x"))])
    yield "a nested structure x and a field x_mut", dict(structs=[two, K.struct("St", K.ST("x", "In"), K.ST("x_mut", "In"))])
    yield "structures Aa and AA", dict(structs=[K.struct("Aa", b8("q"), b8("z")), K.struct("AA", b8("q"), b8("z"))])
    yield "cases Aa and AA", dict(structs=[two], unions=[K.union("Un", "In.q", K.case("Aa", 1), K.case("AA", 2))])
    yield "message fields a and a_offsets", dict(structs=[two], messages=[txt, K.message("Mx", K.item("a", "Mm"), K.item("a_offsets", "In"))])
    yield "message fields a and a_msg", dict(structs=[two], messages=[txt, K.message("Mx", K.item("a", "Mm"), K.item("a_msg", "In"))])
    yield "message fields a_msg and a", dict(structs=[two], messages=[txt, K.message("Mx", K.item("a_msg", "Mm"), K.item("a", "In"))])
    yield "messages M and MOffsets", dict(structs=[two], messages=[K.message("M", K.string("a")), K.message("MOffsets", K.string("a"))])
    for x in TYPE_NAMES:
        full = [two, by, K.struct("St", K.U("ar", 16, array_len=3), K.S("o", 5), K.U("z", 3), K.F("f", "float", 32))]
        yield "structures named " + x, dict(structs=[K.struct("Y0", b8("q"), b8("r")), K.struct(x, b8("q"), K.U("ar", 16, array_len=3), K.ST("y", "Y0"))])
        yield "structures of messages named " + x, dict(structs=[K.struct(x, b8("q"), b8("r"))], messages=[K.message("Mm", K.item("a0", x), K.item("c0", x, True), K.lst("b0", x, 9))])
        yield "enumerations named " + x, dict(enums=[{"name": x, "variants": {"Aa": 0, "Bb": 1}}], structs=[K.struct("St", K.U("f", 8, view=K.enum_view(x)), b8("zz"))])
        yield "variants named " + x, dict(enums=[{"name": "En", "variants": {x: 0, "Bb": 1}}], structs=[K.struct("St", K.U("f", 8, view=K.enum_view("En")), b8("zz"))])
        yield "messages named " + x, dict(structs=full, messages=[K.message(x, K.item("a0", "In"), K.item("b0", "By", True), K.string("s0"))])
        yield "nested messages named " + x, dict(structs=full, messages=[K.message(x, K.string("s0")), K.message("Mm", K.item("a0", x), K.lst("b0", x, 9))])
        yield "nested plain messages named " + x, dict(structs=full, messages=[K.message(x, K.item("s0", "By")), K.message("Mm", K.item("a0", x), K.lst("b0", x, 9))])
        yield "union types named " + x, dict(structs=full, unions=[K.union(x, "In.q", K.case("Aa", 1, "In"), K.case("Bb", 2))], messages=[K.message("Mx", K.item("first", "In"), K.union_f("u0", x, "first"))])
        yield "discriminant types named " + x, dict(structs=[K.struct(x, b8("q"), b8("r"))], unions=[K.union("Un", x + ".q", K.case("Aa", 1, x), K.case("Bb", 2))], messages=[K.message("Mx", K.item("first", x), K.union_f("u0", "Un", "first"))])
        yield "cases named " + x, dict(structs=full, unions=[K.union("Un", "In.q", K.case(x, 1, "In"), K.case("Bb", 2))], messages=[K.message("Mx", K.item("first", "In"), K.union_f("u0", "Un", "first"))])
        yield "cases without an item named " + x, dict(structs=full, unions=[K.union("Un", "In.q", K.case(x, 1), K.case("Bb", 2, "In"))], messages=[K.message("Mx", K.item("first", "In"), K.union_f("u0", "Un", "first"))])


# ------------------------------------------------------------------ the type checker

def rustc(b, name, src, out):
    """errors of a library crate: [(file, line, code, message)]"""
    cmd = ["rustc", "--edition", RUST, "--crate-type", "lib", "--crate-name", name, "--emit", "metadata", "-Awarnings", "--error-format", "json", "-o", out]
    for d in b.meta["deps"]:
        cmd += ["-L", "dependency=" + d]
    cmd += ["--extern", "bp3d_proto=" + b.meta["externs"]["bp3d_proto"], src]
    rc, o, e = build.run(cmd, env=build.base_env(), timeout=600)
    errs = []
    for l in e.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error":
            continue
        sp = [s for s in m.get("spans", []) if s["is_primary"]]
        while sp and sp[0].get("expansion"):
            # what a macro expands to is the fault of its call
            sp = [sp[0]["expansion"]["span"]]
        errs.append((sp[0]["file_name"] if sp else "", sp[0]["line_start"] if sp else 0, (m.get("code") or {}).get("code") or "", m["message"], (sp[0]["text"][0]["text"].strip() if sp and sp[0]["text"] else "")))
    return rc, errs, e


def generate(b, d, ws):
    """{schema name: (status, detail or {protocol: path})} of the repository's generator"""
    gen = b.meta["gen"]
    batch = []
    for _, s, imports in ws:
        with open(os.path.join(d, s["name"] + ".json5"), "w") as f:
            json.dump(s, f)
        g = os.path.join(d, "g_" + s["name"])
        os.mkdir(g)
        batch.append("\t".join([g] + ["%s=%s" % (os.path.join(d, i + ".json5"), p) for i, p in imports.items()] + [os.path.join(d, s["name"] + ".json5")]))
    with open(os.path.join(d, "batch"), "w") as f:
        f.write("\n".join(batch) + "\n")
    rc, o, e = build.run([gen, "@" + os.path.join(d, "batch")], env=build.base_env(), timeout=600)
    if rc:
        raise build.BuildError("generator: " + e[-2000:])
    res = {}
    for l in o.splitlines():
        p = l.split("\t")
        if len(p) > 1 and p[0] in ("OK", "REJECT", "FAIL", "PANIC"):
            res[os.path.basename(p[1])[2:]] = (p[0], p[-1])
    return res


def check(b, ws, known=()):
    """rows of the witnesses"""
    rows, tot = [], collections.defaultdict(int)
    d = tempfile.mkdtemp(prefix="types.", dir=b.dir)
    try:
        res = generate(b, d, ws)
        groups, size = [], 130
        todo = [w for w in ws if res.get(w[1]["name"], ("",))[0] == "OK"]
        for lab, s, imports in ws:
            st = res.get(s["name"], ("MISSING", ""))
            if st[0] == "OK":
                tot["accepted"] += 1
            elif st[0] == "REJECT":
                tot["refused"] += 1
            else:
                rows.append((lab, "the code of an accepted schema is generated", "unknown", "", "%s %s" % st, 1))
        bases = [w for w in todo if not w[2] and w[1]["name"].startswith("b")]
        rest = [w for w in todo if w not in bases]
        groups = [rest[i:i + size] for i in range(0, len(rest), size)] or [[]]

        def include(w):
            p = res[w[1]["name"]][1]
            return 'include!("%s");' % p if p.endswith(".rs") else ""

        def one(i):
            ms = bases + groups[i]
            bad = {}

            def judge(left, depth):
                """an error may hide others: take out what is rejected, then halve"""
                if not left:
                    return set()
                src = os.path.join(d, "c%d.rs" % i)
                with open(src, "w") as f:
                    f.write("\n".join(include(w) for w in bases + [w for w in left if w not in bases]) + "\n")
                rc, errs, raw = rustc(b, "c%d" % i, src, os.path.join(d, "c%d.rmeta" % i))
                if rc == 0:
                    return set()
                mine, new = {w[1]["name"] for w in left}, {}
                for f, line, code, msg, text in errs:
                    n = os.path.relpath(f, d).split(os.sep)[0][2:] if f.startswith(d) else ""
                    if n in mine:
                        new.setdefault(n, (f, line, code, msg, text))
                bad.update(new)
                left = [w for w in left if w[1]["name"] not in bad]
                if depth == 0 or any(w[1]["name"] in bad for w in bases) or not new and len(left) <= 1:
                    return {w[1]["name"] for w in left}
                if new and len(new) < 6:
                    return judge(left, depth - 1)
                h = (len(left) + 1) // 2
                return judge(left[:h], depth - 1) | judge(left[h:], depth - 1)
            return bad, judge(ms, 24)

        out = [one(i) for i in range(len(groups))]
        name = "the generated code type-checks"
        seen = set()
        for i, (bad, open_) in enumerate(out):
            for lab, s, _ in bases + groups[i]:
                n = s["name"]
                if n in seen:
                    continue
                seen.add(n)
                if n in bad:
                    f, line, code, msg, text = bad[n]
                    rows.append((lab, name, "refuted", "%s:%d" % (os.path.relpath(f, os.path.join(d, "g_" + n)), line), "%s %s in `%s`" % (code, msg, text[:120]), 1))
                elif n in open_:
                    rows.append((lab, name, "unknown", "", "hidden by other errors", 1))
                else:
                    rows.append((lab, name, "proved", "", "", 1))
                tot["units"] += 1
    finally:
        subprocess.run(["rm", "-rf", d])
    return rows, tot


def job(b, lo, hi):
    ws = witnesses()
    base = [w for w in ws if not w[2] and w[1]["name"].startswith("b")]
    rest = [w for w in ws if w not in base]
    rows, tot = check(b, base + rest[lo::hi])
    if lo:
        rows = [r for r in rows if r[0] not in {w[0] for w in base}]
    return rows, tot
