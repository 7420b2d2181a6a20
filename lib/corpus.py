"""Witness schema corpus.

Every schema here is valid under the schema language; the repository's own
generator turns it into Rust (a build step), and the generated Rust is what the
checks analyse.  The corpus is the finite cover of "kinds of things a schema can
say": every bit width x bit offset x endianness for a scalar field, every view,
every array item width, every message field kind x optional x position, every
kind of union discriminant, and imports.
"""


def F(name, ty, bits=None, view=None, array_len=None, item_type=None):
    info = {"type": ty}
    if bits is not None:
        info["bits"] = bits
    if item_type is not None:
        info["item_type"] = item_type
    f = {"name": name, "info": info}
    if view is not None:
        f["view"] = view
    if array_len is not None:
        f["array_len"] = array_len
    return f


def U(name, bits, **k):
    return F(name, "unsigned", bits, **k)


def S(name, bits, **k):
    return F(name, "signed", bits, **k)


def ST(name, item_type):
    return F(name, "struct", item_type=item_type)


def struct(name, *fields):
    return {"name": name, "fields": list(fields)}


def enum_view(name):
    return {"type": "enum", "name": name}


def M(name, ty, optional=None, **info):
    f = {"name": name, "info": dict(type=ty, **info)}
    if optional is not None:
        f["optional"] = optional
    return f


def item(name, t, optional=None):
    return M(name, "item", optional, item_type=t)


def lst(name, t, max_len=255, optional=None):
    return M(name, "list", optional, item_type=t, max_len=max_len)


def string(name, max_len=None, optional=None):
    return M(name, "string", optional, **({} if max_len is None else {"max_len": max_len}))


def payload(name, optional=None):
    return M(name, "payload", optional)


def union_f(name, t, on):
    return M(name, "union", None, item_type=t, on=on)


def message(name, *fields):
    return {"name": name, "fields": list(fields)}


def case(name, value, item_type=None):
    c = {"name": name, "case": str(value)}
    if item_type:
        c["item_type"] = item_type
    return c


def union(name, discriminant, *cases):
    return {"name": name, "discriminant": discriminant, "cases": list(cases)}


ENDS = ("little", "big")


def widths():
    for w in range(1, 65):
        for off in range(8):
            if off + w <= 8 * ((w + 7) // 8):
                yield w, off


def bit_schema(name, end, kind, lo, hi):
    structs = []
    for w, off in widths():
        if not lo <= w <= hi:
            continue
        fields = []
        if off:
            fields.append(U("pre", off))
        fields.append(F("val", kind, w))
        rem = (-(off + w)) % 8
        if rem:
            fields.append(U("post", rem))
        structs.append(struct("W%dO%d" % (w, off), U("head", 8), *fields, U("tail", 8)))
    return {"name": name, "endianness": end, "structs": structs}


def view_schema(name, end):
    enums = [
        {"name": "Dense", "variants": {"A": 0, "B": 1, "C": 2, "D": 3}},
        {"name": "Sparse", "variants": {"Zero": 0, "Five": 5, "Six": 6}},
        {"name": "Single", "variants": {"Only": 3}},
        {"name": "Wide", "variants": {"Lo": 1, "Mid": 300, "Hi": 40000}},
        {"name": "VeryWide", "variants": {"Lo": 7, "Hi": 5000000000}},
    ]
    st = [
        struct("Bools", F("b1", "boolean", 1), F("b7", "boolean", 7), F("b8", "boolean", 8), F("b13", "boolean", 13), U("p3", 3),
               F("b16", "boolean", 16), F("b64", "boolean", 64)),
        struct("Enums", U("d2", 2, view=enum_view("Dense")), U("s3", 3, view=enum_view("Sparse")), U("p3", 3),
               U("d8", 8, view=enum_view("Dense")), U("s8", 8, view=enum_view("Sparse")), U("o8", 8, view=enum_view("Single")),
               U("w16", 16, view=enum_view("Wide")), U("w24", 24, view=enum_view("Wide")), U("w17", 17, view=enum_view("Wide")), U("q7", 7),
               U("s16", 16, view=enum_view("Sparse")), U("w32", 32, view=enum_view("Wide")), U("v40", 40, view=enum_view("VeryWide")),
               U("v64", 64, view=enum_view("VeryWide"))),
        struct("Floats", F("f32", "float", 32), F("f64", "float", 64)),
        struct("Ranges",
               F("r8", "float", 8, view={"type": "float-range", "min": 0.0, "max": 10.0}),
               F("r16", "float", 16, view={"type": "float-range", "min": -5.0, "max": 5.0}),
               F("r24", "float", 24, view={"type": "float-range", "min": 100.0, "max": 200.0}),
               F("r32", "float", 32, view={"type": "float-range", "min": -1.5, "max": 2.5}),
               F("r40", "float", 40, view={"type": "float-range", "min": -90.0, "max": 90.0}),
               F("r64", "float", 64, view={"type": "float-range", "min": -180.0, "max": 180.0}),
               F("r5", "float", 5, view={"type": "float-range", "min": 0.25, "max": 1.0}),
               F("r3", "float", 3, view={"type": "float-range", "min": -2.0, "max": -1.0}),
               F("m8", "float", 8, view={"type": "float-multiplier", "multiplier": 0.1}),
               F("m12", "float", 12, view={"type": "float-multiplier", "multiplier": 0.5}), U("p4", 4),
               F("m32", "float", 32, view={"type": "float-multiplier", "multiplier": -2.0}),
               F("m64", "float", 64, view={"type": "float-multiplier", "multiplier": 0.001})),
        struct("Nums", S("i8", 8), S("i16", 16), S("i32", 32), S("i64", 64), U("u8", 8), U("u16", 16), U("u32", 32), U("u64", 64)),
    ]
    return {"name": name, "endianness": end, "enums": enums, "structs": st}


def array_schema(name, end):
    st = []
    fields = []
    for w in (8, 16, 24, 32, 40, 48, 56, 64):
        fields.append(U("u%d" % w, w, array_len=3))
    for w in (8, 16, 32, 64):
        fields.append(S("i%d" % w, w, array_len=2))
    fields.append(F("f32", "float", 32, array_len=2))
    fields.append(F("f64", "float", 64, array_len=2))
    fields.append(F("b8", "boolean", 8, array_len=4))
    fields.append(U("one", 8, array_len=1))
    fields.append(U("last", 8))
    st.append(struct("Arrays", *fields))
    st.append(struct("Mixed", U("a", 4), U("b", 4), U("arr", 16, array_len=5), S("c", 3), U("d", 5)))
    return {"name": name, "endianness": end, "structs": st}


def nest_schema(name, end):
    st = [
        struct("Leaf", U("a", 3), S("b", 5), U("c", 16)),
        struct("Odd", U("x", 4), U("y", 2)),
        struct("Mid", U("h", 8), ST("leaf", "Leaf"), U("t", 24), ST("leaf2", "Leaf")),
        struct("Top", ST("mid", "Mid"), U("k", 7), U("l", 1), ST("odd", "Odd"), U("z", 2), ST("mid2", "Mid"), F("arr", "unsigned", 16, array_len=2)),
        struct("Empty"),
        struct("WithEmpty", U("a", 8), ST("e", "Empty"), U("b", 8)),
    ]
    return {"name": name, "endianness": end, "structs": st}


def small_structs():
    return [
        struct("Head", U("kind", 8), U("flags", 8)),
        struct("Vec3", F("x", "float", 32), F("y", "float", 32), F("z", "float", 32)),
        struct("Byte", U("data", 8)),
        struct("Word", U("data", 16)),
        struct("Odd24", U("data", 24)),
        struct("Big64", U("data", 64)),
        struct("SInt", S("data", 32)),
        struct("Flt", F("data", "float", 32)),
        struct("Dbl", F("data", "float", 64)),
        struct("Bool8", F("data", "boolean", 8)),
        struct("Bool16", F("data", "boolean", 16)),
        struct("Nib", U("data", 4)),
    ]


def msg_schema(name, end):
    ms = [
        message("Fixed", item("a", "Byte"), item("b", "Word"), item("c", "Big64"), item("d", "SInt"), item("e", "Flt"), item("f", "Dbl"), item("g", "Bool8")),
        message("Refs", item("a", "Head"), item("b", "Vec3"), item("c", "Odd24"), item("d", "Bool16"), item("e", "Nib")),
        message("OptFixed", item("a", "Byte", True), item("b", "Word", True), item("c", "Flt", True), item("d", "Bool8", True), item("e", "Big64")),
        message("OptRefs", item("a", "Head", True), item("b", "Vec3"), item("c", "Vec3", True)),
        message("Strings", string("a"), string("b", 255), string("c", 256), string("d", 65535), string("e", 65536), string("f", 4294967295), string("g", 4294967296)),
        message("OptStrings", string("a", None, True), item("x", "Byte"), string("b", 255, True), string("c", 70000, True)),
        message("Arrays", lst("a", "Byte", 10), lst("b", "Vec3", 300), lst("c", "Head", 70000), lst("d", "Odd24", 5000000000), item("e", "Word")),
        message("OptArray", lst("a", "Vec3", 10, True), item("e", "Word")),
        message("Inner", item("a", "Word"), string("s", 255)),
        message("Nested", item("h", "Head"), item("i", "Inner"), item("j", "Inner", True), item("k", "Byte")),
        message("TopList", item("h", "Head"), lst("l", "Inner", 255)),
        message("ListThenFixed", lst("l", "Inner", 300), item("h", "Head")),
        message("OptList", lst("l", "Inner", 300, True)),
        message("Item2", lst("l", "Inner", 10)),
        message("ListOfList", lst("l", "Item2", 10)),
        message("UseItem2", item("i", "Item2"), item("b", "Byte")),
        message("Deep", item("n", "Nested"), item("o", "OptRefs", True), item("t", "Word")),
        message("Pay", item("h", "Head"), payload("p")),
        message("OptPay", item("h", "Head"), payload("p", True)),
        message("PayNested", item("h", "Head"), item("p", "Pay")),
        message("Empty"),
        message("UseEmpty", item("e", "Empty"), item("b", "Byte")),
        message("EmptyList", item("b", "Byte"), lst("l", "Empty", 255)),
    ]
    return {"name": name, "endianness": end, "structs": small_structs(), "messages": ms}


def union_schema(name, end):
    enums = [{"name": "Kind", "variants": {"None": 0, "Num": 2, "Vec": 5, "Msg": 9}}]
    st = small_structs() + [
        struct("HE", U("kind", 8, view=enum_view("Kind"))),
        struct("HU", U("kind", 16)),
        struct("H3", U("kind", 3), U("rest", 5)),
        struct("HS", S("kind", 8)),
        struct("HS5", S("kind", 5), U("rest", 3)),
        struct("HB", F("kind", "boolean", 1), U("rest", 7)),
        struct("HN", U("pad", 8), ST("he", "HE"), ST("h3", "H3")),
        struct("HNN", ST("hn", "HN"), U("x", 8)),
        struct("H64", U("kind", 64)),
        struct("HC", U("Kind", 4), U("kind", 4), U("kin", 8), U("kind_", 8)),
        struct("HCC", ST("Hc", "HC"), ST("hc", "HC")),
    ]
    un = [
        union("UE", "HE.kind", case("Nothing", "None"), case("Num", "Num", "Word"), case("Vector", "Vec", "Vec3"), case("Text", "Msg", "Txt")) if False else
        union("UE", "HE.kind", case("Nothing", "None"), case("Num", "Num", "Word"), case("Vector", "Vec", "Vec3")),
        union("UU", "HU.kind", case("A", 0, "Word"), case("B", 65535, "Vec3"), case("C", 256)),
        union("U3", "H3.kind", case("A", 7, "Word"), case("B", 0)),
        union("US", "HS.kind", case("A", -1, "Word"), case("B", 1, "Vec3"), case("C", -128)),
        union("US5", "HS5.kind", case("A", -1, "Word"), case("B", 15, "Vec3")),
        union("UB", "HB.kind", case("Off", 0), case("On", 1, "Word")),
        union("UN", "HN.he.kind", case("A", "Num", "Word"), case("B", "Vec", "Vec3")),
        union("UNN", "HNN.hn.h3.kind", case("A", 1, "Word"), case("B", 2)),
        union("UC", "HC.kind", case("A", 1, "Word"), case("B", 2)),
        union("UCC", "HCC.hc.kind_", case("A", 1, "Word"), case("B", 2)),
        union("UNone", "HE.kind", case("A", "None"), case("B", "Num")),
        union("UAll", "HU.kind", case("A", 1, "Word"), case("B", 2, "Vec3")),
        union("U64", "H64.kind", case("A", 18446744073709551615, "Word"), case("B", 4294967296)),
    ]
    ms = [
        message("ME", item("h", "HE"), union_f("u", "UE", "h")),
    ]
    return {"name": name, "endianness": end, "enums": enums, "structs": st, "unions": un, "messages": ms}


def union2_schema(name, end):
    base = union_schema(name, end)
    hs = [("E", "HE"), ("U", "HU"), ("3", "H3"), ("S", "HS"), ("S5", "HS5"), ("B", "HB"), ("N", "HN"), ("NN", "HNN"), ("All", "HU"), ("64", "H64")]
    ms = [message("M" + k, item("pre", "Byte"), item("h", h, None), union_f("u", "U" + k, "h"), item("post", "Word")) for k, h in hs]
    # a discriminant structure with a single raw field would be read as a plain number
    ms = [m for m in ms if m["name"] not in ("MU", "MAll", "MS", "M64")]
    ms.append(message("MAfter", item("h", "HE"), string("s", 255), union_f("u", "UE", "h"), union_f("v", "UN2", "g")) if False else
              message("MAfter", item("h", "HE"), string("s", 255), union_f("u", "UE", "h")))
    ms.append(message("MNone", item("h", "HE"), union_f("u", "UNone", "h"), item("z", "Byte")))
    base["messages"] = ms
    return base


def big_schema(name, end):
    """sizes, offsets and counts beyond one byte / two bytes, and every total
    size modulo 8"""
    st = [struct("Pad%d" % k, U("head", 8), U("val", k)) for k in range(1, 8)]
    st += [struct("PadW%d" % k, U("val", 8 * k + 1)) for k in range(1, 8)]
    st += [
        struct("Far", U("fill", 8, array_len=254), U("a", 16), U("b", 16), U("c", 3), S("d", 13), U("e", 8, array_len=300), U("f", 32), U("g", 1), U("h", 7)),
        struct("VeryFar", U("fill", 64, array_len=8191), U("a", 32), U("b", 32), S("c", 24), U("d", 5), U("e", 3), U("arr", 24, array_len=70000), U("z", 64)),
        struct("L0", U("a", 4), U("b", 4)),
        struct("L1", U("p", 8), ST("x", "L0"), ST("y", "L0")),
        struct("L2", ST("x", "L1"), U("p", 16), ST("y", "L1")),
        struct("L3", U("p", 24), ST("x", "L2"), ST("y", "L2"), ST("o", "L0")),
        struct("L4", ST("x", "L3"), ST("far", "Far"), ST("y", "L3"), U("t", 8)),
        struct("Many", *[U("f%d" % i, 1 + i % 8) if i % 2 == 0 else U("f%d" % i, 8 - (1 + (i - 1) % 8) or 8) for i in range(48)]),
        struct("CamelCase", U("some_long_field_name", 12), U("x1", 4), S("y_2", 16)),
        struct("Mid8", U("a", 2), S("b", 5), F("c", "boolean", 1), F("d", "boolean", 3), S("e", 1), U("f", 4)),
        struct("Tail3", U("a", 16), U("b", 3)),
    ]
    return {"name": name, "endianness": end, "structs": st}


def wide_enum_schema(name, end):
    """many variants, and values on both sides of every integer width"""
    edge = {"E%d" % i: v for i, v in enumerate((0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296))}
    enums = [
        {"name": "Edge", "variants": edge},
        {"name": "Full8", "variants": {"V%d" % i: i for i in range(256)}},
        {"name": "Full3", "variants": {"V%d" % i: i for i in range(8)}},
        {"name": "Gaps", "variants": {"V%d" % i: i * 7 + 3 for i in range(30)}},
        {"name": "Two", "variants": {"No": 0, "Yes": 1}},
        {"name": "Names", "variants": {"_Old": 3, "old": 0, "Old": 1, "OLD": 2, "Old_": 4, "Older": 5, "__9": 6, "O": 7, "new": 9, "Default": 10, "None_": 11, "Some1": 12, "max": 15}},
        {"name": "names", "variants": {"Old": 6, "_u": 1}},
    ]
    st = [
        struct("EdgeS", U("e33", 33, view=enum_view("Edge")), U("r", 7), U("e40", 40, view=enum_view("Edge")), U("e64", 64, view=enum_view("Edge"))),
        struct("FullS", U("f8", 8, view=enum_view("Full8")), U("f3", 3, view=enum_view("Full3")), U("t1", 1, view=enum_view("Two")), U("r", 4),
               U("n4", 4, view=enum_view("Names")), U("l3", 3, view=enum_view("names")), U("r1", 1), U("n8", 8, view=enum_view("Names")),
               U("f16", 16, view=enum_view("Full8")), U("g8", 8, view=enum_view("Gaps")), U("g12", 12, view=enum_view("Gaps")), U("g4", 4, view=enum_view("Full3"))),
    ]
    return {"name": name, "endianness": end, "enums": enums, "structs": st}


def rand_structs(rng, n, prefix="R", enums=()):
    """structures put together at random from everything a field can be"""
    out, sizes = [], {}
    for i in range(n):
        fields, pos = [], 0
        for j in range(rng.randint(1, 9)):
            nm = "%s%d" % (rng.choice(("f", "val_", "x", "data", "item_")), j)
            left = 8 - pos % 8
            if pos % 8 == 0:
                ws = list(range(1, 65))
            else:
                # a field which starts inside a byte has to end within its own bytes
                ws = [w for w in range(1, 65) if pos % 8 + w <= 8 * ((w + 7) // 8)]
            w = rng.choice([x for x in (left, 8, 16, 24, 32, 64) if x in ws] + [rng.choice(ws)])
            k = rng.random()
            if pos % 8 == 0 and k < 0.12 and sizes:
                t = rng.choice(sorted(sizes))
                fields.append(ST(nm, t))
                pos += sizes[t]
                continue
            if pos % 8 == 0 and k < 0.25:
                w = rng.choice((8, 16, 24, 32, 40, 48, 56, 64))
                c = rng.choice((2, 3, 5, 9, 17))
                fields.append(U(nm, w, array_len=c))
                pos += w * c
                continue
            if k < 0.55:
                f = U(nm, w)
            elif k < 0.75:
                f = S(nm, w)
            elif k < 0.82:
                f = F(nm, "boolean", w)
            elif k < 0.9 and [e for e in enums if max(e["variants"].values()) < 1 << w]:
                f = U(nm, w, view=enum_view(rng.choice([e["name"] for e in enums if max(e["variants"].values()) < 1 << w])))
            elif w in (32, 64) and k < 0.95:
                f = F(nm, "float", w)
            elif k < 0.98:
                lo = rng.choice((-100.0, -1.0, 0.0, 0.5, 3.0))
                f = F(nm, "float", w, view={"type": "float-range", "min": lo, "max": lo + rng.choice((1.0, 2.5, 100.0))})
            else:
                f = F(nm, "float", w, view={"type": "float-multiplier", "multiplier": rng.choice((0.1, 0.25, -3.0, 1000.0))})
            fields.append(f)
            pos += w
        nm = "%s%d" % (prefix, i)
        out.append(struct(nm, *fields))
        sizes[nm] = pos
    return out


def rand_schema(name, end, seed, n=24):
    import random
    rng = random.Random(seed)
    enums = [{"name": "Ea", "variants": {"A": 0, "B": 1}}, {"name": "Eb", "variants": {"P": 3, "Q": 9, "R": 40}}, {"name": "Ec", "variants": {"X": 200, "Y": 7000, "Z": 60000}}]
    return {"name": name, "endianness": end, "enums": enums, "structs": rand_structs(rng, n, enums=enums)}


def single_raw(s):
    return len(s["fields"]) == 1 and s["fields"][0]["info"]["type"] != "struct" and not s["fields"][0].get("array_len")


def rand_msgs(name, end, seed, n=14):
    """messages and unions put together at random within the placement rules"""
    import random
    rng = random.Random(seed)
    enums = [{"name": "Ek", "variants": {"A": 0, "B": 2, "C": 5, "D": 200}}]
    st = small_structs() + rand_structs(rng, 5, "S")
    st += [struct("K8", U("pad", rng.choice((3, 8, 24))), U("kind", 8, view=enum_view("Ek"))) if False else struct("K8", U("kind", 8, view=enum_view("Ek")), U("pad", rng.choice((8, 16)))),
           struct("K12", U("kind", 12), U("lo", 4)), struct("KN", U("x", 16), ST("k", "K12"), ST("e", "K8"))]
    names = [s["name"] for s in st]
    flags = {}            # message -> (dyn, element dyn, payload)
    unions, ms = [], []
    kinds = (("K8.kind", "K8", [(c, c) for c in "ABCD"]), ("K12.kind", "K12", [("Lo", 0), ("One", 1), ("Mid", 256), ("Hi", 4095)]),
             ("KN.k.kind", "KN", [("P", 7), ("Q", 300), ("Z", 4000)]), ("KN.e.kind", "KN", [("E%s" % c, c) for c in "ACD"]))
    uhead = {}
    for i in range(n):
        # a union now and then, over what exists
        if i % 3 == 1:
            d, head, cs = rng.choice(kinds)
            cases = []
            for cn, cv in cs[:rng.randint(2, len(cs))]:
                t = rng.choice([None] + names[:16] + [m for m in ("Txt", "Num", "Ls", "Nil")])
                cases.append(case(cn, cv, t))
            if not any(c.get("item_type") for c in cases):
                cases[0]["item_type"] = "Word"
            un = "U%d" % i
            unions.append(union(un, d, *cases))
            uhead[un] = (head, any(c.get("item_type") in ("Txt", "Ls") for c in cases))
        fields, late, usz = [], False, 0
        nf = rng.randint(2, 7)
        for j in range(nf):
            nm = "%s%d" % (rng.choice(("a", "field_", "m")), j)
            opt = True if rng.random() < 0.25 else None
            pick = rng.random()
            last = j == nf - 1
            if pick < 0.35 or late:
                fields.append(item(nm, rng.choice(names), opt))
            elif pick < 0.5:
                fields.append(string(nm, rng.choice((None, 10, 255, 256, 65535, 65536, 4294967295)), opt))
            elif pick < 0.62:
                fields.append(lst(nm, rng.choice(names), rng.choice((1, 255, 256, 70000, 4294967295, 4294967296)), opt))
            elif pick < 0.78 and [m for m in flags if not flags[m][2]]:
                t = rng.choice([m for m in flags if not flags[m][2]])
                fields.append(item(nm, t, opt))
                late = late or flags[t][1]
            elif pick < 0.88 and uhead:
                un = rng.choice(sorted(uhead))
                fields.append(item("h%d" % j, uhead[un][0]))
                if rng.random() < 0.5:
                    fields.append(item("between%d" % j, "Word"))
                fields.append(union_f(nm, un, "h%d" % j))
            elif pick < 0.95 and [m for m in flags if not flags[m][2]] and last:
                fields.append(lst(nm, rng.choice([m for m in flags if not flags[m][2]]), rng.choice((255, 300)), opt))
                late = True
            elif last:
                fields.append(payload(nm, opt))
                late = True
            else:
                fields.append(item(nm, rng.choice(names), opt))
        dyn = any(f["info"]["type"] in ("list", "string", "payload") or flags.get(f["info"].get("item_type"), (0,))[0] or uhead.get(f["info"].get("item_type"), (0, 0))[1] for f in fields)
        pay = fields[-1]["info"]["type"] == "payload"
        ms.append(message("M%d" % i, *fields))
        flags["M%d" % i] = (dyn, late, pay)
    return {"name": name, "endianness": end, "enums": enums, "imports": [{"protocol": "umsg", "type": t} for t in UMSG], "structs": st, "unions": unions, "messages": ms}


def msg2_schema(name, end):
    """sizes, counts and positions the first message corpus does not have"""
    st = small_structs() + [
        struct("Huge", U("fill", 64, array_len=40), U("x", 16), U("y", 3), U("z", 5)),
        struct("Bits3", U("a", 3)),
        struct("Nested", ST("h", "Head"), U("w", 16)),
        struct("S24", S("v", 24)), struct("SEnum", U("v", 8, view=enum_view("Col"))), struct("SBool1", F("v", "boolean", 1)),
        struct("SRange", F("v", "float", 16, view={"type": "float-range", "min": 0.0, "max": 1.0})),
        struct("SArr", U("v", 8, array_len=4)),
        struct("S64", S("v", 64)), struct("S16", S("v", 16)), struct("S8", S("v", 8)), struct("Dword", U("v", 32)),
        struct("Void"),
    ]
    ms = [
        message("Singles", item("a", "S24"), item("b", "SEnum"), item("c", "SBool1"), item("d", "SRange"), item("e", "SArr"), item("f", "S64"), item("g", "S16"), item("h", "S8"), item("i", "Dword")),
        message("OptSingles", item("a", "S24", True), item("b", "SEnum", True), item("c", "S64", True), item("d", "S16", True), item("e", "Dword", True), item("f", "Dbl", True), item("g", "SInt", True)),
        message("BigRef", item("a", "Huge"), item("b", "Huge", True), item("c", "Bits3"), item("d", "Nested")),
        message("ManyFields", *[item("f%d" % i, ("Byte", "Word", "Head", "SInt", "Odd24")[i % 5], True if i % 7 == 3 else None) for i in range(24)]),
        message("Edges", lst("a", "Byte", 255), lst("b", "Byte", 256), lst("c", "Byte", 65535), lst("d", "Byte", 65536)),
        message("Edges2", lst("e", "Byte", 4294967295), lst("f", "Byte", 4294967296), lst("g", "Byte", 1)),
        message("StrEdges", string("a", 1), string("b", 254), string("c", 257), string("d", 65534), string("e", 65537), string("f", 9223372036854775807)),
        message("MixedOpt", string("s", None, True), lst("l", "Vec3", 300, True), string("t", 10, True), lst("m", "Huge", 10, True), item("e", "Byte", True)),
        message("VoidArr", lst("l", "Void", 300), item("b", "Byte")),
        message("BitArr", lst("l", "Bits3", 255), lst("m", "Huge", 70000), item("b", "Byte")),
        message("A", string("s")),
        message("B", item("a", "A"), item("a2", "A", True), item("w", "Word")),
        message("C", item("b", "B"), string("t", 300), item("b2", "B")),
        message("D", item("c", "C", True), item("c2", "C")),
        message("ListD", item("h", "Head"), string("s"), lst("l", "D", 65536)),
        message("OptListD", item("h", "Head"), lst("l", "D", 10, True)),
        message("ListInner", lst("l", "A", 10)),
        message("AfterList", item("li", "ListInner"), item("h", "Head"), item("w", "Word", True)),
        message("ListOfFixed", lst("l", "OptSingles", 10), item("w", "Word")),
        message("PayOnly", payload("p")),
        message("WrapPay", item("w", "Word"), item("p", "PayOnly")),
        message("WrapOptPay", string("s", 10), item("p", "PayOnly", True)),
    ]
    return {"name": name, "endianness": end, "enums": [{"name": "Col", "variants": {"R": 0, "G": 1, "B": 77}}], "structs": st, "messages": ms}


def union3_schema(name, end):
    """unions of messages, many cases, deep and reused discriminants"""
    st = small_structs() + [
        struct("T8", U("ver", 4), U("flag", 4), U("kind", 8)),
        struct("T16", U("a", 8), U("kind", 16), U("b", 8)),
        struct("T24", U("kind", 24), U("b", 8)),
        struct("T5", U("x", 3), U("kind", 5)),
        struct("TS12", S("kind", 12), U("x", 4)),
        struct("TS16", S("kind", 16), U("x", 8)),
        struct("TE", U("x", 16), U("kind", 16, view=enum_view("Op"))),
        struct("TB8", F("kind", "boolean", 8), U("x", 8)),
        struct("P1", U("x", 8), ST("t5", "T5"), ST("t8", "T8")),
        struct("P2", ST("a", "P1"), ST("b", "P1")),
        struct("P3", U("z", 32), ST("p", "P2")),
    ]
    ms = []
    un = [
        union("V8", "T8.kind", case("TxtC", 1, "Txt"), case("NumC", 2, "Num"), case("NilC", 3, "Nil"), case("St", 4, "Vec3"), case("None_", 200)),
        union("V16", "T16.kind", *[case("C%d" % i, i * 257, (None, "Txt", "Word", "Num", "Head")[i % 5]) for i in range(20)]),
        union("V24", "T24.kind", case("A", 16777215, "Ls"), case("B", 65536, "Num"), case("C", 0)),
        union("V5", "T5.kind", *[case("K%d" % i, i, "Txt" if i % 3 == 0 else None) for i in range(32)]),
        union("VS12", "TS12.kind", case("Neg", -2048, "Txt"), case("M1", -1, "Word"), case("Z", 0), case("Max", 2047, "Num")),
        union("VS16", "TS16.kind", case("Neg", -32768, "Txt"), case("M1", -1, "Word"), case("Max", 32767)),
        union("VE", "TE.kind", case("Add", "Add", "Num"), case("Sub", "Sub", "Txt"), case("Far", "Far", "Blob")),
        union("VB8", "TB8.kind", case("On", 1, "Txt"), case("Off", 0, "Num")),
        union("VP1", "P1.t8.kind", case("A", 10, "Txt"), case("B", 20)),
        union("VP2", "P2.b.t5.kind", case("A", 1, "Txt"), case("B", 31, "Head")),
        union("VP2a", "P2.a.t8.flag", case("A", 1, "Num"), case("B", 15, "Head")),
        union("VP3", "P3.p.b.t8.ver", case("A", 9, "LsM"), case("B", 3, "Txt")),
        union("VOne", "T8.flag", case("Only", 7, "Txt")),
        union("VNums", "T16.a", case("X", 5), case("Y", 6), case("Z", 255)),
    ]
    heads = {"V8": "T8", "V16": "T16", "V24": "T24", "V5": "T5", "VS12": "TS12", "VS16": "TS16", "VB8": "TB8", "VP1": "P1", "VP2": "P2", "VP2a": "P2", "VOne": "T8", "VNums": "T16"}
    for u, h in heads.items():
        ms.append(message("M" + u, item("h", h), item("w", "Word"), union_f("u", u, "h"), item("z", "Byte", True)))
    ms.append(message("MVE", item("h", "TE"), union_f("u", "VE", "h")))
    ms.append(message("MVP3", item("h", "P3"), item("g", "Word"), union_f("u", "VP3", "h")))
    ms.append(message("MTwo", item("h", "T8"), item("k", "T16"), union_f("u", "V8", "h"), string("s", 10), union_f("v", "V16", "k"), union_f("w", "VOne", "h")))
    return {"name": name, "endianness": end, "enums": [{"name": "Op", "variants": {"Add": 1, "Sub": 256, "Far": 65535}}], "imports": [{"protocol": "umsg", "type": t} for t in UMSG], "structs": st, "unions": un, "messages": ms}


UMSG = ("Txt", "Num", "Blob", "Ls", "LsM", "Nil")


def umsg_schema():
    """messages for unions to refer to: a union can only name messages of other protocols"""
    st = [struct("UWord", U("data", 16)), struct("UByte", U("data", 8)), struct("UVec", F("x", "float", 32), F("y", "float", 32))]
    ms = [
        message("Txt", string("s", 255)),
        message("Num", item("n", "UWord"), item("o", "UByte", True)),
        message("Blob", payload("p")),
        message("Ls", lst("l", "UVec", 300)),
        message("Inner", lst("l", "Txt", 300)),
        message("LsM", item("i", "Inner"), item("n", "UWord")),
        message("Nil"),
    ]
    return {"name": "umsg", "endianness": "little", "structs": st, "messages": ms}


def import_schemas():
    a = {"name": "impa", "endianness": "little",
         "enums": [{"name": "Color", "variants": {"Red": 1, "Blue": 4}}],
         "structs": [struct("Hdr", U("kind", 8, view=enum_view("Color")), U("n", 8)), struct("Pt", U("x", 16), U("y", 16)), struct("Word", U("w", 16)), struct("SDw", S("w", 32)), struct("Flt", F("f", "float", 64))],
         "unions": [union("Un", "Hdr.kind", case("P", "Red", "Pt"), case("N", "Blue"))],
         "messages": [message("Txt", string("s", 255), item("p", "Pt"))]}
    b = {"name": "impb", "endianness": "big",
         "imports": [{"protocol": "impa", "type": t} for t in ("Color", "Hdr", "Pt", "Un", "Txt", "Word", "SDw", "Flt")],
         "structs": [struct("LWord", U("w", 16)), struct("Local", ST("pt", "Pt"), U("c", 16, view=enum_view("Color")), U("w", 16))],
         "unions": [union("LUn", "Hdr.kind", case("L", "Red", "Local"), case("T", "Blue", "Txt"))],
         "messages": [message("Mb", item("h", "Hdr"), union_f("u", "Un", "h"), item("l", "Local"), item("t", "Txt"), lst("ls", "Txt", 300)),
                      message("Md", item("w", "Word"), item("s", "SDw"), item("f", "Flt"), item("ow", "Word", True), item("l", "LWord"), lst("a", "Word", 300)),
                      message("Mc", item("h", "Hdr"), union_f("u", "LUn", "h"), lst("a", "Pt", 70000), item("p", "Pt", True))]}
    return a, b


def glue(s):
    """code which uses the generated API the way a program does, so that its
    generic parts are instantiated"""
    n = s["name"]
    out = []
    for st in s.get("structs") or []:
        for f in st["fields"]:
            k = f.get("array_len")
            if k is None or k == 1 or f["info"]["type"] == "struct":
                continue
            r, w = "crate::%s::%s<&[u8]>" % (n, st["name"]), "crate::%s::%s<&mut [u8]>" % (n, st["name"])
            t = "%s_%s" % (st["name"], f["name"])
            out.append("pub fn aget_%s(x: &%s, i: usize) { crate::stub::sink(x.get_%s().get_raw(i)) }" % (t, r, f["name"]))
            out.append("pub fn alen_%s(x: &%s) -> usize { x.get_%s().len() }" % (t, r, f["name"]))
            out.append("pub fn aset_%s(x: &mut %s, i: usize) { x.get_%s_mut().set_raw(i, crate::stub::source()); }" % (t, w, f["name"]))
            if k <= 8:
                out.append("pub fn aiter_%s(x: &%s) { let a = x.get_%s(); let mut i = a.iter_raw(); %s }" % (t, r, f["name"], "".join("crate::stub::sink(i.next()); " for _ in range(k + 1))))
            if f["info"].get("bits") == 8 and f["info"]["type"] == "unsigned" and not f.get("view"):
                out.append("pub fn aref_%s(x: &%s) { let a = x.get_%s(); let b: &[u8] = a.as_ref(); crate::stub::sink(b); }" % (t, r, f["name"]))
                out.append("pub fn amut_%s(x: &mut %s) { let mut a = x.get_%s_mut(); let b: &mut [u8] = a.as_mut(); crate::stub::sink(b); }" % (t, w, f["name"]))
    for m in s.get("messages") or []:
        out.append("pub fn measure_%s(m: &crate::%s::%s) -> bp3d_proto::message::Result<usize> { bp3d_proto::message::util::size_of(m) }" % (m["name"], n, m["name"]))
    return ["pub mod glue {"] + ["#[allow(non_snake_case)] " + x for x in out] + ["}"] if out else []


def schemas():
    """name -> (schema dict, {imported schema name: import path})"""
    out = {}

    def add(s, imports=None):
        out[s["name"]] = (s, imports or {})
    add(umsg_schema())
    um = {"umsg": "crate::umsg"}
    for end in ENDS:
        e = end[0]
        for kind in ("unsigned", "signed"):
            for lo, hi in ((1, 16), (17, 32), (33, 48), (49, 64)):
                add(bit_schema("bits_%s%s%d" % (kind[0], e, lo), end, kind, lo, hi))
        add(view_schema("views_" + e, end))
        add(array_schema("arrays_" + e, end))
        add(nest_schema("nest_" + e, end))
        add(msg_schema("msgs_" + e, end))
        add(union2_schema("unions_" + e, end))
        add(big_schema("big_" + e, end))
        add(wide_enum_schema("enums_" + e, end))
        add(msg2_schema("msgsx_" + e, end))
        add(union3_schema("unionsx_" + e, end), um)
        add(rand_schema("rand_" + e, end, 11))
        add(rand_msgs("randm_" + e, end, 5), um)
    a, b = import_schemas()
    add(a)
    add(b, {"impa": "crate::impa"})
    return out


if __name__ == "__main__":
    import json
    import os
    import sys
    os.makedirs(sys.argv[1], exist_ok=True)
    for n, (s, _) in schemas().items():
        with open(os.path.join(sys.argv[1], n + ".json5"), "w") as f:
            json.dump(s, f, indent=1)
