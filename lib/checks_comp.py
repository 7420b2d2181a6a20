"""The schema compiler, interpreted on schema shapes with abstract numbers and
compared with the reference in spec.py."""
import collections
import itertools
import os
import random
from fractions import Fraction

import comp
import numdom as N
import registry
import rules
import spec
from comp import Num, V
from interp import Give, Fork, Term, Ptr, Adt
from numdom import Lin, K

SRC = {"struct": r"structure::Field::from_model", "message": r"message::Message::from_model", "union": r"union::Union::from_model",
       "enum": r"enum::Enum::from_model", "protocol": r"compiler::Protocol::from_model|protocol::Protocol::from_model"}


class Cmp:
    """compares one outcome with one reference result; only the facts of one property count"""

    def __init__(self, E, d, prop, where):
        self.E, self.st, self.d, self.prop, self.where = E, d.st, d, prop, where

    def at(self, what):
        return self.where.get(what, "")

    def num(self, props, what, name, v, x):
        if self.prop in props:
            self.E.need(self.st, ("eq", v.lin - self.d.l(x)), name, self.at(what))

    def that(self, props, what, name, ok, detail=""):
        if self.prop in props:
            self.E.that(self.st, bool(ok), name, self.at(what), detail)

    def protocol(self, p, v):
        self.that(("C21",), "protocol", "the protocol keeps its declared byte order", v["endianness"].var.lower() == p.endian, v["endianness"].var)
        own = {k: [o for o in p.own if o.kind == k] for k in ("struct", "message", "enum", "union")}
        for kind, lst, by in (("struct", "structs", "structs_by_name"), ("message", "messages", "messages_by_name"), ("enum", "enums", "enums_by_name"), ("union", "unions", "unions_by_name")):
            vs = list(v[lst])
            self.that(("C22",), "protocol", "the protocol has exactly its own %ss, in order" % kind, [x["name"].text for x in vs] == [o.name for o in own[kind]])
            if len(vs) != len(own[kind]):
                return
            for o, x in zip(own[kind], vs):
                o.got = x
        for kind, lst, by in (("enum", "enums", "enums_by_name"), ("struct", "structs", "structs_by_name"), ("union", "unions", "unions_by_name"), ("message", "messages", "messages_by_name")):
            for o in own[kind]:
                getattr(self, kind)(o, o.got)
            if self.prop == "C22":
                names = {n for n, o in p.types.items() if o.kind == kind}
                self.that(("C22",), "protocol", "exactly the declared and imported %ss are visible by name" % kind, {k.text for k, _ in v[by].items()} == names)
                for n in names:
                    e = v[by].entry(n)
                    if e is not None:
                        self.refers("protocol", "the name of a %s stands for its declaration" % kind, e, p.types[n])
        if self.prop == "C24":
            for n, o in p.types.items():
                if o.kind == "message" and n in p.imported:
                    e = v["messages_by_name"].entry(n)
                    if e is not None:
                        self.embedded(o, e)
        if self.prop == "C22":
            paths = {k.text: x.text for k, x in v["type_path_by_name"]["type_path_by_name"].items()}
            self.that(("C22",), "protocol", "imported types, and only they, are named by their import path", paths == p.imported, "%r instead of %r" % (paths, p.imported))

    def refers(self, what, name, v, o):
        """v is the declaration o"""
        if self.prop != "C22":
            return
        got = getattr(o, "got", None)
        ok = True if got is not None and v.same(got) else (v["name"].text == o.name and self.alike(v, o))
        self.that(("C22",), what, name, ok)

    def alike(self, v, o):
        if o.kind == "enum":
            return sorted(x[0].text for x in v["variants"]) == sorted(o.variants)
        if o.kind == "union":
            return [x["name"].text for x in v["cases"]] == [c.name for c in o.cases]
        fs = list(v["fields"])
        return len(fs) == len(o.fields) and all(self.field_name(x) == y.name for x, y in zip(fs, o.fields))

    def field_name(self, x):
        return (x["name"] if x.has("name") else x["0"]["name"]).text

    def enum(self, o, v):
        if self.prop not in ("C15", "C22", "C26"):
            return
        got = {x[0].text: x[1] for x in v["variants"]}
        order = list(v["variants"])
        self.that(("C15", "C22"), "enum", "the enumeration has exactly its declared variants", sorted(got) == sorted(o.variants) and len(order) == len(got))
        by = {k.text: x for k, x in v["variants_map"].items()}
        self.that(("C15", "C22"), "enum", "every variant is known by its name", sorted(by) == sorted(o.variants))
        for n, x in o.variants.items():
            if n in got:
                self.num(("C15",), "enum", "a variant has its declared value", got[n], x)
            if n in by:
                self.num(("C15",), "enum", "a variant name stands for its declared value", by[n], x)
        self.num(("C15",), "enum", "the largest value of the enumeration is its largest variant", v["largest"], o.largest)
        if self.prop == "C26":
            for a, b in zip(order, order[1:]):
                self.E.need(self.st, ("ge", b[1].lin - a[1].lin - 1), "variants are emitted in the order of their values", self.at("enum"))

    def struct(self, o, v):
        fs = list(v["fields"])
        self.that(("C13", "C22"), "struct", "the structure has exactly its declared fields, in order", [self.field_name(x) for x in fs] == [f.name for f in o.fields])
        if len(fs) != len(o.fields):
            return
        for f, x in zip(o.fields, fs):
            self.struct_field(f, x)
        self.num(("C13",), "struct", "the structure has the bits of all its fields", v["bit_size"], o.bits)
        if self.prop == "C13":
            self.bytes_of("the size of the structure is its bits rounded up to bytes", v["byte_size"], o.bits)

    def bytes_of(self, name, v, bits):
        bits = self.d.l(bits)
        self.E.need(self.st, ("ge", v.lin.scale(8) - bits), name, self.at("struct"))
        self.E.need(self.st, ("ge", bits + 7 - v.lin.scale(8)), name, self.at("struct"))

    def struct_field(self, f, x):
        kind = x.var
        self.that(("C13", "C22", "C12"), "struct", "a field is of its declared kind", kind == f.fk, kind)
        if kind != f.fk:
            return
        x = x["0"]
        loc = x["loc"]
        if self.prop == "C13":
            self.E.need(self.st, ("eq", loc["byte_offset"].lin.scale(8) + loc["bit_offset"].lin - self.d.l(f.off)), "a field starts where the fields before it end", self.at("struct"))
            self.E.need(self.st, ("ge", K(7) - loc["bit_offset"].lin), "a field starts where the fields before it end", self.at("struct"))
            self.num(("C13",), "struct", "a field has its declared bits", loc["bit_size"], f.bits)
            self.bytes_of("a field is read from the bytes its bits are in", loc["byte_size"], f.bits)
        if kind == "Struct":
            return self.refers("struct", "a nested structure is the declared one", x["r"], f.r)
        ty = x["ty"].var
        if f.type in ("signed", "unsigned"):
            want = ("UInt" if f.type == "unsigned" else "Int") + str(spec.smallest_bits(f.item))
            self.that(("C23", "C12"), "struct", "the integer of a field is the smallest which holds its bits", ty == want, "%s instead of %s for %d bits" % (ty, want, f.item))
        elif f.type == "boolean":
            self.that(("C23",), "struct", "a boolean is a boolean", ty == "Bool", ty)
        else:
            want = {32: ("Float32",), 64: ("Float64",)}.get(f.item, ("Float32", "Float64"))
            self.that(("C23", "C12"), "struct", "a float has its declared width", ty in want, ty)
        self.that(("C21",), "struct", "a field has the byte order of its protocol", x["endianness"].var.lower() == f.endian, x["endianness"].var)
        if kind == "Array":
            return self.num(("C12",), "struct", "an array has its declared length", x["array_len"], f.n)
        self.view(f, x["view"])

    def view(self, f, v):
        k = f.view
        want = {"raw": "None", "cast": "Transmute", "sign": "SignedCast", "affine": "Float", "scale": "Float", "enum": "Enum"}[k[0]]
        props = ("C15",) if k[0] == "enum" else ("C14",)
        self.that(props, "struct", "a field is seen through its declared view", v.var == want, "%s instead of %s" % (v.var, want))
        if v.var != want:
            return
        if k[0] == "enum":
            self.refers("struct", "the enumeration of a view is the declared one", v["0"], k[1])
            if self.prop == "C15":
                self.enum(k[1], v["0"])
        elif k[0] == "sign":
            self.num(("C14",), "struct", "a signed field is negative beyond half its range", v["0"], k[1])
        elif k[0] in ("affine", "scale") and self.prop == "C14":
            R = Reals(self.st)
            a, b, ai, bi = (R(v[n].v) for n in ("a", "b", "a_inv", "b_inv"))
            if k[0] == "affine":
                lo, hi = (R(Term("f64", (x.lin(),)) if isinstance(x, Num) else x) for x in k[1:3])
                self.that(("C14",), "struct", "raw zero is the lower end of the range", R.same(b, lo))
                self.that(("C14",), "struct", "the raw maximum is the upper end of the range", R.same(R.add(R.mul(a, R.num(k[3])), b), hi), R.show(a))
            else:
                m = R(Term("f64", (k[1].lin(),)) if isinstance(k[1], Num) else k[1])
                self.that(("C14",), "struct", "a value is its raw value times the multiplier", R.same(a, m) and R.same(b, R.num(0)))
            self.that(("C14",), "struct", "the inverse of a float view undoes it", R.same(R.mul(a, ai), R.num(1)) and R.same(R.add(R.mul(ai, b), bi), R.num(0)))

    def union(self, o, v):
        cs = list(v["cases"])
        self.that(("C18", "C22"), "union", "the union has exactly its declared cases", [x["name"].text for x in cs] == [c.name for c in o.cases])
        if len(cs) != len(o.cases):
            return
        for c, x in zip(o.cases, cs):
            self.num(("C18",), "union", "a case has its declared discriminant value", x["case"], c.value)
            t = x["item_type"]
            self.that(("C18", "C22"), "union", "a case has content when it declares some", t.none == (c.item is None))
            if not t.none and c.item is not None:
                self.reference("union", "the content of a case is the declared type", t["0"], c.item)
        dv = v["discriminant"]
        self.that(("C18",), "union", "the discriminant is read along its declared path", [x.lin for x in dv["index_list"]] == [K(i) for i in o.path])
        self.num(("C18",), "union", "the discriminant is the declared field", dv["leaf_index"], K(o.path[-1]))
        self.refers("union", "the discriminant's structure is the declared one", dv["root"], o.root)
        self.refers("union", "the discriminant's innermost structure is the declared one", dv["leaf"], o.leaf)
        self.size("union", o, v["size"])

    def size(self, what, o, v):
        self.that(("C24",), what, "what has a variable size is known to have one", v["is_dyn_sized"].flag == o.dyn)
        self.that(("C24",), what, "what has items of variable size is known to have some", v["is_element_dyn_sized"].flag == o.edyn)

    def reference(self, what, name, v, o):
        k = {"struct": "Struct", "message": "Message"}[o.kind]
        self.that(("C22", "C18"), what, name, v.var == k, v.var)
        if v.var == k:
            self.refers(what, name, v["0"], o)

    def message(self, o, v):
        fs = list(v["fields"])
        self.that(("C22", "C24"), "message", "the message has exactly its declared fields, in order", [x["name"].text for x in fs] == [f.name for f in o.fields])
        if len(fs) != len(o.fields):
            return
        for f, x in zip(o.fields, fs):
            self.message_field(f, x)
        self.size("message", o, v["size"])
        self.embedded(o, v)

    def embedded(self, o, v):
        e = v["embedded"].v
        if isinstance(e, tuple) and e and e[0] == "c":
            self.that(("C24",), "message", "a message used inside another is known to be embedded", e[1] == o.embedded, "embedded: %s" % e[1])
        else:
            raise Give("embedded flag")

    def message_field(self, f, x):
        ty = x["ty"]
        kind, inner = ty.var, ty["0"] if ty.has("0") else None
        want = f.fk
        if f.fk == "Ref" and f.r.kind == "struct" and kind == "Fixed":
            return self.inlined(f, x, inner)
        self.that(("C22", "C24"), "message", "a message field is of its declared kind", kind == want, "%s instead of %s" % (kind, want))
        if kind != want:
            return
        self.that(("C16",), "message", "a field is optional when it is declared to be", x["optional"].flag == f.optional)
        self.that(("C21",), "message", "a message field has the byte order of its protocol", x["endianness"].var.lower() == f.endian, x["endianness"].var)
        self.size("message", f, x["size"])
        if hasattr(f, "prefix"):
            ty = inner["ty"].var
            self.that(("C23",), "message", "a length prefix is the smallest which holds the declared maximum", ty == "UInt%d" % f.prefix, "%s instead of UInt%d" % (ty, f.prefix))
        if kind == "Ref":
            self.reference("message", "a message field is of the declared type", inner, f.r)
        elif kind in ("Array", "List"):
            self.refers("message", "the items of a list are of the declared type", inner["item_type"], f.r)
        elif kind == "Union":
            self.refers("message", "a union field is of the declared union", inner["r"], f.r)
            self.num(("C18",), "message", "a union field uses the declared discriminant", inner["on_index"], K(f.on))
            self.that(("C18", "C22"), "message", "a union field uses the declared discriminant", inner["on_name"].text == x_name(f), inner["on_name"].text)

    def inlined(self, f, x, inner):
        fs = f.r.fields
        g = fs[0] if len(fs) == 1 else None
        ok = g is not None and g.fk == "Fixed" and g.view[0] in ("raw", "cast") and g.item in spec.INTS and not (g.type == "boolean" and g.item != 8)
        self.that(("C22", "C14", "C16", "C23"), "message", "only a structure which is one plain number is inlined", ok)
        if not ok:
            return
        want = {"signed": "Int%d", "unsigned": "UInt%d", "float": "Float%d", "boolean": "Bool"}[g.type]
        want = want % g.item if "%" in want else want
        self.that(("C22", "C14", "C16", "C23"), "message", "an inlined number has the type of its field", inner["ty"].var == want, inner["ty"].var)
        self.that(("C21",), "message", "an inlined number has the byte order of the protocol which declares it", x["endianness"].var.lower() == f.r.endian, x["endianness"].var)
        self.that(("C16",), "message", "a field is optional when it is declared to be", x["optional"].flag == f.optional)
        self.size("message", f, x["size"])


def x_name(f):
    return f.on_name


class Reals:
    """floating point terms as rational functions over the reals"""

    def __init__(self, st):
        self.st = st

    def num(self, n):
        return ({(): Fraction(n)}, {(): Fraction(1)}) if n else ({}, {(): Fraction(1)})

    def pm(self, a, b):
        r = collections.defaultdict(Fraction)
        for m, c in a.items():
            for n, e in b.items():
                r[tuple(sorted(m + n))] += c * e
        return {k: v for k, v in r.items() if v}

    def pa(self, a, b, s=1):
        r = collections.defaultdict(Fraction, a)
        for m, c in b.items():
            r[m] += s * c
        return {k: v for k, v in r.items() if v}

    def add(self, a, b, s=1):
        return self.pa(self.pm(a[0], b[1]), self.pm(b[0], a[1]), s), self.pm(a[1], b[1])

    def mul(self, a, b):
        return self.pm(a[0], b[0]), self.pm(a[1], b[1])

    def div(self, a, b):
        if not b[0]:
            raise Give("division by zero")
        return self.pm(a[0], b[1]), self.pm(a[1], b[0])

    def same(self, a, b):
        return self.pm(a[0], b[1]) == self.pm(b[0], a[1])

    def show(self, a):
        return repr(a)[:200]

    def __call__(self, t):
        if isinstance(t, (int, float)):
            return self.num(Fraction(t))
        if isinstance(t, Term):
            if t.op == "f64":
                x = t.args[0]
                if isinstance(x, Lin) and not x.t:
                    import struct
                    return self.num(Fraction(struct.unpack("<d", struct.pack("<Q", x.c % (1 << 64)))[0]))
                return ({(repr(x),): Fraction(1)}, {(): Fraction(1)})
            a = [self(x) if not isinstance(x, Lin) else x for x in t.args]
            if t.op in ("fadd", "Add"):
                return self.add(a[0], a[1])
            if t.op in ("fsub", "Sub"):
                return self.add(a[0], a[1], -1)
            if t.op in ("fmul", "Mul"):
                return self.mul(a[0], a[1])
            if t.op in ("fdiv", "Div"):
                return self.div(a[0], a[1])
            if t.op in ("fneg", "Neg"):
                return self.mul(self.num(-1), a[0])
            if t.op in ("i2f64", "u2f64") and isinstance(a[0], Lin) and not a[0].t:
                return self.num(a[0].c)
        raise Give("float term %r" % (t,))


_comp = {}


def compiler(b):
    if b.dir not in _comp:
        _comp[b.dir] = comp.Compiler(registry.prog(b, "compiler"))
    return _comp[b.dir]


def places(C):
    import re
    w = {}
    for k, rx in SRC.items():
        for key, f in C.p.fns.items():
            if re.search("(?:" + rx + r")(@|::<|$)", key) and "closure" not in key.split("(")[0] and not key.startswith("std::"):
                w[k] = f.get("span", "")
    return w


def one(C, where, prop, label, imports, schema, tot):
    """obligations of one schema shape"""
    N.reset()
    res = {}
    E = None
    try:
        rules.limit(rules.unit_limit())
        I, outs = C.chain(imports, schema)
        E = rules.Env(I, "exact", label)
        tot["steps"] += I.steps
        tot["calls"] += I.calls_seen
        tot["outs"] += len(outs)
        tot["fns"] |= I.fns_seen
        tot["unknown"] |= I.unknown_calls
        tot["units"] += 1
        if prop == "C19":
            for q in I.panics:
                if q.kind.startswith("undefined behaviour") and not q.st.bad():
                    E.that(q.st, False, "no undefined behaviour", q.span, "%s in %s" % (q.kind[21:], q.fn[:120]))
            if I.truncated or I.unknown_calls:
                E.put("no undefined behaviour", "unknown", "", "cut short or unmodelled: %s" % sorted(I.unknown_calls)[:3])
            E.put("no undefined behaviour", "proved")
        elif prop == "C20":
            for q in I.panics:
                if q.st.bad():
                    continue
                E.that(q.st, False, "compiling the schema does not panic", q.span, "%s in %s" % (q.kind, q.fn[:120]))
            if I.truncated or I.unknown_calls:
                E.put("the compiler was followed to its end", "unknown", "", "cut short or unmodelled: %s" % sorted(I.unknown_calls)[:3])
            else:
                E.put("the compiler was followed to its end", "proved")
                if not I.panics:
                    E.put("compiling the schema does not panic", "proved")
        else:
            for st, r in outs:
                compare(C, E, where, prop, imports, schema, I, st, r)
            if I.truncated or I.unknown_calls:
                E.put("analysis", "unknown", "", "cut short or unmodelled: %s" % sorted(I.unknown_calls)[:3])
            for q in I.panics:
                if not q.st.bad():
                    E.put("analysis", "unknown", q.span, "panics")
    except rules.TimeUp:
        res["analysis"] = rules.Ob(label, "analysis", "unknown", "", "gave up: time")
    except Give as e:
        res["analysis"] = rules.Ob(label, "analysis", "unknown", "", "gave up: %s at %s" % (e, [s for _, s in getattr(e, "stack", [])][-3:]))
    except Fork:
        res["analysis"] = rules.Ob(label, "analysis", "unknown", "", "undecided value")
    except Exception as e:
        if os.environ.get("VERIF_TRACE"):
            import traceback
            traceback.print_exc()
        res["analysis"] = rules.Ob(label, "analysis", "unknown", "", "internal: %r" % (e,))
    finally:
        rules.limit(0)
    if E is not None:
        for n, o in E.res.items():
            res.setdefault(n, o)
    return [o.row() for o in res.values()]


def compare(C, E, where, prop, imports, schema, I, st, r):
    def ref(d):
        ps = {}
        for path, s in imports:
            p = spec.compile(d, s, dict(ps))
            p.path = path
            ps[s["name"]] = p
        return spec.compile(d, schema, ps)

    ok = r.var == 0
    for d, want in spec.explore(st, ref):
        if isinstance(want, spec.Reject):
            if want.prop == prop:
                E.that(d.st, not ok, "refused: " + want.why, where.get(place(want), ""), "accepted")
            continue
        if not ok:
            if d.maybe is None:
                v = V(I, d.st, r)["0"]
                E.that(d.st, False, "a schema which obeys the rules is accepted", where.get("protocol", ""), "refused: %s" % v.var)
            continue
        E.that(d.st, True, "a schema which obeys the rules is accepted")
        for o in want.own:
            for f in getattr(o, "fields", ()):
                if getattr(f, "on", None) is not None and o.kind == "message":
                    f.on_name = o.fields[f.on].name
        c = Cmp(E, d, prop, where)
        c.protocol(want, V(I, d.st, r)["0"])


def place(rej):
    return {"C12": "struct", "C13": "struct", "C14": "struct", "C15": "struct", "C18": "union", "C23": "struct", "C24": "message", "C26": "enum"}.get(rej.prop, "protocol")


# ---------------------------------------------------------------- shapes

def F(name, kind, bits, **k):
    return dict(name=name, info=dict(type=kind, bits=bits), **k)


def U(name, bits, **k):
    return F(name, "unsigned", bits, **k)


def sub(name, t):
    return dict(name=name, info=dict(type="struct", item_type=t))


def S(name, *fs):
    return dict(name=name, fields=list(fs))


def mf(name, kind, opt=None, **k):
    return dict(name=name, info=dict(type=kind, **k), optional=opt)


def P(**k):
    return dict(dict(name="P"), **k)


def lead(k):
    """bytes of abstract number, then k bits"""
    return [U("head", 8, array_len=Num("n", 1, 1 << 40))] + ([U("pre", k)] if k else [])


def shapes(prop):
    f = globals().get("shapes_" + prop)
    return list(f()) if f else []


def shapes_C13():
    for k in range(8):
        for b in range(1, 65):
            yield "unsigned %d bits at bit %d" % (b, k), (), P(structs=[S("S", *lead(k), U("f", b), U("after", 8 - (k + b) % 8))])
        for b in (1, 8, 12, 16):
            yield "structure of %d bits at bit %d" % (b, k), (), P(structs=[S("T", U("x", b)), S("S", *lead(k), sub("t", "T"), U("after", 4), U("more", 4))])
        for b in (7, 8, 12, 16, 24, 32, 40, 48, 56, 64):
            yield "array of %d bits at bit %d" % (b, k), (), P(structs=[S("S", *lead(k), U("a", b, array_len=Num("m")), U("after", 8))])
    yield "deep nesting", (), P(structs=[S("A", U("x", 3), U("y", 13)), S("B", U("z", 8, array_len=Num("n")), sub("a", "A"), sub("b", "A")), S("C", sub("b", "B"), U("q", 24), sub("c", "B"))])
    yield "array of abstract length before an array", (), P(structs=[S("S", U("a", 64, array_len=Num("n")), U("b", 64, array_len=Num("m")))])
    yield "huge nesting", (), P(structs=[S("A", U("x", 64, array_len=Num("n"))), S("B", sub("a", "A"), sub("b", "A"), sub("c", "A"))])
    for kind in ("signed", "boolean"):
        for k in range(8):
            for b in (1, 5, 9, 17, 24, 32, 33, 63, 64):
                yield "%s %d bits at bit %d" % (kind, b, k), (), P(structs=[S("S", *lead(k), F("f", kind, b), U("after", 8))])
    yield "imported nested structure", [("q", dict(name="Q", structs=[S("T", U("x", 12))]))], P(imports=[dict(protocol="Q", type="T")], structs=[S("S", U("h", 8), sub("t", "T"), U("z", 4))])


def shapes_C12():
    for kind in ("unsigned", "signed", "float", "boolean"):
        for b in (8, 16, 24, 32, 40, 48, 56, 64):
            yield "array of %s %d" % (kind, b), (), P(structs=[S("S", *lead(0), F("a", kind, b, array_len=Num("m")), U("z", 8))])
    yield "array of enumerations", (), P(enums=[dict(name="E", variants={"A": 1, "B": 200})], structs=[S("S", U("a", 8, array_len=Num("m"), view=dict(type="enum", name="E")))])
    yield "array of nothing", (), P(structs=[S("S", U("a", 8, array_len=0))])
    yield "array of one bit field", (), P(structs=[S("S", U("p", 3), U("a", 3, array_len=1))])


def shapes_C23():
    for kind in ("unsigned", "signed", "boolean", "float"):
        for b in range(0, 71):
            view = dict(view=dict(type="float-multiplier", multiplier=0.5)) if kind == "float" else {}
            yield "%s %d bits" % (kind, b), (), P(structs=[S("S", F("f", kind, b, **view))])
        yield "%s beyond 64 bits" % kind, (), P(structs=[S("S", F("f", kind, Num("b", 65)))])
        for b in (8, 16, 24, 32, 40, 64):
            yield "array of %s %d bits" % (kind, b), (), P(structs=[S("S", F("f", kind, b, array_len=Num("n", 1, 1000)))])
    m = Num("max")
    base = dict(structs=[S("S", U("x", 16), U("y", 16))], messages=[dict(name="I", fields=[mf("s", "string")])])
    for opt in (None, True):
        for lab, fld in (("string", mf("f", "string", opt, max_len=m)), ("list of structures", mf("f", "list", opt, max_len=m, item_type="S")), ("list of messages", mf("f", "list", opt, max_len=m, item_type="I"))):
            yield "length prefix of a %s%s" % ("optional " if opt else "", lab), (), P(structs=base["structs"], messages=base["messages"] + [dict(name="M", fields=[fld])])


def shapes_C14():
    for b in range(1, 65):
        for kind in ("signed", "boolean", "float", "unsigned"):
            yield "%s %d bits" % (kind, b), (), P(structs=[S("S", F("f", kind, b))])
        yield "range over %d bits" % b, (), P(structs=[S("S", F("f", "float", b, view=dict(type="float-range", min=Num("lo"), max=Num("hi"))))])
        yield "multiplier over %d bits" % b, (), P(structs=[S("S", F("f", "float", b, view=dict(type="float-multiplier", multiplier=Num("m"))))])
    for kind in ("signed", "unsigned", "boolean"):
        yield "range of a %s" % kind, (), P(structs=[S("S", F("f", kind, 8, view=dict(type="float-range", min=0, max=1)))])
        yield "multiplier of a %s" % kind, (), P(structs=[S("S", F("f", kind, 8, view=dict(type="float-multiplier", multiplier=2)))])
    for kind in ("signed", "unsigned", "boolean", "float"):
        for b in (8, 16, 24, 32, 64):
            yield "array of %s %d" % (kind, b), (), P(structs=[S("S", F("f", kind, b, array_len=3))])
    yield from lone_fields(("unsigned", "signed", "boolean", "float"), range(1, 65))
    yield "array of ranges", (), P(structs=[S("S", F("f", "float", 16, array_len=3, view=dict(type="float-range", min=0, max=1)))])


def lone_fields(kinds, widths):
    """messages of structures with one field: only plain whole numbers may stand for their structure"""
    for b in widths:
        for kind in kinds:
            if kind == "float" and b not in (32, 64):
                continue
            yield "message of one %s field of %d bits" % (kind, b), (), P(structs=[S("S", F("f", kind, b))], messages=[dict(name="M", fields=[mf("a", "item", item_type="S"), mf("b", "item", True, item_type="S")])])
    one = {"enumeration": U("f", 8, view=dict(type="enum", name="E")), "range": F("f", "float", 16, view=dict(type="float-range", min=0, max=1)),
           "multiplier": F("f", "float", 32, view=dict(type="float-multiplier", multiplier=2)), "array": U("f", 8, array_len=2), "array of one": U("f", 8, array_len=1), "structure": sub("f", "T")}
    for k, f in one.items():
        yield "message of one %s field" % k, (), P(enums=[dict(name="E", variants={"A": 1, "B": 2})], structs=[S("T", U("x", 8)), S("S", f)], messages=[dict(name="M", fields=[mf("a", "item", item_type="S"), mf("b", "item", True, item_type="S")])])


def shapes_C15():
    for b in range(1, 65):
        yield "enumeration over %d bits" % b, (), P(enums=[dict(name="E", variants={"A": Num("v1"), "B": Num("v2")})], structs=[S("S", U("f", b, view=dict(type="enum", name="E")))])
    yield "enumeration of three", (), P(enums=[dict(name="E", variants={"A": Num("v1"), "B": Num("v2"), "C": Num("v3")})])
    for k in (8, 16, 24, 31, 32, 33, 48, 62):
        for b in (k, k + 1):
            # an explicit pair of numbers, largest first and largest last
            for v in ({"A": 5 + (1 << k), "B": 5, "C": 4}, {"A": 4, "B": 5, "C": 5 + (1 << k)}):
                yield "numbers 2^%d apart over %d bits" % (k, b), (), P(enums=[dict(name="E", variants=v)], structs=[S("S", U("f", b, view=dict(type="enum", name="E")))])
    yield "enumeration of one", (), P(enums=[dict(name="E", variants={"A": Num("v1")})], structs=[S("S", U("f", 3, view=dict(type="enum", name="E")))])
    yield "empty enumeration", (), P(enums=[dict(name="E", variants={})])
    for kind in ("signed", "boolean", "float"):
        yield "enumeration over %s" % kind, (), P(enums=[dict(name="E", variants={"A": 1})], structs=[S("S", F("f", kind, 8, view=dict(type="enum", name="E")))])
    yield "array of enumerations", (), P(enums=[dict(name="E", variants={"A": Num("v1")})], structs=[S("S", U("f", 8, array_len=4, view=dict(type="enum", name="E")))])


BAD_CASES = ["", "x", "-", "0x10", "1.5", " 1", "1 ", "1_0", "99999999999999999999999999999999999999999", "--1", "A"]


def shapes_C18():
    for kind in ("unsigned", "signed", "boolean"):
        for b in list(range(1, 18)) + [24, 31, 32, 33, 48, 63, 64]:
            yield "discriminant %s %d" % (kind, b), (), P(structs=[S("S", F("d", kind, b), U("x", 8 - b % 8))],
                                                          unions=[dict(name="U", discriminant="S.d", cases=[dict(name="a", case=Num("c1", -(1 << 70), 1 << 70)), dict(name="b", case=Num("c2", -(1 << 70), 1 << 70))])])
    for k in (3, 4):
        yield "%d cases" % k, (), P(structs=[S("S", F("d", "unsigned", 9), U("x", 7))], unions=[dict(name="U", discriminant="S.d", cases=[dict(name="c%d" % i, case=Num("c%d" % i, 0, 511)) for i in range(k)])])
    for kind in ("unsigned", "signed"):
        for c in BAD_CASES:
            yield "%s case %r" % (kind, c), (), P(structs=[S("S", F("d", kind, 8), U("x", 8))], unions=[dict(name="U", discriminant="S.d", cases=[dict(name="a", case=c)])])
    yield "float discriminant", (), P(structs=[S("S", F("d", "float", 32))], unions=[dict(name="U", discriminant="S.d", cases=[dict(name="a", case="1")])])
    yield "scaled discriminant", (), P(structs=[S("S", F("d", "float", 16, view=dict(type="float-multiplier", multiplier=2)))], unions=[dict(name="U", discriminant="S.d", cases=[dict(name="a", case="1")])])
    nested = [S("A", U("p", 4), U("q", 4)), S("B", U("r", 8), sub("a", "A"), sub("b", "A"), U("arr", 8, array_len=3)), S("C", sub("b1", "B"), U("s", 8), sub("b2", "B"))]
    for path in ("C.s", "C.b1.r", "C.b2.r", "C.b2.a.q", "C.b1.b.p", "B.a.p", "A.q", "C", "C.b1", "C.b1.a", "C.b1.arr", "C.s.x", "C.b1.r.z", "C.zz", "Z.a", "", ".", "C.", "C..s", "C.b1.a.q.q"):
        yield "discriminant path %r" % path, (), P(structs=nested, unions=[dict(name="U", discriminant=path, cases=[dict(name="a", case="3"), dict(name="b", case="5")])])
    for x in similar_names():
        if x[0].startswith(("discriminant", "enumerated case", "union on")):
            yield x
    en = [dict(name="E", variants={"A": Num("v1", 0, 255), "B": Num("v2", 0, 255)})]
    for cs in (("A", "B"), ("B", "A"), ("A", "A"), ("A",), ("C",), ("1",)):
        yield "enumerated cases %s" % (cs,), (), P(enums=en, structs=[S("S", U("d", 8, view=dict(type="enum", name="E")), U("x", 8))], unions=[dict(name="U", discriminant="S.d", cases=[dict(name="c%d" % i, case=c) for i, c in enumerate(cs)])])
    st = [S("H", U("d", 8), U("x", 8)), S("G", U("d", 8), U("x", 8)), S("T", U("k", 16), U("l", 16))]
    u = [dict(name="U", discriminant="H.d", cases=[dict(name="a", case="1", item_type="T"), dict(name="b", case="2", item_type="M0"), dict(name="n", case="3")])]
    u = [dict(name="U", discriminant="H.d", cases=[dict(name="a", case="1", item_type="T"), dict(name="n", case="3")])]
    for lab, fs in (("right", [mf("h", "item", item_type="H"), mf("u", "union", on="h", item_type="U")]),
                    ("of another structure", [mf("h", "item", item_type="G"), mf("u", "union", on="h", item_type="U")]),
                    ("after another", [mf("g", "item", item_type="G"), mf("h", "item", item_type="H"), mf("u", "union", on="h", item_type="U")]),
                    ("twice", [mf("h", "item", item_type="H"), mf("u", "union", on="h", item_type="U"), mf("h2", "item", item_type="H"), mf("v", "union", on="h2", item_type="U")]),
                    ("named like others", [mf("hh", "item", item_type="H"), mf("h", "item", item_type="H"), mf("hhh", "item", item_type="H"), mf("u", "union", on="h", item_type="U")]),
                    ("named like another only", [mf("hh", "item", item_type="H"), mf("u", "union", on="h", item_type="U")]),
                    ("a string", [mf("h", "string"), mf("u", "union", on="h", item_type="U")]),
                    ("a list", [mf("h", "list", max_len=10, item_type="H"), mf("u", "union", on="h", item_type="U")])):
        yield "union on a field: " + lab, (), P(structs=st, unions=u, messages=[dict(name="M", fields=fs)])


def shapes_C21():
    for e in (None, "little", "big"):
        for ie in (None, "little", "big"):
            q = dict(name="Q", endianness=ie, structs=[S("N", F("v", "signed", 32)), S("W", U("a", 16), U("b", 16)), S("O", U("one", 16, array_len=2))], messages=[dict(name="I", fields=[mf("s", "string", max_len=300)])])
            yield "protocol %s, imported protocol %s" % (e, ie), [("q", q)], P(endianness=e, imports=[dict(protocol="Q", type=t) for t in ("N", "W", "O", "I")], structs=[S("X", U("x", 16)), S("Y", sub("w", "W"), U("y", 24), U("z", 16, array_len=3))],
                  messages=[dict(name="M", fields=[mf("n", "item", item_type="N"), mf("x", "item", item_type="X"), mf("w", "item", True, item_type="W"), mf("y", "item", item_type="Y"), mf("l", "list", max_len=1000, item_type="N"), mf("s", "string", max_len=70000), mf("i", "item", item_type="I"), mf("k", "list", max_len=400, item_type="I")])])


NAMES = ("Ab", "AB", "ab", "A", "Abc", "_Ab", "Ab_", "b")


def similar_names():
    """names which differ in case, are prefixes or suffixes of each other"""
    for order in (NAMES, NAMES[::-1]):
        ss = [S(n, U("x", 8 * (i + 1)), U("y", 8)) for i, n in enumerate(order)]
        yield "structures of similar names, %s first" % order[0], (), P(structs=ss + [S("S", *[sub("f%d" % i, n) for i, n in enumerate(NAMES)])])
        es = [dict(name=n, variants={"V%d" % i: i, "W": i + 20}) for i, n in enumerate(order)]
        yield "enumerations of similar names, %s first" % order[0], (), P(enums=es, structs=[S("S", *[U("f%d" % i, 8, view=dict(type="enum", name=n)) for i, n in enumerate(NAMES)])])
        h = S("H", U("d", 8), U("x", 8))
        ms = [dict(name=n, fields=[mf("x%d" % i, "string")] * (i > 0) + [mf("h", "item", item_type="H")]) for i, n in enumerate(order)]
        for n in NAMES:
            yield "messages of similar names, %s first, %s" % (order[0], n), (), P(structs=[h], messages=ms + [dict(name="M", fields=[mf("f", "item", item_type=n), mf("l", "list", max_len=3, item_type=n)])])
        us = [dict(name=n, discriminant="H.d", cases=[dict(name="c%d" % i, case="%d" % (i + 1))]) for i, n in enumerate(order)]
        yield "unions of similar names, %s first" % order[0], (), P(structs=[h], unions=us, messages=[dict(name="M", fields=[mf("h", "item", item_type="H")] + [mf("u%d" % i, "union", on="h", item_type=n) for i, n in enumerate(NAMES)])])
        fs = S("D", *[U(n, 8) for n in order])
        for n in NAMES + ("aB", "abc", "a"):
            yield "discriminant %s among similar names, %s first" % (n, order[0]), (), P(structs=[fs], unions=[dict(name="U", discriminant="D." + n, cases=[dict(name="a", case="3")])])
            yield "structure %s among similar names, %s first" % (n, order[0]), (), P(structs=ss, unions=[dict(name="U", discriminant=n + ".x", cases=[dict(name="a", case="3")])])
        en = [dict(name="E", variants={n: i for i, n in enumerate(order)})]
        for n in NAMES + ("aB", "abc", "a"):
            yield "enumerated case %s among similar names, %s first" % (n, order[0]), (), P(enums=en, structs=[S("S", U("d", 8, view=dict(type="enum", name="E")), U("e", 8))], unions=[dict(name="U", discriminant="S.d", cases=[dict(name="a", case=n)])])
        mh = [mf(n, "item", item_type="H") for n in order]
        for n in NAMES + ("aB", "abc", "a"):
            yield "union on %s among similar names, %s first" % (n, order[0]), (), P(structs=[h], unions=[dict(name="U", discriminant="H.d", cases=[dict(name="a", case="3")])], messages=[dict(name="M", fields=mh + [mf("u", "union", on=n, item_type="U")])])


def shapes_C22():
    sx = [S("A", U("x", 16), U("y", 16)), S("B", sub("a", "A"), U("z", 8)), S("C", sub("b", "B"), sub("a", "A"))]
    en = [dict(name="E", variants={"P": 1, "Q": 2}), dict(name="F", variants={"P": 3, "R": 4})]
    yield "structures", (), P(structs=sx)
    yield "enumerations", (), P(enums=en, structs=[S("S", U("a", 8, view=dict(type="enum", name="F")), U("b", 8, view=dict(type="enum", name="E")))])
    yield "itself", (), P(structs=[S("A", sub("a", "A"))])
    yield "undefined structure", (), P(structs=sx + [S("D", sub("a", "Zzz"))])
    yield "undefined enumeration", (), P(enums=en, structs=[S("S", U("a", 8, view=dict(type="enum", name="G")))])
    yield "enumeration used as structure", (), P(enums=en, structs=[S("S", sub("a", "E"))])
    yield "structure used as enumeration", (), P(structs=[S("A", U("x", 8)), S("S", U("a", 8, view=dict(type="enum", name="A")))])
    decl = {"struct": ("structs", S("D", U("x", 8), U("y", 8))), "enum": ("enums", dict(name="D", variants={"A": 1})), "message": ("messages", dict(name="D", fields=[mf("s", "string")])),
            "union": ("unions", dict(name="D", discriminant="H.x", cases=[dict(name="a", case="1")]))}
    hdr = S("H", U("x", 8), U("y", 8))
    for a, b in itertools.combinations_with_replacement(decl, 2):
        p = P(structs=[hdr])
        for k in (a, b):
            p.setdefault(decl[k][0], [])
            p[decl[k][0]] = p[decl[k][0]] + [decl[k][1]]
        yield "%s and %s of one name" % (a, b), (), p
    ms = [dict(name="M1", fields=[mf("a", "item", item_type="A"), mf("s", "string")]), dict(name="M2", fields=[mf("m", "item", item_type="M1"), mf("b", "item", item_type="B"), mf("l", "list", max_len=3, item_type="A")]),
          dict(name="M3", fields=[mf("k", "list", max_len=4, item_type="M2")])]
    yield "messages", (), P(structs=sx, messages=ms)
    for k in ("item", "list"):
        x = dict(item_type="Zzz", max_len=3) if k == "list" else dict(item_type="Zzz")
        yield "%s of an undefined type" % k, (), P(structs=sx, messages=[dict(name="M", fields=[mf("f", k, **x)])])
        for t, add in (("E", dict(enums=en)), ("U", dict(unions=[dict(name="U", discriminant="A.x", cases=[dict(name="a", case="1")])]))):
            yield "%s of type %s" % (k, t), (), P(structs=sx, **add, messages=[dict(name="M", fields=[mf("f", k, **dict(x, item_type=t))])])
    un = [dict(name="U", discriminant="A.x", cases=[dict(name="a", case="1", item_type="B"), dict(name="b", case="2", item_type="C"), dict(name="n", case="3")]),
          dict(name="V", discriminant="C.b.a.y", cases=[dict(name="q", case="1", item_type="A")])]
    yield "unions", (), P(structs=sx, unions=un, messages=[dict(name="M", fields=[mf("a", "item", item_type="A"), mf("c", "item", item_type="C"), mf("u", "union", on="a", item_type="U"), mf("v", "union", on="c", item_type="V")])])
    yield "union case of an undefined type", (), P(structs=sx, unions=[dict(name="U", discriminant="A.x", cases=[dict(name="a", case="1", item_type="Zzz")])])
    yield "union case of an enumeration", (), P(structs=sx, enums=en, unions=[dict(name="U", discriminant="A.x", cases=[dict(name="a", case="1", item_type="E")])])
    yield "enumerated case not declared", (), P(enums=en, structs=[S("S", U("d", 8, view=dict(type="enum", name="E")), U("e", 8))], unions=[dict(name="U", discriminant="S.d", cases=[dict(name="a", case="R")])])
    yield "union on an undeclared field", (), P(structs=sx, unions=un, messages=[dict(name="M", fields=[mf("a", "item", item_type="A"), mf("u", "union", on="b", item_type="U")])])
    yield "union on a later field", (), P(structs=sx, unions=un, messages=[dict(name="M", fields=[mf("u", "union", on="a", item_type="U"), mf("a", "item", item_type="A")])])
    yield "field of an undefined union", (), P(structs=sx, unions=un, messages=[dict(name="M", fields=[mf("a", "item", item_type="A"), mf("u", "union", on="a", item_type="W")])])
    yield from similar_names()
    yield from lone_fields(("unsigned", "signed", "boolean", "float"), (8, 13, 16, 24, 32, 64))
    q = dict(name="Q", structs=sx, enums=en, unions=un, messages=ms)
    r = dict(name="R", structs=[S("A", U("other", 8), U("fields", 8)), S("Y", U("y", 8), U("z", 8))])
    use = dict(messages=[dict(name="M", fields=[mf("a", "item", item_type="A"), mf("u", "union", on="a", item_type="U"), mf("m", "item", item_type="M1"), mf("k", "list", max_len=9, item_type="B")])],
               structs=[S("S", U("e", 8, view=dict(type="enum", name="E")), sub("a", "A"))])
    im = lambda *ts: [dict(protocol=x, type=t) for x, t in ts]
    yield "imports", [("crate::q", q)], P(imports=im(*[("Q", t) for t in ("A", "B", "E", "U", "M1")]), **use)
    yield "the same import twice", [("crate::q", q)], P(imports=im(("Q", "A"), ("Q", "A")))
    yield "two imports of one name", [("crate::q", q), ("crate::r", r)], P(imports=im(("Q", "A"), ("R", "A")))
    yield "imports from two protocols", [("crate::q", q), ("crate::r", r)], P(imports=im(("Q", "B"), ("R", "A"), ("R", "Y")), structs=[S("S", sub("b", "B"), sub("a", "A"), sub("y", "Y"))])
    for t in ("Zzz", "P"):
        yield "import of undefined %s" % t, [("crate::q", q)], P(imports=im(("Q", t)))
    yield "import from an unknown protocol", [("crate::q", q)], P(imports=im(("X", "A")))
    yield "no import, no type", [("crate::q", q)], P(structs=[S("S", sub("a", "A"))])
    for k in decl:
        for t in ("A", "E", "U", "M1"):
            d = dict(decl[k][1], name=t)
            p = P(imports=im(("Q", t)), structs=[hdr])
            p[decl[k][0]] = p.get(decl[k][0], []) + [d]
            yield "%s declared again as %s" % (t, k), [("crate::q", q)], p
    mid = dict(name="Q2", imports=im(("Q", "A"), ("Q", "E")), structs=[S("Z", sub("a", "A"))])
    yield "types of types of imports", [("crate::q", q), ("crate::q2", mid)], P(imports=im(("Q2", "Z")), structs=[S("S", sub("z", "Z"))])
    yield "import of an import", [("crate::q", q), ("crate::q2", mid)], P(imports=im(("Q2", "A")), structs=[S("S", sub("z", "A"))])
    near = lambda n: [x for x in (n[:-1], n[1:], n[0], n[-1], n + n[-1], n + "x", "x" + n, n + " ", " " + n, n.lower(), n.upper(), n[::-1], n + ".", "") if x != n]
    for n in near("Kind"):
        # a declared name which is nearly the one referred to, before and after it; a reference which is nearly a declared name
        for order in (("Kind", n), (n, "Kind"), (n,)) if n else (("Kind",),):
            lab = "%s declared, referred to as %s" % (" and ".join(map(repr, order)), "Kind" if n else "nothing")
            ref = "Kind" if n else ""
            if "." not in n:
                yield "structure: " + lab, (), P(structs=[S(x, U("x%d" % i, 8)) for i, x in enumerate(order)] + [S("Z", sub("a", ref))], messages=[dict(name="M", fields=[mf("f", "item", item_type="Z")])])
                yield "item: " + lab, (), P(structs=[S(x, U("x%d" % i, 8)) for i, x in enumerate(order)], messages=[dict(name="MM", fields=[mf("f", "item", item_type=ref), mf("g", "list", max_len=4, item_type=ref)])])
                yield "item of message: " + lab, (), P(messages=[dict(name=x, fields=[mf("s%d" % i, "string")]) for i, x in enumerate(order)] + [dict(name="MM", fields=[mf("f", "item", item_type=ref)])])
                yield "list of message: " + lab, (), P(messages=[dict(name=x, fields=[mf("s%d" % i, "string")]) for i, x in enumerate(order)] + [dict(name="MM", fields=[mf("f", "list", max_len=4, item_type=ref)])])
                yield "case: " + lab, (), P(structs=[S(x, U("x%d" % i, 8)) for i, x in enumerate(order)] + [S("Hdr", U("d", 8))], unions=[dict(name="U", discriminant="Hdr.d", cases=[dict(name="a", case="1", item_type=ref)])])
                yield "enumeration: " + lab, (), P(enums=[dict(name=x, variants={"A%d" % i: i}) for i, x in enumerate(order)], structs=[S("Z", U("a", 8, view=dict(type="enum", name=ref)))])
                yield "import: " + lab, [("crate::q", dict(name="Q", structs=[S(x, U("x%d" % i, 8)) for i, x in enumerate(order)]))], P(imports=im(("Q", ref)), structs=[S("Z", sub("a", ref or "Kind"))])
                yield "import from: " + lab, [("crate::m%d" % i, dict(name=x, structs=[S("T", U("x%d" % i, 8))])) for i, x in enumerate(order)], P(imports=im((ref, "T")), structs=[S("Z", sub("a", "T"))])
                yield "discriminant structure: " + lab, (), P(structs=[S(x, U("d%d" % i, 8), U("e", 8)) for i, x in enumerate(order)], unions=[dict(name="U", discriminant=ref + ".e", cases=[dict(name="a", case="1")])])
                yield "discriminant field: " + lab, (), P(structs=[S("Hdr", *[U(x, 8) for x in order])], unions=[dict(name="U", discriminant="Hdr." + ref, cases=[dict(name="a", case="1")])])
                yield "discriminant step: " + lab, (), P(structs=[S("I", U("d", 8)), S("Hdr", *[sub(x, "I") for x in order])], unions=[dict(name="U", discriminant="Hdr.%s.d" % ref, cases=[dict(name="a", case="1")])])
                yield "enumerated case: " + lab, (), P(enums=[dict(name="E", variants={x: 3 + i for i, x in enumerate(order)})], structs=[S("Hdr", U("d", 8, view=dict(type="enum", name="E")))],
                                                      unions=[dict(name="U", discriminant="Hdr.d", cases=[dict(name="a", case=ref)])])
                yield "union type: " + lab, (), P(structs=[S("Hdr", U("d", 8), U("e", 8))], unions=[dict(name=x, discriminant="Hdr.d", cases=[dict(name="a%d" % i, case="1")]) for i, x in enumerate(order)],
                                                 messages=[dict(name="MM", fields=[mf("h", "item", item_type="Hdr"), mf("u", "union", on="h", item_type=ref)])])
                yield "union on: " + lab, (), P(structs=[S("Hdr", U("d", 8), U("e", 8))], unions=[dict(name="U", discriminant="Hdr.d", cases=[dict(name="a", case="1")])],
                                               messages=[dict(name="MM", fields=[mf(x, "item", item_type="Hdr") for x in order] + [mf("u", "union", on=ref, item_type="U")])])
    yield "import of one type along two ways", [("crate::q", q), ("crate::q2", mid)], P(imports=im(("Q2", "A"), ("Q", "A")), structs=[S("S", sub("z", "A"))])


KINDS24 = {
    "structure": lambda n: [mf(n, "item", item_type="S")],
    "number": lambda n: [mf(n, "item", item_type="N")],
    "fixed message": lambda n: [mf(n, "item", item_type="Fix")],
    "dynamic message": lambda n: [mf(n, "item", item_type="Dyn")],
    "message with list": lambda n: [mf(n, "item", item_type="Lst")],
    "message with payload": lambda n: [mf(n, "item", item_type="Pay")],
    "deep payload": lambda n: [mf(n, "item", item_type="Pay2")],
    "list of structures": lambda n: [mf(n, "list", max_len=9, item_type="S")],
    "list of fixed messages": lambda n: [mf(n, "list", max_len=9, item_type="Fix")],
    "list of dynamic messages": lambda n: [mf(n, "list", max_len=9, item_type="Dyn")],
    "list of lists": lambda n: [mf(n, "list", max_len=9, item_type="Lst")],
    "list of payloads": lambda n: [mf(n, "list", max_len=9, item_type="Pay")],
    "list of deep payloads": lambda n: [mf(n, "list", max_len=9, item_type="Pay2")],
    "list of union payloads": lambda n: [mf(n, "list", max_len=9, item_type="UPay")],
    "string": lambda n: [mf(n, "string", max_len=9)],
    "terminated string": lambda n: [mf(n, "string")],
    "payload": lambda n: [mf(n, "payload")],
    "fixed union": lambda n: [mf("h" + n, "item", item_type="H"), mf(n, "union", on="h" + n, item_type="UF")],
    "dynamic union": lambda n: [mf("h" + n, "item", item_type="H"), mf(n, "union", on="h" + n, item_type="UD")],
}
OPT24 = ("structure", "number", "dynamic message", "message with list", "message with payload", "list of structures", "list of dynamic messages", "string", "terminated string", "payload")
KINDS24.update({"optional " + k: (lambda n, g=KINDS24[k]: [dict(x, optional=True) for x in g(n)]) for k in OPT24})
LATE24 = {
    "union with list": lambda n: [mf("h" + n, "item", item_type="H"), mf(n, "union", on="h" + n, item_type="UL")],
    "union with payload": lambda n: [mf("h" + n, "item", item_type="H"), mf(n, "union", on="h" + n, item_type="UP")],
}


def placement(names):
    fields = list(itertools.chain(*[dict(KINDS24, **LATE24)[k]("f%d" % i) for i, k in enumerate(names)]))
    base = dict(name="Q", structs=[S("S", U("x", 12), U("y", 4)), S("N", U("x", 16)), S("H", U("d", 8), U("e", 8))],
                messages=[dict(name="Fix", fields=[mf("s", "item", item_type="S")]), dict(name="Dyn", fields=[mf("s", "string")]),
                          dict(name="Lst", fields=[mf("n", "item", item_type="N"), mf("l", "list", max_len=3, item_type="Dyn")]), dict(name="Pay", fields=[mf("n", "item", item_type="N"), mf("p", "payload")]),
                          dict(name="Pay2", fields=[mf("p", "item", item_type="Pay")])])
    case = lambda *ts: [dict(name="c%d" % i, case=str(i), item_type=t) for i, t in enumerate(ts)]
    mid = dict(name="R", imports=[dict(protocol="Q", type=t) for t in ("S", "N", "H", "Fix", "Dyn", "Lst", "Pay", "Pay2")],
               unions=[dict(name="UF", discriminant="H.d", cases=case("S", "Fix", None)), dict(name="UD", discriminant="H.d", cases=case("S", "Dyn", None)),
                       dict(name="UL", discriminant="H.d", cases=case("Lst", "Fix")), dict(name="UP", discriminant="H.d", cases=case("S", "Pay2"))],
               messages=[dict(name="UPay", fields=[mf("h", "item", item_type="H"), mf("u", "union", on="h", item_type="UP")])])
    imp = [dict(protocol="Q", type=t) for t in ("S", "N", "H", "Fix", "Dyn", "Lst", "Pay", "Pay2")] + [dict(protocol="R", type=t) for t in ("UF", "UD", "UL", "UP", "UPay")]
    return [("q", base), ("r", mid)], P(imports=imp, messages=[dict(name="M", fields=fields)])


def shapes_C24():
    ks = list(KINDS24) + list(LATE24)
    rnd = random.Random(int(os.environ.get("VERIF_SEED") or 1))
    for n in (1, 2, 3):
        combos = list(itertools.product(ks, repeat=n))
        if n == 3 and os.environ.get("VERIF_TIER", "quick") == "quick":
            combos = rnd.sample(combos, 400)
        for c in combos:
            i, s = placement(c)
            yield ", ".join(c), i, s
    for a in ("item", "list", "case"):
        for t in ("Fix", "Dyn", "Lst"):
            ms = [dict(name="Fix", fields=[mf("s", "item", item_type="S")]), dict(name="Dyn", fields=[mf("s", "string")]), dict(name="Lst", fields=[mf("l", "list", max_len=3, item_type="Dyn")])]
            if a == "case":
                q = dict(name="Q", structs=[S("S", U("x", 12), U("d", 4))], messages=ms)
                yield "%s embedded by a %s" % (t, a), [("q", q)], P(imports=[dict(protocol="Q", type=x) for x in ("S", "Fix", "Dyn", "Lst")], unions=[dict(name="U", discriminant="S.d", cases=[dict(name="c", case="1", item_type=t)])])
            else:
                x = dict(item_type=t, max_len=4) if a == "list" else dict(item_type=t)
                yield "%s embedded by a %s" % (t, a), (), P(structs=[S("S", U("x", 12), U("d", 4))], messages=ms + [dict(name="M", fields=[mf("f", a, **x)])])
                yield "%s embedded by an optional %s" % (t, a), (), P(structs=[S("S", U("x", 12), U("d", 4))], messages=ms + [dict(name="M", fields=[mf("f", a, True, **x)])])


def shapes_C26():
    yield "enumeration of two", (), P(enums=[dict(name="E", variants={"A": Num("v1"), "B": Num("v2")})])
    yield "enumeration of three", (), P(enums=[dict(name="E", variants={"A": Num("v1"), "B": Num("v2"), "C": Num("v3")})])


def shapes_C19():
    return shapes_C20()


def shapes_C20():
    seen = set()
    for p in ("C12", "C13", "C14", "C15", "C18", "C21", "C22", "C23", "C24"):
        for lab, i, s in shapes(p):
            yield p + ": " + lab, i, s
    for kind in ("unsigned", "signed", "boolean", "float"):
        for b in list(range(0, 71, 1)):
            yield "%s[n] of %d bits" % (kind, b), (), P(structs=[S("S", U("p", 8, array_len=Num("m")), F("f", kind, b, array_len=Num("n")))])
        big = Num("b", 65)
        yield "%s[n] beyond 64 bits" % kind, (), P(structs=[S("S", F("f", kind, big, array_len=Num("n")))])
        for v in (dict(type="enum", name="E"), dict(type="float-range", min=Num("lo"), max=Num("hi")), dict(type="float-multiplier", multiplier=Num("m"))):
            for b in (0, 1, 7, 8, 31, 32, 33, 63, 64, 65, big):
                yield "%s of %s bits with %s" % (kind, b, v["type"]), (), P(enums=[dict(name="E", variants={"A": Num("v1"), "B": Num("v2")})], structs=[S("S", F("f", kind, b, view=v, array_len=Num("n")))])
    yield "nothing", (), P()
    yield "empty lists", (), P(structs=[], messages=[], enums=[], unions=[], imports=[])
    yield "empty structure and message", (), P(structs=[S("S")], messages=[dict(name="M", fields=[]), dict(name="N", fields=[mf("s", "item", item_type="S"), mf("m", "item", item_type="M"), mf("l", "list", max_len=Num("x"), item_type="S"), mf("k", "list", max_len=Num("y"), item_type="M")])])
    yield "empty union", (), P(structs=[S("S", U("x", 8), U("y", 8))], unions=[dict(name="U", discriminant="S.x", cases=[])])


def job(b, prop, lo, hi):
    tot = collections.defaultdict(int)
    tot["unknown"], tot["fns"] = set(), set()
    C = compiler(b)
    where = places(C)
    rows = []
    for lab, imports, schema in shapes(prop)[lo::hi]:
        rows += one(C, where, prop, lab, list(imports), schema, tot)
    return rows, tot
