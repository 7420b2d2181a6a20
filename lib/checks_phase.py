"""The code generator, the options of the generator and the build helper,
interpreted on the result of the interpreted compiler."""
import collections
import os
import random
import re

import checks_comp as CC
import comp
import natives_comp as NC
import natives_gen as NG
import numdom as N
import rules
import spec
from checks_comp import P, S, U, F, mf, sub
from comp import Num, V
from interp import Give, Fork, Adt, Arr, Tup, Ptr, SliceV, State
from numdom import K, Lin, var

OUT = "/out"
FLAGS = ("reads", "writes", "enums", "structs", "messages", "unions")


# ------------------------------------------------------------------ running the generator

def start(C, order=None, fs="ok"):
    I = C.interp()
    I.hard = 1 << 20
    I.unroll = 1 << 20
    I.MAXSTEPS = 40000000
    I.order, I.fs, I.record = order, fs, True
    return I


def chain(C, I, imports, last, order=None):
    """[(state, result)] of compiling `last` after `imports`"""
    work = [(State(), ())]
    for path, s in imports:
        nxt = []
        for st, imp in work:
            for q, r in C.go(I, st, s, Tup(imp, "map")):
                if r.var == 0:
                    nxt.append((q, imp + (Tup((NC.text(s["name"]), Tup((NC.text(path), r.f[0])))),)))
        work = nxt
    outs = []
    for st, imp in work:
        outs += C.go(I, st, last, Tup(imp, "map"))
    return outs


def generate(C, I, st, protos, flags=None, before=None):
    """the options entry point on compiled protocols -> [(state, result)]"""
    if before:
        return I.call_body(st, "options_twice@gen", [Arr(tuple(protos), "vec"), Arr(tuple(before), "arr"), Arr(tuple(flags), "arr"), NC.text(OUT)], "root")
    fl = tuple(("c", True) if flags is None else f for f in (flags or FLAGS))
    return I.call_body(st, "options@gen", [Arr(tuple(protos), "vec"), Arr(fl, "arr"), NC.text(OUT)], "root")


def written(st):
    """{path: text} of a path class; the last writer wins"""
    out = {}
    for e in NG.effects(st):
        if e[0] == "write":
            p = NC.known(e[1])
            if p is None:
                raise Give("path of a written file")
            out[p.decode()] = e[2]
    return out


def parts(st, t):
    return tuple(p if isinstance(p, bytes) or p[0] != "num" else ("num", st.norm(p[1])) for p in NC.parts_of(t))


def render(t, w):
    """concrete text under an instance; None if a piece has no value"""
    out = b""
    for p in t:
        if isinstance(p, bytes):
            out += p
        elif p[0] == "num":
            try:
                out += str(N.evaluate(p[1], w)).encode()
            except KeyError:
                return None
        else:
            return None
    return out


def flat(t):
    """text with every abstract piece as a marker"""
    return b"".join(p if isinstance(p, bytes) else b"<%d>" % i for i, p in enumerate(t))


# ------------------------------------------------------------------ one unit

def unit(label, tot, body):
    """runs body(unit) which returns (interpreter, Env); -> rows"""
    N.reset()
    U_ = Unit(label, tot)
    try:
        rules.limit(rules.unit_limit())
        body(U_)
        U_.done()
    except rules.TimeUp:
        U_.put("analysis", "unknown", "", "gave up: time")
    except Give as e:
        if os.environ.get("VERIF_TRACE"):
            print("GIVE", label, str(e)[:300], [s for _, s in getattr(e, "stack", [])][-4:])
        U_.put("analysis", "unknown", "", "gave up: %s at %s" % (str(e)[:200], [s for _, s in getattr(e, "stack", [])][-3:]))
    except Fork:
        U_.put("analysis", "unknown", "", "undecided value")
    except Exception as e:
        if os.environ.get("VERIF_TRACE"):
            import traceback
            traceback.print_exc()
        U_.put("analysis", "unknown", "", "internal: %r" % (e,))
    finally:
        rules.limit(0)
    return [o.row() for o in U_.res.values()]


class Unit(rules.Env):
    def __init__(self, label, tot):
        rules.Env.__init__(self, None, "exact", label)
        self.tot, self.Is = tot, []

    def use(self, I):
        self.Is.append(I)
        return I

    def done(self):
        for I in self.Is:
            self.tot["steps"] += I.steps
            self.tot["calls"] += I.calls_seen
            self.tot["fns"] |= I.fns_seen
            self.tot["unknown"] |= I.unknown_calls
            if I.truncated or I.unknown_calls:
                self.put("analysis", "unknown", "", "cut short or unmodelled: %s" % sorted(I.unknown_calls)[:3])
        self.tot["units"] += 1


def kinds(v, I):
    """variant name of a result's error"""
    e = V(I, None, v)["0"]
    return e.var


# ------------------------------------------------------------------ C25 (and the generator's part of C20)

def no_panic(u, I, name):
    live = [q for q in I.panics if not q.st.bad()]
    for q in live:
        u.that(q.st, False, name, q.span, "%s in %s" % (q.kind, q.fn[:120]))
    if not live:
        u.put(name, "proved")


def unit_C25(C, lab, imports, schema, tot, only=None):
    name = "generating code for an accepted schema " + ("does not panic" if only else "succeeds")

    def body(u):
        I = u.use(start(C))
        some = False
        for st, r in chain(C, I, imports, schema):
            if r.var:
                continue
            some = True
            n = len(I.panics)
            outs = generate(C, I, st, [r.f[0]])
            tot["outs"] += len(outs)
            for q, v in outs:
                u.that(q, v.var == 0 or only is not None, name, "", "generation returned an error")
            for p in I.panics[n:]:
                u.that(p.st, False, name, p.span, "panics: %s in %s" % (p.kind, p.fn[:120]))
            if not outs and not I.panics[n:]:
                u.put(name, "unknown", "", "no path through the generator")
        if not some:
            # the compiler refuses the shape: nothing to generate (what it has
            # to accept is decided by C22 to C24)
            tot["refused"] += 1
            u.put(name, "proved")
    return unit(lab, tot, body)


def unit_C20(C, lab, imports, schema, tot):
    return unit_C25(C, lab, imports, schema, tot, "panics")


def unit_C19(C, lab, imports, schema, tot):
    name = "no undefined behaviour"

    def body(u):
        I = u.use(start(C))
        for st, r in chain(C, I, imports, schema):
            if not r.var:
                tot["outs"] += len(generate(C, I, st, [r.f[0]]))
        for p in I.panics:
            if p.kind.startswith("undefined behaviour"):
                u.that(p.st, False, name, p.span, "%s in %s" % (p.kind[21:], p.fn[:120]))
        u.put(name, "proved")
    return unit(lab, tot, body)


def shapes_C19():
    return shapes_C25()


def shapes_C20():
    return shapes_C25()


def shapes_C25():
    """every kind of field, view, case and option the schema language has"""
    full = os.environ.get("VERIF_TIER", "quick") != "quick"
    E = [dict(name="E", variants={"A": 0, "B": Num("v", 1, 3)})]
    lead = [U("head", 8, array_len=Num("n", 1, 1 << 40))]
    for end in ("little", "big"):
        for kind in ("unsigned", "signed"):
            for b in (range(1, 65) if full else (1, 3, 8, 11, 16, 24, 32, 33, 48, 63, 64)):
                for v in (None, dict(type="float-range", min=Num("lo"), max=Num("hi")), dict(type="float-multiplier", multiplier=Num("m"))):
                    if v is not None and b not in (3, 8, 11, 32, 64) and not full:
                        continue
                    yield "%s %s %d %s" % (end, kind, b, (v or {}).get("type", "")), (), P(endianness=end, structs=[S("S", U("x", 4), F("f", kind, b, view=v), U("y", 4)), S("T", *(lead + [F("f", kind, b, view=v)]))])
                if b in (8, 16, 24, 32, 48, 64) or full:
                    yield "%s %s[n] %d" % (end, kind, b), (), P(endianness=end, structs=[S("S", F("f", kind, b, array_len=Num("m", 1)), U("x", 8))])
            for b in (8, 12, 32):
                yield "%s enumeration in %s %d" % (end, kind, b), (), P(endianness=end, enums=E, structs=[S("S", F("f", kind, b, view=dict(type="enum", name="E")), U("x", 4))])
        for b in (1, 2, 7, 8, 16, 32, 64):
            yield "%s boolean %d" % (end, b), (), P(endianness=end, structs=[S("S", F("f", "boolean", b), U("x", 7)), S("T", F("f", "boolean", 8, array_len=2))])
        for b in (32, 64):
            yield "%s float %d" % (end, b), (), P(endianness=end, structs=[S("S", F("f", "float", b), U("x", 7), F("g", "float", b)), S("T", F("f", "float", b, array_len=2))])
        yield end + " nested", (), P(endianness=end, structs=[S("S", U("a", 4), U("b", 4)), S("T", sub("s", "S"), U("x", 16), sub("t", "S")), S("V", sub("t", "T"))])
    for n, k in list(CC.KINDS24.items()) + list(CC.LATE24.items()):
        yield "message of one " + n, *CC.placement([n])
        yield "message of a number, " + n, *CC.placement(["number", n] if "number" in CC.KINDS24 else [n])
    base = [S("S", U("x", 12), U("y", 4)), S("N", U("x", 16)), S("H", U("d", 8), U("e", 8))]
    ms = [dict(name="A", fields=[mf("s", "item", item_type="S")]), dict(name="B", fields=[mf("s", "string")]), dict(name="Z", fields=[])]
    for opt in (None, True):
        for end in ("little", "big"):
            for t in ("S", "N", "A", "B", "Z"):
                yield "%s %s%s" % (end, "optional " if opt else "", t), (), P(endianness=end, structs=base, messages=ms + [dict(name="M", fields=[mf("a", "item", opt, item_type=t), mf("n", "item", item_type="N")])])
                for ml in (200, 70000):
                    yield "%s %slist of %d %s" % (end, "optional " if opt else "", ml, t), (), P(endianness=end, structs=base, messages=ms + [dict(name="M", fields=[mf("n", "item", item_type="N"), mf("a", "list", opt, item_type=t, max_len=ml), mf("m", "item", item_type="N")])])
            for k in (dict(type="string"), dict(type="string", max_len=100), dict(type="string", max_len=70000), dict(type="payload"), ):
                kk = dict(k)
                yield "%s %s%s" % (end, "optional " if opt else "", k), (), P(endianness=end, structs=base, messages=[dict(name="M", fields=[mf("n", "item", item_type="N"), mf("a", kk.pop("type"), opt, **kk)])])
            for cs in (["S", "N", None], ["A", "B", "S"], ["B"], [None], ["N"], ["A"], ["Z", None]):
                u = dict(name="U", discriminant="H.d", cases=[dict(name="c%d" % i, case=str(i), item_type=t) for i, t in enumerate(cs)])
                yield "%s %sunion of %s" % (end, "optional " if opt else "", cs), [("crate::q", dict(name="Q", endianness=end, structs=base, messages=ms))], P(
                    endianness=end, imports=[dict(protocol="Q", type=t) for t in ("S", "N", "H", "A", "B", "Z")], unions=[u],
                    messages=[dict(name="M", fields=[mf("h", "item", item_type="H"), mf("u", "union", opt, on="h", item_type="U")])])
    yield "nothing", (), P()
    yield "empty structure", (), P(structs=[S("E0")])



# ------------------------------------------------------------------ C22: names in generated code

def unit_C22(C, lab, imports, schema, tot):
    """every identifier which starts with the (unique) name of an imported type
    carries its import path, one which starts with the name of a local type none"""
    owner = {i["type"]: i["protocol"] for i in schema.get("imports", ())}
    paths = {q["name"]: path for path, q in imports}
    local = [x["name"] for k in ("structs", "messages", "enums", "unions") for x in schema.get(k, ())]

    def body(u):
        I = u.use(start(C))
        if lab.startswith("build"):
            I.env, I.fs = {b"OUT_DIR": b"/out"}, "ok"
            I.models = dict(zip((b"imported.json5", b"imported2.json5", b"first.json5"), (C.m.schema(x) for x in (imports[0][1], imports[1][1], schema))))
            runs = [[(q, None) for q, _ in I.call_body(State(), "build_script_two_imports@gen", [], "root")]]
            outs = runs
        else:
            outs = chain(C, I, imports, schema)
            runs = [generate(C, I, st, [r.f[0]]) if r.var == 0 else [(st, r)] for st, r in outs]
        if not outs:
            u.put("names in generated code", "unknown", "", "an imported schema was not accepted")
        for run in runs:
            for q, v in run:
                tot["outs"] += 1
                if v is not None and v.var:
                    u.put("names in generated code", "unknown", "", "the schema was not accepted or not generated")
                    continue
                text = "\n".join(flat(parts(q, t)).decode("utf8", "replace") for t in written(q).values())
                text = re.sub(r"//[^\n]*", "", text)
                for t, proto in owner.items():
                    path, name = paths[proto], "imported types are named by their import path"
                    hits = re.findall(r"((?:\b\w+\s*::\s*)*)\b(" + t + r"\w*)", text)
                    if re.search(r"\buse\b[^;]*\b" + t + r"\b", text) or not hits:
                        u.put(name, "unknown", "", "%s is brought into scope or not named" % t)
                        continue
                    bad = [a + b for a, b in hits if re.sub(r"\s", "", a) != path + "::"]
                    u.that(q, not bad, name, "", "%s of %s (imported as %s) is written as %s" % (t, proto, path, bad[:1]))
                for t in local:
                    hits = re.findall(r"((?:\b\w+\s*::\s*)+)\b(" + t + r"\w*)", text)
                    bad = [a + b for a, b in hits if any(re.sub(r"\s", "", a).startswith(p + "::") for p in paths.values())]
                    u.that(q, not bad, "local types are named without an import path", "", "%s is written as %s" % (t, bad[:1]))
    return unit(lab, tot, body)


def shapes_C22():
    def lib(pre):
        return dict(name=pre + "lib", structs=[S(pre + "Str", U("x", 12), U("y", 4)), S(pre + "Hdr", U("d", 8), U("e", 8))],
                    enums=[dict(name=pre + "Enu", variants={"A": 0, "B": 1})],
                    messages=[dict(name=pre + "Msg", fields=[mf("s", "item", item_type=pre + "Str")]), dict(name=pre + "Txt", fields=[mf("t", "string")])])

    def withunion(pre):
        d = lib(pre)
        d["unions"] = [dict(name=pre + "Uni", discriminant=pre + "Hdr.d", cases=[dict(name="a", case="1", item_type=pre + "Str"), dict(name="n", case="2")])]
        return d

    def imp(pre, *ts):
        return [dict(protocol=pre + "lib", type=pre + t) for t in ts]

    def users(pre, union=True):
        ms = [dict(name="LocA", fields=[mf("h", "item", item_type=pre + "Hdr"), mf("m", "item", item_type=pre + "Msg"), mf("o", "item", True, item_type=pre + "Str")]),
              dict(name="LocB", fields=[mf("l", "list", item_type=pre + "Str", max_len=9)]), dict(name="LocC", fields=[mf("k", "list", item_type=pre + "Txt", max_len=900)]),
              dict(name="LocD", fields=[mf("p", "list", True, item_type=pre + "Str", max_len=9)]), dict(name="LocE", fields=[mf("o", "item", True, item_type=pre + "Txt")])]
        if union:
            ms.append(dict(name="LocMsg", fields=[mf("h", "item", item_type=pre + "Hdr"), mf("u", "union", on="h", item_type="LocUni")]))
        ms.append(dict(name="LocTop", fields=[mf("a", "item", item_type="LocA"), mf("z", "item", item_type="LocStr")]))
        return dict(structs=[S("LocStr", sub("s", pre + "Str"), U("f", 8, view=dict(type="enum", name=pre + "Enu")), U("g", 8))],
                    unions=[dict(name="LocUni", discriminant=pre + "Hdr.d", cases=[dict(name="m", case="1", item_type=pre + "Msg"), dict(name="s", case="2", item_type=pre + "Str"), dict(name="n", case="3")])] if union else [],
                    messages=ms)
    all_ = ("Str", "Hdr", "Enu", "Msg", "Txt")
    yield "one import path", [("crate::q", lib("Qa"))], P(imports=imp("Qa", *all_), **users("Qa"))
    yield "a path of one word", [("qlib", lib("Qa"))], P(imports=imp("Qa", *all_), **users("Qa"))
    yield "two import paths", [("crate::q", lib("Qa")), ("other::deep::r", lib("Rb"))], P(imports=imp("Rb", "Enu", "Msg") + imp("Qa", *all_), **dict(users("Qa"), structs=users("Qa")["structs"] + [S("LocTwo", U("f", 8, view=dict(type="enum", name="RbEnu")))], messages=users("Qa")["messages"] + [dict(name="LocOther", fields=[mf("a", "item", item_type="RbMsg")])]))
    yield "build of two imports", [("crate::q", lib("Qa")), ("crate::r", lib("Rb"))], P(imports=imp("Rb", "Enu") + imp("Qa", *all_), **dict(users("Qa"), structs=users("Qa")["structs"] + [S("LocTwo", U("f", 8, view=dict(type="enum", name="RbEnu")))]))
    yield "an imported union", [("crate::q", withunion("Qa"))], P(imports=imp("Qa", "Hdr", "Uni"), messages=[dict(name="LocMsg", fields=[mf("h", "item", item_type="QaHdr"), mf("u", "union", on="h", item_type="QaUni"), mf("w", "union", True, on="h", item_type="QaUni")])])
    # what is declared here but not imported is the local one
    yield "same names on both sides", [("crate::q", lib("Qa"))], P(imports=imp("Qa", "Hdr"), **{k: v for k, v in lib("Qa").items() if k in ("enums", "messages")}, structs=[S("QaStr", U("z", 8)), S("LocStr", sub("s", "QaStr"), sub("h", "QaHdr"))])


# ------------------------------------------------------------------ C26

def merge(a, b):
    """the states of two runs on the same input, or None if no input has both"""
    m = a.copy()
    for l in b.eqs:
        if not m.add_eq(l):
            return None
    for l in b.rows:
        if not m.add_ge(l):
            return None
    for l in b.neqs:
        if not m.add_ne(l):
            return None
    for k, v in b.facts.items():
        if m.facts.setdefault(k, v) != v:
            return None
    m.loopy = a.loopy or b.loopy
    m.imp = a.imp + b.imp
    return m


def same_text(u, m, x, y, name, where=""):
    """two texts are equal under m"""
    a, b = parts(m, x), parts(m, y)
    if a == b:
        return u.put(name, "proved")
    if any(not isinstance(p, bytes) and p[0] == "nondet" for p in a + b):
        p = [p for p in a + b if not isinstance(p, bytes) and p[0] == "nondet"][0]
        return u.that(m, False, name, where, "the text contains what differs from run to run: %s" % (p[1],))
    if rules.exact_path(m):
        w = N.witness(m.rows, m.eqs, m.neqs, tries=300, extra=[p[1] for p in a + b if not isinstance(p, bytes) and p[0] == "num"])
        if w is not None:
            p, q = render(a, w), render(b, w)
            if p is not None and q is not None:
                if p != q:
                    return u.that(m, False, name, where, diff(p, q))
            elif all(isinstance(t, bytes) for t in a) != all(isinstance(t, bytes) for t in b) or flat(a) != flat(b):
                da, db = [t for t in a if not isinstance(t, bytes)], [t for t in b if not isinstance(t, bytes)]
                if sorted(map(repr, da)) == sorted(map(repr, db)):
                    return u.that(m, False, name, where, diff(flat(a), flat(b)))
    u.put(name, "unknown", where, "%r / %r" % (str(a)[:100], str(b)[:100]))


def diff(p, q):
    i = next((i for i, (x, y) in enumerate(zip(p, q)) if x != y), min(len(p), len(q)))
    return "%r in one run, %r in another" % (p[max(0, i - 30):i + 40].decode("utf8", "replace"), q[max(0, i - 30):i + 40].decode("utf8", "replace"))


def unit_C26(C, lab, imports, schema, tot, orders=(1, 2)):
    def body(u):
        runs = []
        for o in (0,) + tuple(orders):
            I = u.use(start(C, o))
            res = []
            for st, r in chain(C, I, imports, schema):
                if r.var:
                    res.append((st, r, None))
                    continue
                for q, v in generate(C, I, st, [r.f[0]]):
                    res.append((q, v, written(q) if v.var == 0 else None))
            runs.append(res)
            tot["outs"] += len(res)
        for other in runs[1:]:
            for st, r, w in runs[0]:
                for st2, r2, w2 in other:
                    m = merge(st, st2)
                    if m is None or m.bad():
                        continue
                    if (w is None) != (w2 is None):
                        u.that(m, False, "every run accepts the schema or every run refuses it", "", "accepted by one run and refused by another")
                        continue
                    if w is None:
                        u.put("every run accepts the schema or every run refuses it", "proved")
                        continue
                    u.that(m, list(w) == list(w2), "every run writes the same files", "", "%s / %s" % (list(w), list(w2)))
                    for k in w:
                        if k in w2:
                            same_text(u, m, w[k], w2[k], "every run writes the same text into " + k.rsplit("/", 1)[-1])
    return unit(lab, tot, body)


def shapes_C26():
    for n in (2, 3):
        yield "enumeration of %d" % n, (), P(enums=[dict(name="E", variants={"V%d" % i: Num("v%d" % i, 0, 1 << 40) for i in range(n)})])
    yield "enumeration of five", (), P(enums=[dict(name="E", variants={"V%d" % i: 10 - i for i in range(5)})], structs=[S("S", U("x", 8, view=dict(type="enum", name="E")))])
    far = [1 + (1 << k) for k in (8, 16, 31, 32, 40, 52, 62)] + [1, 0, 2, 3, (1 << 32) - 1, (1 << 63) - 1]
    yield "enumeration of distant numbers", (), P(enums=[dict(name="E", variants={"V%d" % i: v for i, v in enumerate(far)})])
    for k in (4, 8, 12, 16, 24, 31, 32, 33, 48, 53, 62):
        yield "enumeration of two numbers 2^%d apart" % k, (), P(enums=[dict(name="E", variants={"A": 5 + (1 << k), "B": 5, "C": 4})])
    yield "two enumerations", (), P(enums=[dict(name="E", variants={"A": 1, "B": 0}), dict(name="D", variants={"X": 0, "Y": 1})])
    yield "three structures", (), P(structs=[S("S", U("x", 8)), S("T", sub("a", "S"), U("y", 16)), S("V", sub("t", "T"), F("z", "float", 32))])
    base = dict(name="Q", structs=[S("S", U("x", 12), U("y", 4)), S("H", U("d", 8), U("e", 8))], enums=[dict(name="E", variants={"A": 1, "B": 2, "C": 0})],
                messages=[dict(name="A", fields=[mf("s", "item", item_type="S")]), dict(name="B", fields=[mf("s", "string")])])
    us = [dict(name="U", discriminant="H.d", cases=[dict(name="a", case="1", item_type="A"), dict(name="b", case="2", item_type="B"), dict(name="s", case="0", item_type="S")]),
          dict(name="W", discriminant="H.e", cases=[dict(name="n", case="7"), dict(name="s", case="8", item_type="S")])]
    m = dict(name="M", fields=[mf("h", "item", item_type="H"), mf("u", "union", on="h.d", item_type="U"), mf("o", "string", True), mf("l", "list", item_type="S", max_len=9), mf("k", "list", item_type="B", max_len=900)])
    m["fields"][1]["info"]["on"] = "h"
    for end in ("little", "big"):
        yield end + " imports, unions and messages", [("crate::q", dict(base, endianness=end))], P(
            endianness=end, imports=[dict(protocol="Q", type=t) for t in ("S", "H", "E", "A", "B")], unions=us,
            structs=[S("T", sub("s", "S"), U("f", 8, view=dict(type="enum", name="E")), U("g", 3))], messages=[m, dict(name="K", fields=[mf("a", "item", item_type="A"), mf("t", "item", item_type="T")])])
        yield end + " views", (), P(endianness=end, structs=[S("S", U("a", 3, view=dict(type="float-range", min=Num("lo"), max=Num("hi"))), F("b", "signed", 13), U("p", 7), F("d", "boolean", 1), F("c", "signed", 16, view=dict(type="float-multiplier", multiplier=Num("m"))), U("r", 16, array_len=Num("n", 1)))])


# ------------------------------------------------------------------ C27

ITEMS = {
    "enums": [r"\benum\s+E\b"], "structs": [r"\bstruct\s+S\b"], "unions": [r"\benum\s+U\b"], "messages": [r"\bstruct\s+M\b"],
    "reads": [r"\bFromSlice\s*<[^<>]*>\s+for\s+M\b", r"\bFromSliceWithOffsets\s*<[^<>]*>\s+for\s+M\b"], "writes": [r"\bWriteTo\s+for\s+M\b"],
}


def decls(n, kinds):
    """a protocol with the given kinds of declarations"""
    d = dict(name=n)
    if "enums" in kinds:
        d["enums"] = [dict(name="E", variants={"A": 0, "B": 1})]
    if "structs" in kinds:
        d["structs"] = [S("S", U("x", 8), U("y", 8))]
    if "unions" in kinds:
        d["unions"] = [dict(name="U", discriminant="S.x", cases=[dict(name="a", case="1", item_type="S"), dict(name="b", case="2")])]
    if "messages" in kinds:
        d["messages"] = [dict(name="M", fields=([mf("h", "item", item_type="S")] if "structs" in kinds else []) + ([mf("u", "union", on="h", item_type="U")] if "unions" in kinds else []) + [mf("s", "string")])]
    return d


def includes(text):
    """paths included by an umbrella, in order"""
    return [bytes(m.group(1)[1:-1], "utf8").decode("unicode_escape") for m in re.finditer(r"include!\s*\(\s*(\"(?:[^\"\\]|\\.)*\")\s*\)", text)]


def unit_C27(C, lab, imports, schemas, tot):
    def body(u):
        I = u.use(start(C, None, "ok" if len(schemas) > 1 else "fork"))
        work = [(State(), ())]
        for s in schemas:
            work = [(q, ps + (r.f[0],)) for st, ps in work for q, r in C.go(I, st, s, Tup((), "map")) if r.var == 0]
        flags = tuple(("ge", var("set_" + f, 0, 1) - 1) for f in FLAGS)
        before = tuple(("ge", var("was_" + f, 0, 1) - 1) for f in FLAGS) if lab.startswith("options set twice") else None
        for st, ps in work:
            outs = generate(C, I, st, ps, flags, before)
            tot["outs"] += len(outs)
            for q, v in outs:
                outcome_C27(u, I, q, v, schemas)
        no_panic(u, I, "generation does not panic")
    return unit(lab, tot, body)


def outcome_C27(u, I, q, v, schemas):
    if v.var:
        return u.that(q, any(e[0] == "failed" for e in NG.effects(q)), "generation fails only when the file system does", "", "returned an error")
    files = {}
    for p, t in written(q).items():
        b = NC.known(t)
        if b is None:
            raise Give("text of " + p)
        files[p] = b.decode("utf8")
    if any(e[0] == "failed" and e[1] == "write" for e in NG.effects(q)):
        return u.that(q, False, "a failed write is reported", "", "returned Ok")
    protos = list(V(I, q, v)["0"])
    name = "every protocol is reported, in order, under its name"
    if len(protos) != len(schemas) or [p["name"].text for p in protos] != [s["name"] for s in schemas]:
        return u.that(q, False, name, "", "reported: %s" % [p["name"].text for p in protos])
    u.that(q, True, name)
    flags = {f: q.truth(("ge", var("set_" + f, 0, 1) - 1)) for f in FLAGS}
    show = ", ".join(f for f in FLAGS if flags[f]) or "nothing"
    seen = {}
    for s, p in zip(schemas, protos):
        path = p["path"].text
        ok = path in files
        u.that(q, ok, "the reported path is the umbrella of the protocol", "", "%s, which is not a written file" % path)
        if not ok:
            continue
        inc = includes(files[path])
        u.that(q, re.search(r"\bmod\s+" + re.escape(s["name"]) + r"\b", files[path]) is not None, "the reported path is the umbrella of the protocol", "", "no module %s in %s" % (s["name"], path))
        u.that(q, len(set(inc)) == len(inc), "no file is included twice", "", "%s" % inc)
        miss = [x for x in inc if x not in files]
        u.that(q, not miss, "every included file was written", "", "with %s: %s" % (show, miss))
        for x in inc:
            u.that(q, seen.setdefault(x, s["name"]) == s["name"], "a file belongs to one protocol", "", x)
        seen.setdefault(path, s["name"])
        text = files[path] + "".join(files.get(x, "") for x in inc)
        text = re.sub(r"//[^\n]*", "", text)
        for f in FLAGS:
            have = s.get("messages" if f in ("reads", "writes") else f)
            if not have:
                continue
            for rx in ITEMS[f]:
                hit = re.search(rx, text) is not None
                if flags[f] is None:
                    u.that(q, None, "the option is decided", "", f)
                else:
                    u.that(q, hit == flags[f], "%s are generated exactly when they are asked for" % {"reads": "message readers", "writes": "message writers"}.get(f, f), "",
                           "with %s: %s %s" % (show, rx, "found" if hit else "missing"))
    extra = sorted(set(files) - set(seen))
    u.that(q, not extra, "every written file is included", "", "with %s: %s" % (show, extra))


def shapes_C27():
    kinds = ("enums", "structs", "unions", "messages")
    for k in (kinds, ("enums",), ("structs",), ("messages",), ("enums", "messages"), ("structs", "unions"), ("structs", "messages"), ("enums", "structs"), ()):
        yield "a protocol of " + (", ".join(k) or "nothing"), (), [decls("Proto", k)]
    yield "options set twice", (), [decls("Proto", ("structs", "messages"))]
    yield "two protocols whose names differ by case", (), [decls("side", ("structs",)), decls("Side", ("enums",))]
    yield "two protocols", (), [decls("first", ("messages",)), decls("Second", ("structs",))]
    yield "two protocols with the same types", (), [decls("first", ("structs",)), decls("second", ("structs",))]


# ------------------------------------------------------------------ C31

def unit_C31(C, lab, imports, models, tot):
    """models: {file: (schema, is valid)}"""
    def body(u):
        I = u.use(start(C, None, "fork"))
        I.env = {b"OUT_DIR": b"/out"}
        I.models = {k.encode(): C.m.schema(s) for k, (s, _) in models.items()}
        twice = "imported2.json5" in models
        outs = I.call_body(State(), "build_script_two_imports@gen" if twice else "build_script@gen", [], "root")
        tot["outs"] += len(outs) + len(I.panics)
        bad = [k for k, (_, ok) in models.items() if not ok]
        byname = collections.defaultdict(list)
        for f, (s, _) in models.items():
            byname[s["name"] if f.startswith("imp") else "BP3D_PROTOC_" + s["name"].upper(), f.startswith("imp")].append(f)
        same = [v for v in byname.values() if len(v) > 1]
        for st in [s for s, _ in outs] + getattr(I, "exits", []):
            fx = NG.effects(st)
            ex = [e[1] for e in fx if e[0] == "exit"]
            if ex and not (ex[0].is_const() and ex[0].c == 0):
                continue
            failed = [e for e in fx if e[0] == "failed" and e[1] != "mkdir"]
            for e in failed:
                what = {"read": "a schema file cannot be read", "parse": "a schema file cannot be parsed", "write": "a file cannot be written", "env": "the output folder is not known"}.get(e[1], e[1] + " fails")
                u.that(st, False, "the build is aborted when " + what, "", "goes on: %s" % (NC.known(e[2]),))
            if failed:
                continue
            u.that(st, not bad, "the build is aborted when a schema is refused", "", "goes on although %s is refused" % bad)
            for v in same:
                imp = v[0].startswith("imp")
                u.that(st, False, "the build is aborted when the name of an imported protocol is ambiguous" if imp else "the build is aborted when two protocols share their variable", "",
                       "goes on although %s are both called %s" % (" and ".join(v), models[v[0]][0]["name"]))
            if bad or same:
                continue
            lines = []
            for e in fx:
                if e[0] == "print":
                    lines += flat(parts(st, e[1])).decode("utf8", "replace").splitlines()
            got = [re.match(r"cargo::?rustc-env=([^=]*)=(.*)$", l) for l in lines]
            got = [(m.group(1), m.group(2)) for m in got if m]
            files = {p: NC.known(t) for p, t in written(st).items()}
            want = []
            for f, (s, _) in models.items():
                if not f.startswith("imp"):
                    ps = [p for p, t in files.items() if t is not None and re.search(rb"\bmod\s+" + s["name"].encode() + rb"\b", t)]
                    if len(ps) != 1:
                        raise Give("umbrella of " + s["name"])
                    want.append(("BP3D_PROTOC_" + s["name"].upper(), ps[0]))
            u.that(st, got == want if len(got) == len(want) else False, "each protocol is exported once, under its name, with the path of its code", "", "exported %s instead of %s" % (got, want))
        for what in ("a schema file cannot be read", "a schema file cannot be parsed", "a file cannot be written", "the output folder is not known"):
            u.put("the build is aborted when " + what, "proved")
        if bad or same:
            u.put("the build is aborted when %s" % ("a schema is refused" if bad else "names clash"), "proved")
    return unit(lab, tot, body)


def shapes_C31():
    q = dict(name="Q", structs=[S("S", U("x", 8), U("y", 8))])
    a = dict(name="fooBar_2", imports=[dict(protocol="Q", type="S")], messages=[dict(name="M", fields=[mf("s", "item", item_type="S")])])
    b = dict(name="Other", enums=[dict(name="E", variants={"A": 0, "B": 1})])
    wrong = [("undefined type", dict(name="W", messages=[dict(name="M", fields=[mf("s", "item", item_type="Nope")])])), ("zero bits", dict(name="W", structs=[S("S", U("x", 0))])),
             ("double name", dict(name="W", structs=[S("S", U("x", 8)), S("S", U("x", 8))])), ("undefined import", dict(name="W", imports=[dict(protocol="Nope", type="S")]))]
    yield "three valid schemas", (), {"imported.json5": (q, True), "first.json5": (a, True), "second.json5": (b, True)}
    yield "two imports", (), {"imported.json5": (dict(b, name="Q2"), True), "imported2.json5": (q, True), "first.json5": (a, True)}
    yield "two imports of one name", (), {"imported.json5": (q, True), "imported2.json5": (dict(name="Q", structs=[S("S", U("x", 16))]), True), "first.json5": (a, True)}
    yield "two protocols of one name", (), {"imported.json5": (q, True), "first.json5": (a, True), "second.json5": (dict(b, name="fooBar_2"), True)}
    yield "two protocols of one name but for its case", (), {"imported.json5": (q, True), "first.json5": (a, True), "second.json5": (dict(b, name="FooBar_2"), True)}
    yield "a protocol named like the imported one", (), {"imported.json5": (q, True), "first.json5": (a, True), "second.json5": (dict(b, name="Q"), True)}
    for n, w in wrong:
        yield n + " in the first", (), {"imported.json5": (q, True), "first.json5": (w, False), "second.json5": (b, True)}
        yield n + " in the second", (), {"imported.json5": (q, True), "first.json5": (a, True), "second.json5": (w, False)}
        yield n + " in the second import", (), {"imported.json5": (q, True), "imported2.json5": (w, False), "first.json5": (a, True)}
        yield n + " in the imported one", (), {"imported.json5": (dict(w, name="Q"), False), "first.json5": (b, True), "second.json5": (dict(b, name="B2"), True)}


def job(b, prop, lo, hi):
    tot = collections.defaultdict(int)
    tot["unknown"], tot["fns"] = set(), set()
    C = CC.compiler(b)
    rows = []
    fn = globals()["unit_" + prop]
    for x in list(globals()["shapes_" + prop]())[lo::hi]:
        rows += fn(C, *x, tot)
    return rows, tot
