"""The template engine (C30) against the substitution rules, on values which
are abstract text (any first character of a class, any rest)."""
import collections
import itertools
import os

import checks_comp as CC
import natives_comp as NC
import numdom as N
import rules
from checks_phase import start, unit, parts
from comp import V
from interp import Arr, Tup, SliceV, State, UNIT
from numdom import K, Lin, ZERO, var

CLASSES = {"low": (97, 122), "up": (65, 90), "sign": (0, 64), "mid": (91, 96), "last": (123, 127)}
KNOWN = {"empty": "", "accent": "\u00e9t\u00e9", "sharp": "stra\u00dfe", "braces": "{x} }}", "one": "q", "mixed": "aBc\u00c9D", "capital": "ABc d", "score": "_Ab", "digit": "9Ab"}


def value(kind):
    """text of a class: its first character is any of the class, its rest is anything"""
    if kind in KNOWN:
        return NC.text(KNOWN[kind].encode())
    lo, hi = CLASSES[kind]
    return SliceV(("T", (("chr", var("first_" + kind, lo, hi)), ("rest", kind))), (), ZERO, var("len_" + kind, 1, 1 << 40), None, "str")


def apply(f, kind):
    """the parts a variable reference has to be replaced by"""
    if kind in KNOWN:
        s = KNOWN[kind]
        s = {"": s, "upper": s.upper(), "lower": s.lower(), "capitalize": (s[:1].upper() if s[:1].isascii() else s[:1]) + s[1:]}[f]
        return (s.encode(),)
    lo, hi = CLASSES[kind]
    c, rest = ("chr", var("first_" + kind, lo, hi)), ("rest", kind)
    if f in ("upper", "lower"):
        return ((f, False, c), (f, False, rest))
    if f == "capitalize" and kind == "low":
        return (("chr", c[1] - 32), rest)
    return (c, rest)


def merged(ps):
    out = []
    for p in ps:
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += p
        elif p != b"":
            out.append(p)
    return out


def concrete(ps, w):
    """the text under an instance (the open rest of a value is "xY" then)"""
    out = ""

    def one(p):
        if isinstance(p, bytes):
            return p.decode("utf8")
        if p[0] == "chr":
            return chr(N.evaluate(p[1], w))
        if p[0] == "num":
            return str(N.evaluate(p[1], w))
        if p[0] == "rest":
            return "xY\u00e9\u00c9"
        if p[0] in ("upper", "lower"):
            s = one(p[2])
            if p[1]:
                return "".join(getattr(c, p[0])() if c.isascii() else c for c in s)
            return getattr(s, p[0])()
        raise KeyError(p[0])
    for p in ps:
        out += one(p)
    return out


def alike(p, q):
    """two expressions of a character which agree on every one of its values"""
    if isinstance(p, bytes) or isinstance(q, bytes) or p[0] != "chr" or q[0] != "chr":
        return False
    for k, (lo, hi) in CLASSES.items():
        x = var("first_" + k, lo, hi)
        if any(t == x.t[0][0] for t, _ in q[1].t):
            for i in range(lo, hi + 1):
                w = N.witness([], [x - i], [], tries=2, extra=[p[1], q[1]])
                if w is None or N.evaluate(p[1], w) != N.evaluate(q[1], w):
                    return False
            return True
    return False


def numbers(p):
    """the expressions a part is made of"""
    if isinstance(p, bytes):
        return []
    if p[0] in ("chr", "num"):
        return [p[1]]
    return numbers(p[2]) if p[0] in ("upper", "lower") else []


def compare(u, st, got, want, name, what=""):
    g = merged(p if isinstance(p, bytes) or p[0] not in ("chr", "num") else (p[0], st.norm(p[1])) for p in got)
    x = merged(p if isinstance(p, bytes) or p[0] not in ("chr", "num") else (p[0], st.norm(p[1])) for p in want)
    if g == x or len(g) == len(x) and all(p == q or alike(p, q) for p, q in zip(g, x)):
        return u.put(name, "proved")
    w = N.witness(st.rows, st.eqs, st.neqs, tries=100, extra=[e for p in g + x for e in numbers(p)])
    try:
        a, b = concrete(g, w), concrete(x, w)
    except (KeyError, TypeError):
        return u.put(name, "unknown", "", "%r / %r" % (str(g)[:120], str(x)[:120]))
    if a == b:
        return u.put(name, "unknown", "", "%r / %r" % (str(g)[:120], str(x)[:120]))
    i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    i = max(0, i - 20)
    u.that(st, False, name, "", "%srendered %r instead of %r" % (what, a[i:i + 60], b[i:i + 60]))


# ------------------------------------------------------------------ entry points

def strs(I, st, xs):
    p = NC.heap(I, st, Arr(tuple(NC.text(x.encode()) for x in xs), "arr"))
    return SliceV(p.root, p.path, ZERO, K(len(xs)), None, "s")


def pairs(I, st, xs):
    p = NC.heap(I, st, Arr(tuple(Tup((NC.text(k.encode()), value(v))) for k, v in xs), "arr"))
    return SliceV(p.root, p.path, ZERO, K(len(xs)), None, "s")


def render(I, data, vars_, path, frags):
    st = State()
    return I.call_body(st, "render@gen", [NC.text(data)._replace(kind="s"), pairs(I, st, vars_), Tup((NC.text(b"number"), var("number", 0, (1 << 64) - 1))), NC.text(path.encode()), strs(I, st, frags)], "root")


def render_scopes(I, data, vars_, inner, path, frags, key, last):
    st = State()
    return I.call_body(st, "render_scopes@gen", [NC.text(data)._replace(kind="s"), pairs(I, st, vars_), pairs(I, st, inner), Tup((NC.text(b"number"), var("number", 0, (1 << 64) - 1))), NC.text(path.encode()), strs(I, st, frags),
                                                 NC.text(key.encode()), strs(I, st, last)], "root")


VARS = [("v", "low"), ("long_name", "up"), ("e", "empty"), ("w", "accent"), ("b", "braces")]


def ref(name, kinds):
    n, _, f = name.partition(":")
    if n == "number":
        return (("num", var("number", 0, (1 << 64) - 1)),)
    return apply(f, kinds[n])


# ------------------------------------------------------------------ units

TOKENS = ["ab", " ", "\u00e9:", "#x", "{v}", "{long_name:upper}", "{e}", "{w:capitalize}", "{number}", "{b}", "{{", "}}", "y#"]


def token(t, kinds):
    if t in ("{{", "}}"):
        return (t[:1].encode(),)
    if t[0] == "{":
        return ref(t[1:-1], kinds)
    return (t.encode(),)


def unit_lines(C, lab, lines, end, tot):
    def body(u):
        I = u.use(start(C))
        data, kinds = b"", dict(VARS)
        for i, l in enumerate(lines):
            data += ("#fragment push f%d" % i).encode() + end + "".join(l).encode() + end + b"#fragment pop" + end
        want = ()
        for l in lines:
            for t in l:
                want += token(t, kinds)
            want += (b"\n",)
        outs = render(I, data, VARS, "", ["f%d" % i for i in range(len(lines))])
        tot["outs"] += len(outs)
        for q, v in outs:
            if v.var:
                u.that(q, False, "a known fragment is rendered", "", "returned %s" % (V(I, q, v)["0"].var,))
                continue
            u.put("a known fragment is rendered", "proved")
            compare(u, q, parts(q, v.f[0]), want, "text, variables and braces are rendered as written")
        no_panic(u, I)
    return unit(lab, tot, body)


def no_panic(u, I):
    for p in I.panics:
        u.that(p.st, False, "rendering does not panic", p.span, "%s in %s" % (p.kind, p.fn[:120]))
        if p.kind.startswith("undefined behaviour"):
            u.that(p.st, False, "no undefined behaviour", p.span, "%s in %s" % (p.kind[21:], p.fn[:120]))
    u.put("no undefined behaviour", "proved")
    u.put("rendering does not panic", "proved")


def unit_function(C, lab, kind, tot):
    def body(u):
        fs = ("", "upper", "lower", "capitalize")
        data = b"".join(b"#fragment push %s\n<{x%s}>\n#fragment pop\n" % (f.encode() or b"none", b":" + f.encode() if f else b"") for f in fs)
        for f in fs:
            I = u.use(start(C))
            outs = render(I, data, [("x", kind)], "", [f or "none"])
            tot["outs"] += len(outs)
            for q, v in outs:
                if v.var:
                    u.that(q, False, "a known fragment is rendered", "", "returned an error")
                    continue
                compare(u, q, parts(q, v.f[0]), (b"<",) + apply(f, kind) + (b">\n",), "%s is replaced by the value%s" % ("a variable", (" through " + f) if f else ""), "for a value whose first character is of class %s: " % kind)
            no_panic(u, I)
    return unit(lab, tot, body)


def unit_shape(C, lab, data, path, frags, want, tot):
    """want: list of strings and ("{name}",) references, or (error, text)"""
    def body(u):
        I = u.use(start(C))
        outs = render(I, data, VARS, path, frags)
        tot["outs"] += len(outs)
        for q, v in outs:
            outcome(u, I, q, v, want)
        no_panic(u, I)
    return unit(lab, tot, body)


def wanted(want, kinds):
    out = ()
    for x in want:
        out += (x.encode(),) if isinstance(x, str) else ref(x[0], kinds)
    return out


def outcome(u, I, q, v, want):
    if isinstance(want, tuple):
        name = "what is not there is reported (%s)" % want[0]
        if v.var == 0:
            return u.that(q, False, name, "", "returned Ok")
        e = V(I, q, v)["0"]
        ok = e.var == want[0] and (want[1] is None or e["0"].text == want[1])
        return u.that(q, ok, name, "", "returned %s" % (e.var,))
    name = "fragments are rendered in order, with their lines"
    if v.var:
        return u.that(q, False, name, "", "returned %s" % (V(I, q, v)["0"].var,))
    compare(u, q, parts(q, v.f[0]), wanted(want, dict(VARS)), name)


def unit_scope(C, lab, inner, frags, key, last, want, extra, tot):
    data = b"#fragment push p\n#fragment push one\n{v}-{w}\n#fragment pop\n#fragment push two\n[{v}|{key}|{long_name}]\n#fragment pop\n#fragment push three\n{e}\n#fragment pop\n#fragment push in\n{inner}\n#fragment pop\n#fragment pop\n"

    def body(u):
        I = u.use(start(C))
        outs = render_scopes(I, data, VARS + [("key", "one")] + extra, inner, "p", frags, key, last)
        tot["outs"] += len(outs)
        for q, v in outs:
            if isinstance(want[0], str):
                outcome(u, I, q, v, want)
                continue
            if v.var:
                u.that(q, False, "a scope renders", "", "returned %s" % (V(I, q, v)["0"].var,))
                continue
            outer = dict(VARS + [("key", "one")])
            a, b = v.f[0].f
            compare(u, q, parts(q, a), wanted(want[0], dict(outer, **dict(inner))), "a variable of a scope hides the one of its template")
            compare(u, q, parts(q, b), wanted(want[1], outer), "a scope leaves its template as it was")
        no_panic(u, I)
    return unit(lab, tot, body)


# ------------------------------------------------------------------ shapes

def shapes():
    full = os.environ.get("VERIF_TIER", "quick") != "quick"
    seqs = [t for n in (1, 2, 3, 4) for t in itertools.product(TOKENS, repeat=n) if n < 4 or full or sum(x in ("{{", "}}", "{v}", "{e}") for x in t) == 4]
    # text next to text is text; a line which starts like a directive is one
    seqs = [t for t in seqs if not any(a[0] not in "{}" and b[0] not in "{}" for a, b in zip(t, t[1:]))]
    n = 48
    for i in range(0, len(seqs), n):
        yield "lines %d to %d" % (i, min(len(seqs), i + n)), unit_lines, (seqs[i:i + n], b"\r\n" if (i // n) % 5 == 4 else b"\n")
    for k in list(CLASSES) + list(KNOWN):
        yield "functions on a value of class " + k, unit_function, (k,)
    nested = "#fragment push a\nA {v}\n#fragment push b\nB\n#fragment push c\nC {number}\n#fragment pop\nB2 {w}\n#fragment pop\n#fragment push d\n  D\n#fragment pop\nA2\n#fragment pop\n#fragment push z\n\n#fragment pop\n"
    for e, d in (("", nested), ("CRLF ", nested.replace("\n", "\r\n"))):
        d = d.encode()
        yield e + "outer fragment", unit_shape, (d, "", ["a"], ["A ", ("v",), "\nA2\n"])
        yield e + "inner fragment by its full name", unit_shape, (d, "", ["a.b"], ["B\nB2 ", ("w",), "\n"])
        yield e + "inner fragment by its path", unit_shape, (d, "a", ["b", "d"], ["B\nB2 ", ("w",), "\n  D\n"])
        yield e + "innermost fragment", unit_shape, (d, "a.b", ["c"], ["C ", ("number",), "\n"])
        yield e + "fragments in the order asked for", unit_shape, (d, "a", ["d", "b.c", "d"], ["  D\nC ", ("number",), "\n  D\n"])
        yield e + "a fragment of an empty line", unit_shape, (d, "", ["z"], [""])
        yield e + "no fragment", unit_shape, (d, "a", [], [""])
        yield e + "unknown fragment", unit_shape, (d, "", ["b"], ("FragmentNotFound", "b"))
        yield e + "unknown inner fragment", unit_shape, (d, "a", ["b", "c"], ("FragmentNotFound", "a.c"))
        yield e + "unknown path", unit_shape, (d, "x", ["a"], ("FragmentNotFound", "x.a"))
    for n in range(1, 9):
        # fragments n deep, and ones whose name is a part of another's
        names = ["abcdefgh"[i] for i in range(n)]
        d = "".join("#fragment push %s\n%s\n" % (x, x) for x in names) + "#fragment pop\n" * n
        d += "".join("#fragment push %s\n" % x for x in names[1:]) + "#fragment push other\nno\n#fragment pop\n" + "#fragment pop\n" * (n - 1)
        for e in ("\n", "\r\n"):
            c = " CRLF" if len(e) > 1 else ""
            yield "fragments %d deep" % n + c, unit_shape, (d.replace("\n", e).encode(), "", [".".join(names[:i]) for i in range(1, n + 1)], ["".join(x + "\n" for x in names)])
            yield "fragments %d deep by path" % n + c, unit_shape, (d.replace("\n", e).encode(), ".".join(names[:n // 2]), [".".join(names[n // 2:])], [names[-1] + "\n"])
            if n > 1:
                yield "fragments %d deep without the outermost" % n + c, unit_shape, (d.replace("\n", e).encode(), "", [".".join(names[1:])], [""])
                yield "the end of the path %d deep" % n + c, unit_shape, (d.replace("\n", e).encode(), "", [".".join(names[n // 2:] + ["other"])], ("FragmentNotFound", None) if n // 2 != 1 else ["no\n"])
    for n, d, err in (("unknown variable", "#fragment push a\n{v}{nope}\n#fragment pop\n", ("VariableNotFound", "nope")), ("unknown variable with a function", "#fragment push a\n{nope:upper}\n#fragment pop\n", ("VariableNotFound", "nope")),
                      ("function name with a colon", "#fragment push a\n{v:a:b}\n#fragment pop\n", ("FunctionNotFound", "a:b")), ("function and a colon", "#fragment push a\n{v:upper:}\n#fragment pop\n", ("FunctionNotFound", "upper:")),
                      ("unknown function", "#fragment push a\n{v:nope}\n#fragment pop\n", ("FunctionNotFound", "nope")), ("empty function name", "#fragment push a\n{v:}\n#fragment pop\n", ("FunctionNotFound", "")),
                      ("pop without push", "#fragment push a\n{v}\n#fragment pop\n#fragment pop\n", ("InvalidPop", None)), ("text outside of fragments", "text\n#fragment push a\n{v}\n#fragment pop\n", ("NoFragment", None))):
        for e in ("\n", "\r\n"):
            yield n + (" CRLF" if len(e) > 1 else ""), unit_shape, (d.replace("\n", e).encode(), "", ["a"], err)
    for n, d in (("empty lines between fragments", "\n\n#fragment push a\nx\n#fragment pop\n\n#fragment push b\ny\n\nz\n#fragment pop\n\n"), ("no newline at the end", "#fragment push a\nx\n#fragment pop\n#fragment push b\ny\nz\n#fragment pop"),
                 ("similar names", "#fragment push ab\nno\n#fragment pop\n#fragment push a\nx\n#fragment push b\nno\n#fragment pop\n#fragment pop\n#fragment push b\ny\nz\n#fragment pop\n")):
        for e in ("\n", "\r\n"):
            yield n + (" CRLF" if len(e) > 1 else ""), unit_shape, (d.replace("\n", e).encode(), "", ["a", "b"], ["x\ny\nz\n"])
    for e, extra in (("", []), (", every variable of the scope hides one", [("number", "one")])):
        yield "scope hides a variable" + e, unit_scope, ([("v", "up")] + [("x", "one")] * (not e), ["one"], "other" if not e else "w", ["two", "one"],
            (["[", ("v",), "|q|", ("long_name",), "]\n", ("v",), "-"] + ([("v",), "-", ("w",), "\n\n"] if e else [("w",), "\n"]), ["[", ("v",), "|q|", ("long_name",), "]\n", ("v",), "-", ("w",), "\n"]), extra)
        yield "rendered text in a variable" + e, unit_scope, ([("w", "one")], ["one", "one"], "key", ["two", "two"], (["[", ("v",), "|", ("v",), "-q\n", ("v",), "-q\n|", ("long_name",), "]\n"] * 2, ["[", ("v",), "|q|", ("long_name",), "]\n"] * 2), extra)
        yield "a later value of a variable" + e, unit_scope, ([("v", "up"), ("v", "one")], ["one"], "other", ["two"], (["[q|q|", ("long_name",), "]\n"], ["[", ("v",), "|q|", ("long_name",), "]\n"]), extra)
        for k in list(CLASSES) + list(KNOWN):
            yield "scope hides a text by one of class " + k + e, unit_scope, ([("v", k), ("w", "empty"), ("b", "low")], ["one"], "e", ["two", "one"],
                (["[", ("v",), "|q|", ("long_name",), "]\n", ("v",), "-\n"], ["[", ("v",), "|q|", ("long_name",), "]\n", ("v",), "-", ("w",), "\n"]), extra)
            yield "scope hides an empty text by one of class " + k + e, unit_scope, ([("e", k), ("w", k)], ["one"], "other", ["one", "three"], ([("v",), "-", ("w",), "\n", ("e",), "\n"], [("v",), "-", ("w",), "\n", "\n"]), extra)
        yield "a variable of a scope in its template" + e, unit_scope, ([("inner", "one")], ["in"], "key", ["in"], ("VariableNotFound", "inner"), extra)


def job(b, lo, hi):
    tot = collections.defaultdict(int)
    tot["unknown"], tot["fns"] = set(), set()
    C = CC.compiler(b)
    rows = []
    for lab, fn, args in list(shapes())[lo::hi]:
        rows += fn(C, lab, *args, tot)
    return rows, tot
