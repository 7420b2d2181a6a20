"""Obligations on generated messages and unions: the encoding of a message is
what its schema says, field after field."""
import re

import contracts
import layout
import natives
import numdom as N
from numdom import Lin, K, ZERO, var
from interp import SliceV, Ptr, Adt, Sy, Tup, Arr, Term, Give, ISIZE_MAX
from rules import *
import rules_runtime as R


class MF:
    """one field of a message as the schema describes it"""

    def __init__(self, proto, msg, f, last):
        self.name = f["name"]
        i = f["info"]
        t = i["type"]
        self.opt = bool(f.get("optional")) and t != "union"
        self.end = proto.end
        self.proto = proto
        self.last = last
        self.kind = t
        self.w = None
        if t == "item":
            p, s = proto.find("structs", i["item_type"])
            if s is not None:
                self.kind, self.struct, self.sproto = "struct", s, p
            else:
                self.kind, self.item = "msg", i["item_type"]
        elif t == "list":
            self.w = prefix_width(i["max_len"])
            p, s = proto.find("structs", i["item_type"])
            if s is not None:
                self.kind, self.struct = "array", s
            else:
                self.kind, self.item = "list", i["item_type"]
        elif t == "string":
            if i.get("max_len") is None:
                self.kind = "nts"
            else:
                self.kind, self.w = "varchar", prefix_width(i["max_len"])
        elif t == "union":
            self.item, self.on = i["item_type"], i["on"]


def prefix_width(n):
    return 1 if n <= 0xFF else 2 if n <= 0xFFFF else 4 if n <= 0xFFFFFFFF else 8


def fields_of(proto, m):
    fs = m["fields"]
    return [MF(proto, m, f, i == len(fs) - 1) for i, f in enumerate(fs)]


def struct_of(I, v):
    """the bytes a structure value refers to, or None"""
    if isinstance(v, Sy) and I.T(v.ty)["k"] == "adt" and not I.T(v.ty).get("enum"):
        v = I.expand(v.ty, v.name)
    if isinstance(v, Adt):
        xs = [x for x in v.f if isinstance(x, (SliceV, Ptr))]
        if len(xs) == 1:
            return natives.as_slice(I, None, xs[0]) if isinstance(xs[0], SliceV) else xs[0]
    return None


# ---------------------------------------------------------------- modular calls

UNION = re.compile(r"^(?:[A-Za-z_0-9]+::)*([A-Za-z_0-9]+)(?:::<[^>]*>)?::(from_slice|write_to)(?:::<.*>)?@")


def gen_hook(proto, but=None):
    names = set(proto.messages) | {n for p in proto.imports for n in p.messages}
    unions = set(proto.unions) | {n for p in proto.imports for n in p.unions}

    def contracted(I, c):
        im = c.get("impl") or ""
        n = im.split("<")[0].strip().split("::")[-1]
        return "msg:" + n if n in names and n != but and not im.startswith("bp3d_proto") else None
    base = contracts.make_hook(contracted)

    def hook(I, st, c, args, span, dty):
        r = base(I, st, c, args, span, dty)
        if r is not None:
            return r
        fn = c.get("fn")
        if fn:
            m = UNION.match(fn)
            if m and m.group(1) in unions and not c.get("tr"):
                d = struct_of(I, natives.writer_of(I, st, args[1]) if isinstance(args[1], Ptr) else args[1])
                if not isinstance(d, SliceV):
                    return None
                nm = "union:%s:%r" % (m.group(1), (d.root, d.path, st.norm(d.off), st.norm(d.len)))
                if not hasattr(I, "discrs"):
                    I.discrs = {}
                I.discrs[nm] = d
                if m.group(2) == "from_slice":
                    return contracts.decode(I, st, nm, natives.as_slice(I, st, args[0]), dty, False)
                return contracts.encode(I, st, nm, args[0], args[2], span, dty)
        tr = c.get("tr") or ""
        if (tr.endswith(contracts.FS) or tr.endswith(contracts.FSO)) and fn in I.p.fns and not st.g.get("depth"):
            s = natives.as_slice(I, st, args[0])
            st.g["depth"] = 1
            out = []
            for x, v in I.call_body(st, fn, args, span):
                x.g["depth"] = 0
                x.ev += (("fs", s, v),)
                out.append((x, v))
            return out
        if fn and "stub::sink" in fn:
            st.ev += (("sink", args[0]),)
            from interp import UNIT
            return [(st, UNIT)]
        if fn and "stub::source" in fn:
            v = I.mk(dty, "source")
            st.ev += (("source", v),)
            return [(st, v)]
        return None
    return hook, contracted


# ---------------------------------------------------------------- reading

class Walk:
    """follows a message through the input, along one path of the reader"""

    def __init__(self, env, st, proto, fields, src, vals):
        self.env, self.I, self.proto, self.fields = env, env.I, proto, fields
        self.src = src
        self.vals = vals        # name -> value, or None when the reader failed
        self.ends = []          # positions after each field

    def avail(self, pos):
        return self.src.len - pos

    def b(self, st, pos, n, signed=False, proto=None):
        return int_of_bytes(self.I, st, self.src, pos, n, (proto or self.proto).end == "big", signed)

    def run(self, st):
        """[(state, outcome, position, ends)]: outcome None = complete, else (reason, detail)"""
        work = [(st, ZERO, 0, ())]
        out = []
        while work:
            s, pos, i, ends = work.pop()
            if i == len(self.fields):
                out.append((s, None, pos, ends))
                continue
            f = self.fields[i]
            v = self.vals.get(f.name) if self.vals is not None else None
            for s2, why, p2 in self.field(s, f, pos, v):
                if why is not None:
                    out.append((s2, (f, why), pos, ends))
                else:
                    work.append((s2, p2, i + 1, ends + ((pos, p2),)))
        return out

    def need_bytes(self, st, pos, n):
        """[(state, enough?)]"""
        c = ("ge", self.avail(pos) - n)
        t = st.truth(c)
        if t is not None:
            return [(st, t)]
        return [(b, w) for w in (True, False) for b in st.copy().assume(c, w)]

    def field(self, st, f, pos, v):
        if not f.opt:
            yield from self.inner(st, f, pos, v)
            return
        env, I = self.env, self.I
        for s, ok in self.need_bytes(st, pos, 1):
            if not ok:
                yield s, "truncated", pos
                continue
            p = s.norm(byte(I, s, self.src, pos))
            t = s.truth(("eq", p))
            cases = [(s, not t)] if t is not None else [(b, not w) for w in (True, False) for b in s.copy().assume(("eq", p), w)]
            for s2, present in cases:
                k = variant(I, s2, v) if v is not None else None
                if v is not None and k is None:
                    raise Give("undecided option")
                if not present:
                    if v is not None:
                        env.that(s2, k == "None", "an absent optional reads as absent", "", f.name)
                    yield s2, None, pos + 1
                elif k == "None":
                    # only a presence byte other than 0 and 1 may be taken for absent
                    env.need(s2, ("not", ("eq", p - 1)), "a present optional reads as present", f.name)
                    yield s2, None, pos + 1
                else:
                    yield from self.inner(s2, f, pos + 1, payload(I, s2, v) if v is not None else None)

    def inner(self, st, f, pos, v):
        env, I = self.env, self.I
        K_ = f.kind
        nm = "every field holds what follows the previous one"
        if K_ == "struct":
            for s, ok in self.need_bytes(st, pos, f.struct.size):
                if not ok:
                    yield s, "truncated", pos
                    continue
                if v is not None:
                    self.struct_value(s, f, pos, v, nm)
                yield s, None, pos + f.struct.size
        elif K_ == "payload":
            if v is not None:
                self.slice_value(st, v, pos, self.avail(pos), nm, f)
            yield st, None, self.src.len
        elif K_ == "nts":
            ln = None
            if v is not None:
                g = self.as_slice(st, v)
                if g is not None:
                    ln = g.len
            else:
                ln = self.nts_len(st, pos)
            if ln is None:
                yield st, "string", pos
                return
            if v is not None:
                self.slice_value(st, v, pos, ln, nm, f)
                env.need(st, ("ge", self.avail(pos) - ln - 1), "the terminator was there", f.name)
                env.eq(st, byte(I, st, self.src, pos + ln), ZERO, "a terminated string ends at a terminator", f.name)
            yield st, None, pos + ln + 1
        elif K_ in ("varchar", "array", "list"):
            for s, ok in self.need_bytes(st, pos, f.w):
                if not ok:
                    yield s, "truncated", pos
                    continue
                n = s.norm(self.b(s, pos, f.w))
                at = pos + f.w
                if K_ == "list":
                    yield from self.list_value(s, f, at, n, v)
                    continue
                ln = n if K_ == "varchar" else n.scale(f.struct.size)
                for s2, ok2 in self.need_bytes(s, at, ln):
                    if not ok2:
                        yield s2, "truncated", pos
                        continue
                    if K_ == "varchar":
                        bad = [e for e in s2.ev if e[0] == "utf8err" and e[1].root == self.src.root and s2.truth(("eq", e[1].off - self.src.off - at)) is True]
                        if bad and v is None:
                            env.eq(s2, bad[0][1].len, ln, "UTF-8 is checked on the counted bytes", f.name)
                            yield s2, "utf8", pos
                            continue
                        if v is not None:
                            self.slice_value(s2, v, at, ln, nm, f)
                    elif v is not None:
                        d, c = container_parts(I, v)
                        self.slice_value(s2, d, at, ln, nm, f)
                        env.eq(s2, c, n, "the count is the prefix", f.name)
                    yield s2, None, at + ln
        elif K_ in ("msg", "union"):
            want = "msg:" + f.item if K_ == "msg" else None
            evs = [e for e in st.ev if e[0] in ("dec", "decerr") and e[2].root == self.src.root and
                   (e[1] == want or K_ == "union" and e[1].startswith("union:%s:" % f.item)) and st.truth(("eq", e[2].off - self.src.off - pos)) is True]
            if K_ == "union" and evs:
                evs = [e for e in evs if self.discr_ok(st, f, e)]
            if not evs:
                # the input was cut before, or something else was decoded here
                yield st, "nested", pos
                return
            e = evs[0]
            env.eq(st, e[2].off + e[2].len, self.src.off + self.src.len, "nested values see the rest of the input", f.name)
            if e[0] == "decerr":
                yield st, "failed", pos
                return
            if v is not None:
                ok = isinstance(v, Sy) and v.name.startswith("val:%s@" % e[1]) or isinstance(v, Adt) and not v.f
                env.that(st, True if ok else None, nm, "", "%s is %r" % (f.name, v))
            yield st, None, pos + e[3]

    def discr_ok(self, st, f, e):
        on = (self.vals or {}).get(f.on)
        if on is None:
            return True
        d = struct_of(self.I, on)
        if not isinstance(d, SliceV):
            return True
        nm = "union:%s:%r" % (f.item, (d.root, d.path, st.norm(d.off), st.norm(d.len)))
        ok = nm == e[1]
        if not ok:
            # same bytes under another name?
            ok = repr(d.root) in e[1] and None
        self.env.that(st, ok, "the union is read with its own discriminant", f.name, "%s is decoded with %s" % (f.name, e[1]))
        return True

    def nts_len(self, st, pos):
        for k, x in st.facts.items():
            if isinstance(k, tuple) and k and k[0] == "o" and isinstance(k[1], Term) and k[1].op == "utf8" and x is True:
                root, path, off, ln = k[1].args
                if root == self.src.root and st.truth(("eq", off - self.src.off - pos)) is True:
                    if st.truth(("ge", self.avail(pos) - ln - 1)) is True and st.truth(("eq", byte(self.I, st, self.src, off - self.src.off + ln))) is True:
                        return ln
        return None

    def as_slice(self, st, v):
        try:
            return natives.as_slice(self.I, st, v)
        except Exception:
            return None

    def slice_value(self, st, v, pos, ln, nm, f):
        g = self.as_slice(st, v)
        if g is None:
            return self.env.that(st, None, nm, f.name, "%r" % (v,))
        same_slice(self.env, st, g, self.src.root, self.src.off + pos, ln, nm, f.name)

    def struct_value(self, st, f, pos, v, nm):
        env, I = self.env, self.I
        s = f.struct
        d = struct_of(I, v)
        if d is not None:
            same_slice(env, st, natives.as_slice(I, st, d), self.src.root, self.src.off + pos, K(s.size), nm, f.name)
            ty = I.T(v.ty)["p"].split("::")[-1]
            return env.that(st, ty == s.name, "every field has its declared type", f.name, "%s is a %s" % (f.name, ty))
        if len(s.fields) != 1 or s.fields[0].struct is not None:
            return env.that(st, None, nm, f.name, "%r" % (v,))
        x = s.fields[0]
        raw = self.b(st, pos, s.size, False, f.sproto)
        if x.kind == "boolean":
            t = st.truth(v) if isinstance(v, tuple) and not isinstance(v, (Adt, Sy)) else None
            if t is not None:
                return env.need(st, ("not", ("eq", raw)) if t else ("eq", raw), nm, f.name)
            return env.eq(st, v, raw, nm, f.name) if isinstance(v, Lin) else env.that(st, None, nm, f.name)
        if x.kind == "signed":
            raw = self.b(st, pos, s.size, True, f.sproto)
        got = v
        if x.kind == "float":
            got = I.f_bits(v, x.bits)
        if not isinstance(got, Lin):
            return env.that(st, None, nm, f.name, "%r" % (got,))
        env.eq(st, got, raw, nm, f.name)

    def fs_result(self, st, pos):
        """(value, size) of the recorded decode which started at pos"""
        for e in st.ev:
            if e[0] == "fs" and e[1].root == self.src.root and st.truth(("eq", e[1].off - self.src.off - pos)) is True \
                    and variant(self.I, st, e[2]) == "Ok":
                try:
                    return message_parts(self.I, payload(self.I, st, e[2]))
                except Give:
                    pass
        return None

    def list_value(self, st, f, at, n, v):
        """items decoded one after the other, or (only for the last field of a
        message nothing embeds) everything that follows the prefix"""
        env, I = self.env, self.I
        nm = "a list holds the counted items, one after the other"
        open_end = f.last and f.top
        evs = [e for e in st.ev if e[0] in ("dec", "decerr") and e[1] == "msg:" + f.item and e[2].root == self.src.root
               and st.truth(("ge", e[2].off - self.src.off - at)) is True]
        if any(e[0] == "decerr" for e in evs):
            yield st, "failed", at
            return
        if v is None:
            r = self.fs_result(st, at - f.w - (1 if f.opt else 0))
            if r is None:
                if st.loopy:
                    yield st, "lost", at
                    return
                size = at
                for e in evs:
                    if st.truth(("eq", e[2].off - self.src.off - size)) is True:
                        size = size + e[3]
                yield st, None, size
                return
            yield st, None, at - f.w - (1 if f.opt else 0) + r[1]
            return
        d, c = container_parts(I, v)
        env.eq(st, c, n, "the count is the prefix", f.name)
        if not isinstance(d, SliceV) or d.root != self.src.root:
            if st.truth(("eq", d.len)) is True:
                env.need(st, ("eq", n), nm, f.name)
                yield st, None, at
                return
            env.that(st, False, nm, f.name, "storage is %r" % (d,))
            return
        env.eq(st, d.off, self.src.off + at, nm, f.name)
        if open_end and st.truth(("eq", d.len - self.avail(at))) is True and not evs:
            yield st, None, self.src.len
            return
        if not st.loopy:
            pos = d.off
            for e in evs:
                if st.truth(("eq", e[2].off - pos)) is True:
                    pos = pos + e[3]
                else:
                    env.that(st, None, nm, f.name, "items not consecutive")
            env.eq(st, d.len, pos - d.off, nm, f.name)
            env.eq(st, n, K(len(evs)), nm, f.name)
        else:
            lp = [l for l in I.loops_seen if not l["quiet"] and any(e[0] == "dec" and e[1] == "msg:" + f.item for b, ev in l["backs"] for e in ev)]
            env.that(st, True if lp else None, nm, f.name, "no loop over the items")
        yield st, None, d.off + d.len - self.src.off


def set_top(proto, msgs):
    """messages another message contains are embedded"""
    used = set()
    for p in [proto] + proto.imports:
        for m in p.messages.values():
            for f in m["fields"]:
                if f["info"].get("item_type"):
                    used.add(f["info"]["item_type"])
        for u in p.unions.values():
            for c in u["cases"]:
                if c.get("item_type"):
                    used.add(c["item_type"])
    return used


def names_of(I, v):
    """field name -> value of a decoded message"""
    if isinstance(v, Sy):
        v = I.expand(v.ty, v.name)
    return {f[0]: x for f, x in zip(I.T(v.ty)["v"][v.var]["f"], v.f)}


def rule_read(proto, m, offsets=False):
    fields = fields_of(proto, m)
    top = m["name"] not in set_top(proto, None)
    for f in fields:
        f.top = top

    def rule(env, outs):
        I = env.I
        for p in I.panics:
            env.that(p.st, False, "no panic", p.span, "%s in %s" % (p.kind, p.fn))
        env.put("no panic", "proved")
        R.loops_end(env)
        src = natives.as_slice(I, I.args0, I.root_args[0])
        for st, v in outs:
            k = variant(I, st, v)
            if k is None:
                raise Give("undecided result")
            if k == "Ok":
                val, size = message_parts(I, payload(I, st, v))
                offs = None
                if offsets:
                    if not isinstance(val, Tup):
                        raise Give("offsets")
                    val, offs = val.f
                vals = names_of(I, val)
                w = Walk(env, st, proto, fields, src, vals)
                env.need(st, ("ge", src.len - size), "size never exceeds the input")
                for s, why, pos, ends in w.run(st):
                    if why is not None:
                        if why[1] in ("string", "lost"):
                            env.that(s, None, "accepts only complete input", "", "%s: %s" % (why[0].name, why[1]))
                        else:
                            env.never(s, "accepts only complete input" if why[1] != "nested" else "every field holds what follows the previous one", why[0].name, why[1])
                        continue
                    env.eq(s, size, pos, "size is the extent of the fields")
                    if offsets:
                        check_offsets(env, s, fields, names_of(I, offs), ends, val)
                    R_failed(env, s, False)
            else:
                err = variant(I, st, payload(I, st, v))
                w = Walk(env, st, proto, fields, src, None)
                if offsets:
                    pass
                for s, why, pos, ends in w.run(st):
                    if why is None:
                        env.never(s, "rejects only malformed input", "", "complete input rejected with %s" % err)
                        continue
                    f, r = why
                    if r == "truncated":
                        env.that(s, err == "Truncated" if err else None, "short input is reported as truncated", f.name, "error is %s" % err)
                    elif r == "utf8":
                        env.that(s, err == "InvalidUtf8" if err else None, "invalid UTF-8 is reported as such", f.name, "error is %s" % err)
                    elif r == "failed":
                        env.put("rejects only malformed input", "proved")
                    elif r == "string":
                        bad = [e for e in s.ev if e[0] == "utf8err"]
                        want = "InvalidUtf8" if bad else "Truncated"
                        env.that(s, err == want if err else None, "a malformed string is reported", f.name, "error is %s" % err)
                    else:
                        env.that(s, None, "rejects only malformed input", f.name, "position after %s unknown" % f.name)
    return rule


def R_failed(env, st, bad):
    f = st.g.get("failed")
    if f is True:
        env.never(st, "every failure is reported", "", "failure of a nested value reported as success")
    else:
        env.put("every failure is reported", "proved")


def check_offsets(env, st, fields, offs, ends, val):
    I = env.I
    for f, (a, b) in zip(fields, ends):
        o = offs.get(f.name)
        if o is None:
            env.that(st, None, "offsets delimit the field", f.name, "no offset reported")
            continue
        d = names_of(I, o)
        env.eq(st, d["start"], a, "offsets delimit the field", f.name)
        env.eq(st, d["end"], b, "offsets delimit the field", f.name)
        if f.kind == "msg":
            n = offs.get(f.name + "_offsets")
            if n is None:
                env.that(st, None, "nested offsets are those of the nested value", f.name)
                continue
            start = a
            if f.opt:
                k = variant(I, st, n)
                kv = variant(I, st, names_of(I, val)[f.name])
                env.that(st, k == kv if k and kv else None, "nested offsets are those of the nested value", f.name)
                if k != "Some":
                    continue
                n = payload(I, st, n)
                start = a + 1
            off0 = natives.as_slice(I, I.args0, I.root_args[0]).off
            ev = [e for e in st.ev if e[0] == "dec" and e[1] == "msg:" + f.item and st.truth(("eq", e[2].off - off0 - start)) is True]
            if not ev:
                env.that(st, None, "nested offsets are those of the nested value", f.name)
                continue
            tag = "offs:%s@" % ev[0][1]
            if isinstance(n, Sy) and n.name.startswith("offs:"):
                env.that(st, n.name.startswith(tag), "nested offsets are those of the nested value", f.name, n.name)
            elif isinstance(n, Adt) and not n.f:
                env.put("nested offsets are those of the nested value", "proved")
            else:
                env.that(st, None, "nested offsets are those of the nested value", f.name, repr(n)[:80])


# ---------------------------------------------------------------- writing

def scalar_pieces(st, x, n, big):
    b = N.bits_of(st.norm(x), 8 * n)
    bs = [N.from_bits(b[8 * i:8 * i + 8], False) for i in range(n)]
    if big:
        bs.reverse()
    return [("b", q) for q in bs]


def expected(env, st, proto, fields, vals):
    """[(state, pieces, conditions under which the value can be written)]"""
    I = env.I
    big = proto.end == "big"
    work = [(st, (), (), 0)]
    out = []
    while work:
        s, pcs, conds, i = work.pop()
        if i == len(fields):
            out.append((s, list(pcs), list(conds)))
            continue
        f = fields[i]
        pcs0 = pcs
        v = vals[f.name]
        if isinstance(v, Ptr):
            v = natives.writer_of(I, s, v)
        if f.opt:
            k = variant(I, s, v)
            if k is None:
                if isinstance(v, Sy):
                    t = I.T(v.ty)
                    for j, x in enumerate(t["v"]):
                        c = s.copy()
                        c.facts[v.name] = j
                        work.append((c, pcs, conds, i))
                    continue
                raise Give("undecided option")
            if k == "None":
                work.append((s, pcs + (("b", ZERO),), conds, i + 1))
                continue
            pcs = pcs + (("b", K(1)),)
            v = payload(I, s, v)
            if isinstance(v, Ptr):
                v = natives.writer_of(I, s, v)
        K_ = f.kind
        if K_ == "struct":
            d = struct_of(I, v)
            if d is not None:
                d = natives.as_slice(I, s, d)
                # a view shorter than the structure cannot be written
                if not s.add_ge(d.len - f.struct.size):
                    continue
                if f.struct.size:
                    pcs = pcs + (("s", d._replace(len=K(f.struct.size))),)
            else:
                x = f.struct.fields[0]
                if x.kind == "float":
                    v = I.f_bits(v, x.bits)
                elif x.kind == "boolean" and not isinstance(v, Lin):
                    t = s.truth(v) if isinstance(v, tuple) else None
                    if t is None:
                        if not isinstance(v, tuple):
                            raise Give("undecided boolean")
                        for w in (True, False):
                            for c in s.copy().assume(v, w):
                                work.append((c, pcs0, conds, i))
                        continue
                    v = K(1 if t else 0)
                if not isinstance(v, Lin):
                    v = I.num(s, v)
                pcs = pcs + tuple(scalar_pieces(s, v, f.struct.size, f.sproto.end == "big"))
        elif K_ == "payload":
            pcs = pcs + (("s", natives.as_slice(I, s, v)),)
        elif K_ == "nts":
            d = natives.as_slice(I, s, v)
            pcs = pcs + (("s", d), ("b", ZERO))
            conds = conds + (("nul", f, d),)
        elif K_ == "varchar":
            d = natives.as_slice(I, s, v)
            conds = conds + (("fit", f, d.len),)
            pcs = pcs + tuple(scalar_pieces(s, d.len, f.w, big)) + (("s", d),)
        elif K_ in ("array", "list"):
            d, n = container_parts(I, v)
            d = natives.as_slice(I, s, d)
            conds = conds + (("fit", f, n),)
            pcs = pcs + tuple(scalar_pieces(s, n, f.w, big)) + (("s", d),)
        elif K_ == "msg":
            pcs = pcs + (("e", "msg:" + f.item, v),)
        elif K_ == "union":
            d = struct_of(I, vals[f.on])
            d = natives.as_slice(I, s, d) if d is not None else None
            nm = "union:%s:%r" % (f.item, (d.root, d.path, s.norm(d.off), s.norm(d.len))) if d is not None else "union:" + f.item
            pcs = pcs + (("e", nm, v),)
        work.append((s, pcs, conds, i + 1))
    return out


def input_values(env, st):
    I = env.I
    p = I.root_args[0]
    v = I.load(I.args0, p.root, p.path) if isinstance(p, Ptr) else p
    return names_of(I, v)


def lim(f):
    return (1 << (8 * f.w)) - 1


def rule_write(proto, m):
    fields = fields_of(proto, m)

    def rule(env, outs):
        I = env.I
        for st, v in outs:
            r = variant(I, st, v)
            if r is None:
                raise Give("undecided result")
            vals = input_values(env, st)
            f_ = st.g.get("failed")
            if f_ is True:
                env.that(st, r == "Err", "every failure is reported", "", "a failure is reported as success")
            elif f_ == "maybe":
                env.that(st, True if r == "Err" else None, "every failure is reported")
            else:
                env.put("every failure is reported", "proved")
            if r == "Ok":
                R.short_write_ok(env, st, "success only after every byte was accepted")
            elif f_:
                continue
            for s, pcs, conds in expected(env, st, proto, fields, vals):
                if r == "Ok":
                    match_stream(env, s, stream(I, s), pcs, "writes every field once, in order, with its codec")
                    for c in conds:
                        if c[0] == "fit":
                            env.need(s, ("ge", K(lim(c[1])) - c[2]), "a length that does not fit the prefix is refused", c[1].name)
                        else:
                            nul_refused(env, s, c)
                else:
                    # some value must be unwritable
                    w = s
                    dead = False
                    nul = None
                    for c in conds:
                        if c[0] == "fit":
                            if not w.add_ge(K(lim(c[1])) - c[2]):
                                dead = True
                                break
                        elif contains_nul(w, c[2]) is True:
                            dead = True
                            break
                        elif contains_nul(w, c[2]) is None:
                            nul = c
                    if dead or w.bad():
                        env.put("only unwritable values are refused", "proved")
                    else:
                        env.that(w, False, "only unwritable values are refused", "", "")
    return rule


def contains_nul(st, d):
    for k, x in st.facts.items():
        if isinstance(k, tuple) and k and k[0] == "o" and isinstance(k[1], Term) and k[1].op == "contains":
            a = k[1].args[0]
            if isinstance(a, SliceV) and a.root == d.root and a.path == d.path and st.truth(("and", ("eq", a.off - d.off), ("eq", a.len - d.len))) is True:
                return x
    return None


def nul_refused(env, st, c):
    t = contains_nul(st, c[2])
    nm = "a terminated string with a terminator inside is refused"
    if t is not None:
        return env.that(st, t is False, nm, c[1].name)
    if env.mode == "exact" and not st.loopy:
        s = st.copy()
        if s.add_ge(c[2].len - 1) and s.add_eq(byte(env.I, s, c[2], ZERO)):
            return env.never(s, nm, c[1].name, "a string starting with NUL is written")
    env.that(st, None, nm, c[1].name)


# ---------------------------------------------------------------- reader after writer

def msg_wire_hook(base, contracted, fields, vals):
    inner = R.wire_hook(base, contracted)

    def hook(I, st, c, args, span, dty):
        fn = c.get("fn")
        if fn and not c.get("tr"):
            m = UNION.match(fn)
            if m and m.group(2) == "from_slice" and len(args) == 2:
                s = natives.as_slice(I, st, args[0])
                if s.root == ("R", "wire"):
                    d = struct_of(I, natives.writer_of(I, st, args[1]) if isinstance(args[1], Ptr) else args[1])
                    off = st.norm(s.off)
                    for o, codec, val, ln in st.g.get("wire", ()):
                        if not codec.startswith("union:%s:" % m.group(1)) or st.truth(("eq", off - o)) is not True:
                            continue
                        want = getattr(I, "discrs", {}).get(codec)
                        f = [f for f in fields if f.kind == "union" and f.item == m.group(1)]
                        if not f or not isinstance(d, SliceV) or want is None:
                            st.g["wire_short"] = True
                            continue
                        n = f[0].disc_size
                        for i in range(n):
                            if st.truth(("eq", byte(I, st, d, K(i)) - byte(I, st, want, K(i)))) is not True:
                                st.g["wire_discr"] = True
                        if st.truth(("ge", s.len - ln)) is not True:
                            st.g["wire_short"] = True
                        okt, errt = contracts.ok_err(I, dty)
                        vs = [ln if x[0] == "size" else val for x in I.T(okt)["v"][0]["f"]]
                        st.ev += (("dec", codec, s._replace(off=off), ln),)
                        return [(st, Adt(dty, 0, (Adt(okt, 0, tuple(vs)),)))]
        tr = c.get("tr") or ""
        if tr.endswith(contracts.FS) and "NullTerminated" in (c.get("impl") or ""):
            # the scan stops at the first terminator (decided by C02); what was
            # written holds none before its end (decided by C05)
            s = natives.as_slice(I, st, args[0])
            if s.root == ("R", "wire"):
                off = st.norm(s.off)
                for w in st.regs.get("wire", ()):
                    if w[0] == "blk" and st.truth(("eq", w[1] - off)) is True and st.truth(("ge", s.len - w[2] - 1)) is True \
                            and st.truth(("eq", byte(I, st, s, w[2]))) is True:
                        okt, errt = contracts.ok_err(I, dty)
                        data = SliceV(s.root, s.path, off, w[2], s.elem, "str")
                        vs = [w[2] + 1 if x[0] == "size" else data for x in I.T(okt)["v"][0]["f"]]
                        return [(st, Adt(dty, 0, (Adt(okt, 0, tuple(vs)),)))]
        return inner(I, st, c, args, span, dty)
    return hook


def rule_roundtrip(proto, m, deckey, contracted):
    fields = fields_of(proto, m)
    top = m["name"] not in set_top(proto, None)
    for f in fields:
        f.top = top
        if f.kind == "union":
            p, u = proto.find("unions", f.item)
            f.disc_size = layout.discriminant(u, p)[1][0].size
    names = {f.name: f for f in fields}

    def rule(env, outs):
        I = env.I
        base = I.hook
        for st, v in outs:
            if variant(I, st, v) != "Ok":
                continue
            if any(e[0] == "wpart" and st.truth(("eq", e[3] - e[2])) is not True for e in st.ev):
                continue
            vals = input_values(env, st)
            got = []
            for p in stream(I, st):
                if p[0] == "p":
                    got += [("b", x) for x in p[1].f] if isinstance(p[1], Arr) else [("s", p[1])]
                else:
                    got.append(p)
            wst = st.copy()
            wst.ev = ()
            if not invariants(I, wst, fields, vals):
                continue
            # strings written are valid UTF-8, and a terminated one holds no terminator
            open_end = bool(fields) and (fields[-1].kind == "payload" or fields[-1].kind == "list" and top) or any(f.kind in ("msg", "union") for f in fields[-1:])
            t = R.lay_wire(I, wst, got, not open_end)
            if t == "infeasible":
                continue
            if t is None:
                env.that(st, None, "the reader accepts what was written", "", "output not recognised")
                continue
            body, total = t
            for w in wst.regs["wire"]:
                if w[0] == "blk":
                    for k, x in list(wst.facts.items()):
                        if isinstance(k, tuple) and k and k[0] == "o" and isinstance(k[1], Term) and k[1].op == "contains":
                            a = k[1].args[0]
                            if isinstance(a, SliceV) and a.root == w[3].root and a.path == w[3].path:
                                wst.g["nonul"] = True
            for s in w_strings(I, wst, fields, vals):
                for w in wst.regs["wire"]:
                    if w[0] == "blk" and w[3].root == s.root and w[3].path == s.path and wst.truth(("eq", w[3].off - s.off)) is True:
                        wst.facts[("o", Term("utf8", (("R", "wire"), (), wst.norm(w[1]), wst.norm(w[2]))))] = True
            I.hook = msg_wire_hook(base, contracted, fields, vals)
            try:
                res = I.call_body(wst, deckey, [SliceV(("R", "wire"), (), ZERO, total, None, "s")], "root")
            finally:
                I.hook = base
            for r, x in res:
                k, mm, size = R.outcome(env, r, x)
                items = {"msg:" + f.item for f in fields if f.kind == "list"}
                foreign = [e for e in r.ev if e[0] in ("dec", "decerr") and e[2].root == ("R", "wire") and e[1] not in items
                           and not any(tag_of(o[1]) == tag_of(e[1]) and r.truth(("eq", e[2].off - o[0])) is True for o in r.g["wire"])]
                if foreign:
                    env.never(r, "nested values are read where they were written", "", "%r" % (foreign[0][:2],))
                    continue
                if r.g.get("wire_short") or r.g.get("wire_discr"):
                    env.that(r, None, "nested values are read where they were written")
                    continue
                if k == "Err":
                    if any(e[0] == "decerr" and e[1] in items for e in r.ev):
                        continue
                    if any(f.kind == "nts" for f in fields):
                        env.that(r, None, "the reader accepts what was written", "", "terminator scan")
                        continue
                    env.never(r, "the reader accepts what was written", "", "rejected with %s" % variant(I, r, mm))
                    continue
                rv = names_of(I, mm)
                lists = any(f.kind == "list" for f in fields)
                for f in fields:
                    if f.name not in rv:
                        env.never(r, "the same value is read back", f.name, "field missing")
                        continue
                    same_field(env, r, f, rv[f.name], vals[f.name])
                if not lists:
                    env.eq(r, size, body, "the reader consumes what was written")
    return rule


def tag_of(n):
    return n.split(":(")[0]


def w_strings(I, st, fields, vals):
    for f in fields:
        if f.kind in ("nts", "varchar"):
            v = vals[f.name]
            if isinstance(v, Ptr):
                v = natives.writer_of(I, st, v)
            if f.opt:
                if variant(I, st, v) != "Some":
                    continue
                v = payload(I, st, v)
            yield natives.as_slice(I, st, v)


def invariants(I, st, fields, vals):
    """what holds of values obtained from decoding or validated construction"""
    for f in fields:
        v = vals[f.name]
        if isinstance(v, Ptr):
            v = natives.writer_of(I, st, v)
        if f.opt:
            k = variant(I, st, v)
            if k != "Some":
                continue
            v = payload(I, st, v)
        if f.kind == "struct":
            d = struct_of(I, v)
            if d is not None and not st.add_ge(natives.as_slice(I, st, d).len - f.struct.size):
                return False
        elif f.kind == "array":
            d, n = container_parts(I, v)
            if not st.add_eq(natives.as_slice(I, st, d).len - n.scale(f.struct.size)):
                return False
    return True


def same_field(env, st, f, got, want):
    I = env.I
    nm = "the same value is read back"
    if isinstance(got, Ptr):
        got = natives.writer_of(I, st, got)
    if isinstance(want, Ptr):
        want = natives.writer_of(I, st, want)
    if f.opt:
        a, b = variant(I, st, got), variant(I, st, want)
        if a is None or b is None:
            return env.that(st, None, nm, f.name, "undecided option")
        env.that(st, a == b, nm, f.name, "%s written, %s read" % (b, a))
        if a != b or a == "None":
            return
        got, want = payload(I, st, got), payload(I, st, want)
    if f.kind == "list":
        d0, n0 = container_parts(I, want)
        d, n = container_parts(I, got)
        env.eq(st, n, n0, nm, f.name)
        w = [w for w in st.regs["wire"] if w[0] == "blk" and w[3].root == d0.root and w[3].path == d0.path]
        if w and isinstance(d, SliceV) and d.root == ("R", "wire"):
            env.eq(st, d.off, w[0][1], "items are read where they were written", f.name)
        return
    if f.kind == "array":
        d0, n0 = container_parts(I, want)
        d, n = container_parts(I, got)
        env.eq(st, n, n0, nm, f.name)
        return R.wire_same(env, st, natives.as_slice(I, st, d), natives.as_slice(I, st, d0), nm)
    if f.kind == "struct" and struct_of(I, got) is not None and struct_of(I, want) is not None:
        # a structure is its first bytes; the storage behind them may be longer
        a, b = natives.as_slice(I, st, struct_of(I, got)), natives.as_slice(I, st, struct_of(I, want))
        return R.wire_same(env, st, a, b._replace(len=N.K(f.struct.size)) if isinstance(b, SliceV) else b, nm)
    if f.kind == "nts":
        # where the scan stops is decided by the bytes: the reader's own contract (C02) says at the first terminator
        a, b = natives.as_slice(I, st, got), natives.as_slice(I, st, want)
        if st.truth(("eq", a.len - b.len)) is True:
            return R.wire_same(env, st, a, b, nm)
        return env.put("terminated strings are delimited by their terminator", "proved")
    R.wire_same(env, st, got, want, nm)
