"""Obligations on generated unions: one table from case to discriminant value."""
import re

import layout
import natives
import numdom as N
from numdom import Lin, K, ZERO
from interp import SliceV, Ptr, Adt, Sy, Tup, Arr, Give, ISIZE_MAX
from rules import *
import rules_gen as G
import rules_msg as M
import rules_runtime as R


def snake(s):
    return re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", s).lower()


def flat(s):
    return s.replace("_", "").lower()


class U:
    def __init__(self, proto, u):
        self.proto, self.name = proto, u["name"]
        p, path = layout.discriminant(u, proto)
        self.root = path[0]
        leaf = path[-1]
        self.bits = leaf.bits
        owner = path[0] if len(path) == 2 else path[-2].struct
        off = sum(f.start for f in path[1:-1])
        self.pos = [(off + by, bi) for by, bi in G.pos_of(leaf, owner.end)]
        self.cases = {}
        for c in u["cases"]:
            v = layout.case_value(u, c, proto) % (1 << self.bits)
            it = c.get("item_type")
            s = proto.find("structs", it)[1] if it else None
            self.cases[flat(c["name"])] = (c["name"], v, it, s)

    def raw(self, I, st, d):
        cache = {}
        bits = []
        for by, bi in self.pos:
            if by not in cache:
                cache[by] = N.bits_of(st.norm(byte(I, st, d, K(by))), 8)
            bits.append(cache[by][bi])
        return N.from_bits(tuple(bits), False)


def discr(I, st, arg):
    v = natives.writer_of(I, st, arg) if isinstance(arg, Ptr) else arg
    d = M.struct_of(I, v)
    if d is None:
        raise Give("discriminant structure")
    return natives.as_slice(I, st, d)


def pre_discr(u, i):
    def pre(I, st, args):
        I.root_args = args
        d = discr(I, st, args[i])
        if not st.add_ge(d.len - u.root.size):
            raise Give("precondition")
    return pre


def case_of(I, st, u, v):
    n = variant(I, st, v)
    return u.cases.get(flat(n)) if n is not None else None


def rule_read(u):
    def rule(env, outs):
        I = env.I
        for p in I.panics:
            env.that(p.st, False, "no panic", p.span, "%s in %s" % (p.kind, p.fn))
        env.put("no panic", "proved")
        src = natives.as_slice(I, I.args0, I.root_args[0])
        for st, v in outs:
            k = variant(I, st, v)
            if k is None:
                raise Give("undecided result")
            raw = u.raw(I, st, discr(I, I.args0, I.root_args[1]))
            dec = [e for e in st.ev if e[0] in ("dec", "decerr")]
            if k == "Ok":
                m, size = message_parts(I, payload(I, st, v))
                c = case_of(I, st, u, m)
                if c is None:
                    env.that(st, None, "reading selects the case declared for the discriminant", "", repr(m)[:100])
                    continue
                name, val, item, s = c
                env.eq(st, raw, K(val), "reading selects the case declared for the discriminant", name)
                if item is None:
                    env.eq(st, size, ZERO, "the case's content is read", name)
                elif s is not None:
                    d = M.struct_of(I, payload(I, st, m))
                    if d is None:
                        env.that(st, None, "the case's content is read", name)
                    else:
                        same_slice(env, st, natives.as_slice(I, st, d), src.root, src.off, K(s.size), "the case's content is read", name)
                    env.eq(st, size, K(s.size), "the case's content is read", name)
                else:
                    ok = len(dec) == 1 and dec[0][1] == "msg:" + item
                    env.that(st, ok, "the case's content is read", name, "%r" % ([e[:2] for e in dec],))
                    if ok:
                        env.need(st, ("and", ("eq", dec[0][2].off - src.off), ("eq", dec[0][2].len - src.len)), "the case's content is read", name)
                        env.eq(st, size, dec[0][3], "the case's content is read", name)
                if st.g.get("failed"):
                    env.never(st, "every failure is reported")
                else:
                    env.put("every failure is reported", "proved")
            else:
                err = variant(I, st, payload(I, st, v))
                if any(e[0] == "decerr" for e in dec):
                    e = [e for e in dec if e[0] == "decerr"][0]
                    cs = [c for c in u.cases.values() if c[2] is not None and "msg:" + c[2] == e[1]]
                    cond = ors([("eq", raw - c[1]) for c in cs])
                    env.need(st, cond, "reading selects the case declared for the discriminant", "failed content")
                    continue
                # either no case has this value, or the content of the case is cut short
                cond = [None]
                short = [("and", ("eq", raw - c[1]), ("ge", K(c[3].size - 1) - src.len)) for c in u.cases.values() if c[3] is not None]
                none = ("not", ors([("eq", raw - c[1]) for c in u.cases.values()]))
                if err == "Truncated":
                    env.need(st, ors(short), "fails only for values no case declares")
                elif err is None:
                    env.that(st, None, "fails only for values no case declares")
                else:
                    env.need(st, none, "fails only for values no case declares")
    return rule


def ors(cs):
    if not cs:
        return ("c", False)
    r = cs[0]
    for c in cs[1:]:
        r = ("or", r, c)
    return r


def rule_write(u):
    def rule(env, outs):
        I = env.I
        p = I.root_args[0]
        for st, v in outs:
            r = variant(I, st, v)
            if r is None:
                raise Give("undecided result")
            val = I.load(I.args0, p.root, p.path) if isinstance(p, Ptr) else p
            c = case_of(I, st, u, val)
            raw = u.raw(I, st, discr(I, I.args0, I.root_args[1]))
            f = st.g.get("failed")
            if f is True:
                env.that(st, r == "Err", "every failure is reported", "", "a failure is reported as success")
            elif f == "maybe":
                env.that(st, True if r == "Err" else None, "every failure is reported")
            else:
                env.put("every failure is reported", "proved")
            if f and r == "Err":
                continue
            if r == "Ok":
                R.short_write_ok(env, st, "success only after every byte was accepted")
            if c is None:
                # the table was consulted without looking at the case: every case must agree
                for name, cv, _, _ in u.cases.values():
                    env.that(st, None, "writing requires the discriminant of the case", name)
                continue
            name, cv, item, s = c
            if r == "Ok":
                env.eq(st, raw, K(cv), "writing requires the discriminant of the case", name)
                if item is None:
                    pcs = []
                elif s is not None:
                    d = natives.as_slice(I, st, M.struct_of(I, payload(I, st, val)))
                    pcs = [("s", d._replace(len=K(s.size)))] if s.size else []
                else:
                    pcs = [("e", "msg:" + item, payload(I, st, val))]
                match_stream(env, st, stream(I, st), pcs, "the case's content is written")
            else:
                env.need(st, ("not", ("eq", raw - cv)), "a case with the right discriminant is written", name)
    return rule


def rule_set(u):
    def rule(env, outs):
        I = env.I
        p = I.root_args[0]
        for q in I.panics:
            env.that(q.st, False, "no panic", q.span, "%s in %s" % (q.kind, q.fn))
        env.put("no panic", "proved")
        for st, v in outs:
            val = I.load(I.args0, p.root, p.path) if isinstance(p, Ptr) else p
            c = case_of(I, st, u, val)
            d = discr(I, I.args0, I.root_args[1])
            if c is None:
                env.that(st, None, "the discriminant is set to the value of the case")
                continue
            env.eq(st, u.raw(I, st, d), K(c[1]), "the discriminant is set to the value of the case", c[0])
            mine = set(u.pos)
            for i in range(u.root.size):
                old = N.bits_of(I.args0.norm(byte(I, I.args0, d, K(i))), 8)
                new = N.bits_of(st.norm(byte(I, st, d, K(i))), 8)
                want = tuple(new[j] if (i, j) in mine else old[j] for j in range(8))
                if want != new:
                    env.eq(st, N.from_bits(new, False), N.from_bits(want, False), "everything else in the structure is kept", c[0])
                else:
                    env.put("everything else in the structure is kept", "proved")
    return rule


def rule_acc(u, cname, is_):
    def rule(env, outs):
        I = env.I
        p = I.root_args[0]
        nm = "content is returned only when the case is active"
        for st, v in outs:
            val = I.load(I.args0, p.root, p.path) if isinstance(p, Ptr) else p
            n = variant(I, st, val)
            if n is None:
                # decided without looking at the case
                vs = [x["n"] for x in I.T(val.ty)["v"]] if isinstance(val, Sy) else []
                n = [x for x in vs if not (isinstance(st.facts.get(("isnt", val.name)), (set, frozenset)) and x in st.facts[("isnt", val.name)])]
                env.that(st, None, nm)
                continue
            active = flat(n) == flat(cname)
            if is_:
                t = st.truth(v) if isinstance(v, tuple) and not isinstance(v, Adt) else (None if not isinstance(v, Lin) else st.truth(("not", ("eq", v))))
                env.that(st, None if t is None else t == active, nm, cname, "is_%s on %s is %s" % (cname, n, t))
            else:
                k = variant(I, st, v)
                env.that(st, None if k is None else (k == "Some") == active, nm, cname, "as_%s on %s is %s" % (cname, n, k))
                if k == "Some" and active:
                    g = payload(I, st, v)
                    x = payload(I, st, val)
                    env.that(st, same_value(I, st, g, x), nm, cname, "%r" % (g,))
    return rule


KEY = re.compile(r"^([A-Za-z_0-9]+)::(?:[a-z_0-9]+::)*([A-Za-z_0-9]+)(?:::<'_>)?::([a-z_0-9A-Z]+)(?:::<.*>)?@")


def units(prog, proto):
    out = []
    for k in prog.roots:
        m = KEY.match(k)
        if not m or m.group(1) != proto.name or m.group(2) not in proto.unions:
            continue
        d = proto.unions[m.group(2)]
        u = U(proto, d)
        fn = m.group(3)
        lab = "%s.%s.%s" % (proto.name, u.name, fn)
        if fn == "from_slice":
            out.append((lab, k, rule_read(u), pre_discr(u, 1)))
        elif fn == "write_to":
            out.append((lab, k, rule_write(u), pre_discr(u, 1)))
        elif fn == "set_discriminant":
            out.append((lab, k, rule_set(u), pre_discr(u, 1)))
        else:
            for c in d["cases"]:
                if flat(fn) == "is" + flat(c["name"]):
                    out.append((lab, k, rule_acc(u, c["name"], True), None))
                elif flat(fn) == "as" + flat(c["name"]):
                    out.append((lab, k, rule_acc(u, c["name"], False), None))
    return out
