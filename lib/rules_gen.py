"""Obligations on generated code, against the layout computed from the schema."""
import re
import struct as pystruct

import contracts
import layout
import numdom as N
from numdom import Lin, K, ZERO, var
from interp import SliceV, Ptr, Adt, Sy, Tup, Arr, Term, It, Give, ISIZE_MAX
from rules import *


def data_slice(I, st):
    """the bytes a structure view refers to (argument `self`)"""
    p = I.root_args[0]
    v = I.load(st, p.root, p.path) if isinstance(p, Ptr) else p
    if isinstance(v, Sy):
        v = I.expand(v.ty, v.name)
    xs = [x for x in v.f if isinstance(x, (SliceV, Ptr))]
    if len(xs) != 1:
        raise Give("structure data")
    return natives.as_slice(I, st, xs[0])


def pre_size(size):
    def pre(I, st, args):
        I.root_args = args
        d = data_slice(I, st)
        if not st.add_ge(d.len - size):
            raise Give("precondition")
    return pre


def pos_of(f, end):
    """[(byte, bit)] of the field's bits, least significant first"""
    n = f.nbytes
    out = []
    for k in range(f.bits):
        if end == "little":
            b = f.shift + k
            out.append((f.start + b // 8, b % 8))
        else:
            b = 8 * n - f.bits - f.shift + k
            out.append((f.start + n - 1 - b // 8, b % 8))
    return out


def field_bits(I, st, d, f, end):
    cache = {}
    bits = []
    for by, bi in pos_of(f, end):
        if by not in cache:
            cache[by] = N.bits_of(st.norm(byte(I, st, d, K(by))), 8)
        bits.append(cache[by][bi])
    return bits


def as_number(I, st, v, w):
    if isinstance(v, Lin):
        return v
    if isinstance(v, (Term, Sy)) or isinstance(v, tuple):
        try:
            return I.f_bits(v, w)
        except Exception:
            pass
    return None


def is_float(I, v):
    return isinstance(v, Sy) and I.T(v.ty)["s"] in ("f32", "f64") or isinstance(v, Term)


def no_panic(env):
    for p in env.I.panics:
        env.that(p.st, False, "the accessor does not panic", p.span, p.kind)


def rule_get_raw(s, f):
    def rule(env, outs):
        I = env.I
        no_panic(env)
        for st, v in outs:
            want = N.from_bits(tuple(field_bits(I, st, data0(I, st), f, s.end)), False)
            got = as_number(I, st, v, 32 if f.bits <= 32 else 64)
            if got is None:
                env.that(st, None, "reads exactly its bits", "", repr(v)[:100])
            else:
                env.eq(st, got, want, "reads exactly its bits")
    return rule


def data0(I, st):
    return I.d0


def with_data(rule):
    def r(env, outs):
        env.I.d0 = data_slice(env.I, env.I.args0)
        return rule(env, outs)
    return r


def with_none(rule):
    def r(env, outs):
        env.I.d0 = None
        return rule(env, outs)
    return r


def pre_args(I, st, args):
    I.root_args = args


def rule_get(s, f, proto):
    view = f.view or {}

    def rule(env, outs):
        I = env.I
        no_panic(env)
        for st, v in outs:
            bits = tuple(field_bits(I, st, data0(I, st), f, s.end))
            raw = N.from_bits(bits, False)
            if view.get("type") == "enum":
                en = proto.enum(view["name"])
                k = variant(I, st, v)
                if k == "None":
                    for n, val in en.items():
                        env.need(st, ("not", ("eq", raw - val)), "nothing is returned only for undeclared values")
                    if not en:
                        env.put("nothing is returned only for undeclared values", "proved")
                elif k == "Some":
                    x = payload(I, st, v)
                    n = variant(I, st, x)
                    if n not in en:
                        env.that(st, None if n is None else False, "returns the variant declared for the value", "", repr(x))
                    else:
                        env.eq(st, raw, K(en[n]), "returns the variant declared for the value")
                else:
                    env.that(st, None, "returns the variant declared for the value", "", "undecided")
            elif f.kind == "boolean":
                t = st.truth(v) if isinstance(v, tuple) and not isinstance(v, (Adt,)) else None
                if t is None and isinstance(v, tuple) and v and v[0] in ("not", "eq", "ge", "and", "c"):
                    for t in (True, False):
                        for z in st.copy().assume(v, t):
                            env.need(z, ("not", ("eq", raw)) if t else ("eq", raw), "true exactly for non-zero raw values")
                elif t is None:
                    env.that(st, None, "true exactly for non-zero raw values")
                else:
                    env.need(st, ("not", ("eq", raw)) if t else ("eq", raw), "true exactly for non-zero raw values")
            elif f.kind == "signed":
                if not isinstance(v, Lin):
                    env.that(st, None, "is the two's complement value", "", repr(v)[:80])
                else:
                    env.eq(st, v, N.from_bits(bits, True), "is the two's complement value")
            elif f.kind == "float" and view.get("type") in ("float-range", "float-multiplier"):
                affine_get(env, st, v, raw, f)
            elif f.kind == "float":
                got = as_number(I, st, v, f.bits)
                if got is None:
                    env.that(st, None, "is bit-exact", "", repr(v)[:80])
                else:
                    env.eq(st, got, raw, "is bit-exact")
            else:
                env.eq(st, as_number(I, st, v, f.bits), raw, "returns the raw value")
    return rule


# ---- affine maps

def fconst(t):
    if t.op == "f32":
        return pystruct.unpack("<f", pystruct.pack("<I", t.args[0]))[0]
    if t.op == "f64":
        return pystruct.unpack("<d", pystruct.pack("<Q", t.args[0]))[0]


def affine(I, st, v, leaf):
    """v = a * leaf + b; (a, b) or None"""
    if leaf(v):
        return (1.0, 0.0)
    if isinstance(v, Term):
        if v.op in ("f32", "f64"):
            a = v.args[0]
            if isinstance(a, Lin):
                if not a.is_const():
                    return None
                a = a.c
            return (0.0, pystruct.unpack("<f" if v.op == "f32" else "<d", (a).to_bytes(4 if v.op == "f32" else 8, "little"))[0])
        if v.op in ("i2f32", "i2f64"):
            a = v.args[0]
            if leaf(a):
                return (1.0, 0.0)
            if isinstance(a, Lin) and a.is_const():
                return (0.0, float(a.c))
            return None
        if v.op in ("Add", "Sub", "Mul", "Div", "Neg") or v.op.startswith("f2f"):
            xs = [affine(I, st, x, leaf) for x in v.args]
            if any(x is None for x in xs):
                return None
            if v.op.startswith("f2f"):
                return xs[0]
            if v.op == "Neg":
                return (-xs[0][0], -xs[0][1])
            (a, b), (c, d) = xs
            if v.op == "Add":
                return (a + c, b + d)
            if v.op == "Sub":
                return (a - c, b - d)
            if v.op == "Mul":
                if a == 0:
                    return (b * c, b * d)
                if c == 0:
                    return (a * d, b * d)
                return None
            if c == 0 and d != 0:
                return (a / d, b / d)
    return None


def raw_bounds(f):
    return 0, (1 << f.bits) - 1


def near(a, b, scale, eps):
    return abs(a - b) <= eps * max(abs(scale), abs(a), abs(b), 1e-300)


def view_map(f):
    """typed = A * raw + B"""
    if f.view["type"] == "float-multiplier":
        return f.view["multiplier"], 0.0
    lo, hi = raw_bounds(f)
    a = (f.view["max"] - f.view["min"]) / (hi - lo)
    return a, f.view["min"]


def feps(f):
    # computed in f32 up to 16..32 bit raw values, f64 above
    return 2.0 ** -18


def affine_get(env, st, v, raw, f):
    I = env.I

    def leaf(x):
        return isinstance(x, Lin) and st.truth(("eq", x - raw)) is True
    m = affine(I, st, v, leaf)
    if m is None:
        t = None
        # a float of other bits than the field's
        return env.that(st, t, "maps the raw value affinely", "", repr(v)[:200])
    a, b = view_map(f)
    lo, hi = raw_bounds(f)
    span = abs(a) * (hi - lo)
    ok = near(m[0] * lo + m[1], a * lo + b, span, feps(f)) and near(m[0] * hi + m[1], a * hi + b, span, feps(f))
    env.that(st, ok, "range ends are the ends of the raw range", "", "reads raw*%r%+r, declared raw*%r%+r" % (m[0], m[1], a, b))


def affine_set(env, st, stored, f):
    """stored: symbol written; it must be the cast of the inverse map"""
    I = env.I
    rec = None
    for k, (term, tt) in list(N.C.memo.items()) if False else [(k, x) for k, x in N.C.memo.items() if isinstance(k, tuple) and k and k[0] == "f2i"]:
        s = k[1]
        if isinstance(s, Lin) and s.single() is not None and (stored is s.single() or stored == s.single()):
            rec = (term, tt)
    if rec is None:
        return env.that(st, None, "stores the inverse map", "", "stored value not recognised")
    arg = I.root_args[1]
    m = affine(I, st, rec[0], lambda x: x == arg)
    if m is None:
        return env.that(st, None, "stores the inverse map", "", repr(rec[0])[:200])
    a, b = view_map(f)
    lo, hi = raw_bounds(f)
    # the end values must map to the ends of the raw range
    r0, r1 = m[0] * (a * lo + b) + m[1], m[0] * (a * hi + b) + m[1]
    ok = near(r0, lo, hi - lo, feps(f)) and near(r1, hi, hi - lo, feps(f))
    env.that(st, ok, "stores the inverse map", "", "writes value*%r%+r, declared raw*%r%+r" % (m[0], m[1], a, b))


# ---- setters

def touched(st, d, n):
    """indices below n of the slice which were stored to; None: unknown"""
    if d.root[0] != "R" or not d.off.is_const():
        return None
    r = set()
    for w in st.regs.get(d.root[1], ()):
        o = st.norm(w[1]) if w[0] in ("e", "blk") else None
        k = K(1) if w[0] == "e" else st.norm(w[2]) if w[0] == "blk" else None
        if o is None or not o.is_const() or not k.is_const():
            return None
        r |= {i for i in range(o.c - d.off.c, o.c - d.off.c + k.c) if 0 <= i < n}
    return r


def rule_set(s, f, proto, typed):
    view = f.view or {}

    def rule(env, outs):
        I = env.I
        no_panic(env)
        arg = I.root_args[1]
        for st, v in outs:
            d = data0(I, st)
            mine = {}
            for k, p in enumerate(pos_of(f, s.end)):
                mine[p] = k
            look = touched(st, d, s.size)
            look = sorted(look | {p[0] for p in mine}) if look is not None else range(s.size)
            old = {i: N.bits_of(I.args0.norm(byte(I, I.args0, d, K(i))), 8) for i in look}
            new = {i: N.bits_of(st.norm(byte(I, st, d, K(i))), 8) for i in look}
            # other bits
            bad = None
            for i in look:
                want = tuple(new[i][j] if (i, j) in mine else old[i][j] for j in range(8))
                if want != new[i]:
                    bad = i
                    env.eq(st, N.from_bits(new[i], False), N.from_bits(want, False), "leaves every other bit alone")
            if bad is None:
                env.put("leaves every other bit alone", "proved")
            got = tuple(new[p[0]][p[1]] for p, _ in sorted(mine.items(), key=lambda q: q[1]))
            raw = N.from_bits(got, False)
            if not typed:
                x = as_number(I, st, arg, f.bits)
                if x is None:
                    env.that(st, None, "stores the low bits of the value")
                else:
                    env.eq(st, raw, N.from_bits(N.bits_of(st.norm(x), max(64, f.bits))[:f.bits], False), "stores the low bits of the value")
            elif view.get("type") == "enum":
                en = proto.enum(view["name"])
                n = variant(I, st, arg)
                if n not in en:
                    env.that(st, None, "stores the declared value", "", "undecided")
                else:
                    env.eq(st, raw, K(en[n]), "stores the declared value")
            elif f.kind == "boolean":
                t = st.truth(I.as_cond(st, arg) if hasattr(I, "as_cond") else arg) if not isinstance(arg, Lin) else st.truth(("not", ("eq", arg)))
                if t is None and isinstance(arg, tuple) and arg and arg[0] in ("not", "eq", "ge", "and", "c"):
                    for t in (True, False):
                        for z in st.copy().assume(arg, t):
                            env.eq(z, raw, K(1 if t else 0), "stores one or zero")
                elif t is None:
                    env.eq(st, raw, arg, "stores one or zero") if isinstance(arg, Lin) else env.that(st, None, "stores one or zero")
                else:
                    env.eq(st, raw, K(1 if t else 0), "stores one or zero")
            elif f.kind == "signed":
                env.eq(st, raw, N.from_bits(N.bits_of(st.norm(arg), 64)[:f.bits], False), "stores the two's complement value")
            elif f.kind == "float" and view.get("type") in ("float-range", "float-multiplier"):
                ss = {b[0] for b in got if isinstance(b, tuple)}
                ix = [b[1] for b in got if isinstance(b, tuple)]
                if len(ss) == 1 and ix == list(range(f.bits)):
                    affine_set(env, st, ss.pop(), f)
                else:
                    env.that(st, None, "stores the inverse map", "", "stored bits %r" % (got[:4],))
            elif f.kind == "float":
                x = as_number(I, st, arg, f.bits)
                if x is None:
                    env.that(st, None, "is bit-exact")
                else:
                    env.eq(st, raw, N.from_bits(N.bits_of(st.norm(x), f.bits), False), "is bit-exact")
            else:
                env.eq(st, raw, N.from_bits(N.bits_of(st.norm(arg), 64)[:f.bits], False), "stores the low bits of the value")
    return rule


def rule_sub(s, f):
    """accessor of a nested structure or array: the right part of the bytes"""
    n = f.struct.size if f.struct is not None else (f.bits * (f.count or 1)) // 8

    def rule(env, outs):
        I = env.I
        no_panic(env)
        for st, v in outs:
            d = data0(I, st)
            if isinstance(v, Sy):
                v = I.expand(v.ty, v.name)
            xs = [x for x in v.f if isinstance(x, (SliceV, Ptr))]
            if len(xs) != 1:
                env.that(st, None, "refers to its own bytes")
                continue
            got = natives.as_slice(I, st, xs[0])
            same_slice(env, st, got, d.root, d.off + f.start, K(n), "refers to its own bytes")
            if f.struct is not None:
                env.that(st, I.T(v.ty)["p"].split("::")[-1] == f.struct.name, "is the declared structure", "", I.T(v.ty)["s"])
    return rule


def rule_from_slice_struct(s):
    def rule(env, outs):
        I = env.I
        for p in I.panics:
            env.that(p.st, False, "the decoder does not panic", p.span, p.kind)
        Ls = var("slice.len", 0, ISIZE_MAX)
        for c in ("slice.len",):
            if c in N.C.named:
                Ls = N.sl(N.C.named[c])
        for st, v in outs:
            k = variant(I, st, v)
            if k is None:
                raise Give("undecided result")
            if k == "Ok":
                m, size = message_parts(I, payload(I, st, v))
                env.need(st, ("ge", Ls - s.size), "all bytes were there")
                env.eq(st, size, K(s.size), "size is the structure's size")
                fs = [x for x in (I.expand(m.ty, m.name) if isinstance(m, Sy) else m).f if isinstance(x, (SliceV, Ptr))]
                same_slice(env, st, natives.as_slice(I, st, fs[0]), ("R", "slice"), ZERO, K(s.size), "value is the structure's bytes")
            else:
                env.need(st, ("ge", K(s.size - 1) - Ls), "fails only when truncated")
                env.that(st, variant(I, st, payload(I, st, v)) == "Truncated", "short input is reported as truncated")
    return rule


def rule_write_struct(s):
    """the writer of a structure emits its own bytes, all of them, or fails"""
    def rule(env, outs):
        import rules_msg
        import rules_runtime as R
        I = env.I
        d = I.d0
        for st, v in outs:
            r = variant(I, st, v)
            if r is None:
                raise Give("undecided result")
            f_ = st.g.get("failed")
            if f_ is True:
                env.that(st, r == "Err", "every failure is reported", "", "a failure is reported as success")
            elif f_ == "maybe":
                env.that(st, True if r == "Err" else None, "every failure is reported")
            else:
                env.put("every failure is reported", "proved")
            if r == "Ok":
                R.short_write_ok(env, st, "success only after every byte was accepted")
                rules_msg.match_stream(env, st, rules_msg.stream(I, st), [("s", d._replace(len=K(s.size)))] if s.size else [], "writes exactly the structure's bytes")
            elif not f_:
                env.that(st, False, "a complete structure can be written")
    return rule


def rule_same_bytes(s):
    """constructors and reborrows refer to the storage they were given"""
    def rule(env, outs):
        I = env.I
        no_panic(env)
        p = I.root_args[0]
        for st, v in outs:
            want = I.d0 if I.d0 is not None else natives.as_slice(I, I.args0, p)
            xs = [x for x in (I.expand(v.ty, v.name) if isinstance(v, Sy) else v).f if isinstance(x, (SliceV, Ptr))]
            if len(xs) != 1:
                env.that(st, None, "keeps the bytes it was given")
                continue
            same_slice(env, st, natives.as_slice(I, st, xs[0]), want.root, want.off, want.len, "keeps the bytes it was given")
    return rule


def rule_stack(s):
    def rule(env, outs):
        I = env.I
        no_panic(env)
        for st, v in outs:
            xs = [x for x in v.f if isinstance(x, Arr)] if isinstance(v, Adt) else []
            if len(xs) != 1:
                env.that(st, None, "has the size of the structure")
                continue
            env.that(st, len(xs[0].f) == s.size, "has the size of the structure", "", "%d bytes, expected %d" % (len(xs[0].f), s.size))
    return rule


KEY = re.compile(r"^([A-Za-z_0-9]+)::(?:[a-z_0-9]+::)*([A-Za-z_0-9]+)::<(&mut \[u8\]|&\[u8\]|\[u8; \d+\])>::([a-z_0-9A-Z]+)@")


def struct_units(prog, proto):
    """[(prop set, label, key, rule, pre)]"""
    out = []
    for k in prog.roots:
        m = KEY.match(k)
        if not m or m.group(2) not in proto.structs:
            continue
        s = proto.structs[m.group(2)]
        mut = m.group(3).startswith("&mut")
        fn = m.group(4)
        by = {f.name: f for f in s.fields}
        lab = "%s.%s.%s" % (proto.name, s.name, fn)
        if fn.startswith("get_raw_") and fn[8:] in by and not mut:
            f = by[fn[8:]]
            out.append(("raw", f, lab, k, with_data(rule_get_raw(s, f)), pre_size(s.size)))
        elif fn.startswith("set_raw_") and fn[8:] in by and mut:
            f = by[fn[8:]]
            out.append(("raw", f, lab, k, with_data(rule_set(s, f, proto, False)), pre_size(s.size)))
        elif fn.startswith("get_") and fn[4:] in by and not mut:
            f = by[fn[4:]]
            if f.struct is not None or f.count is not None:
                out.append(("sub", f, lab, k, with_data(rule_sub(s, f)), pre_size(s.size)))
            else:
                out.append(("typed", f, lab, k, with_data(rule_get(s, f, proto)), pre_size(s.size)))
        elif fn.startswith("set_") and fn[4:] in by and mut:
            f = by[fn[4:]]
            if f.struct is None and f.count is None:
                out.append(("typed", f, lab, k, with_data(rule_set(s, f, proto, True)), pre_size(s.size)))
        elif fn.startswith("get_") and fn.endswith("_mut") and fn[4:-4] in by and mut:
            f = by[fn[4:-4]]
            out.append(("sub", f, lab, k, with_data(rule_sub(s, f)), pre_size(s.size)))
    for k in prog.roots:
        m = re.match(r"^<([A-Za-z_0-9:]+)<&\[u8\]> as bp3d_proto::message::FromSlice<'_>>::from_slice@", k)
        if m and m.group(1).split("::")[-1] in proto.structs:
            s = proto.structs[m.group(1).split("::")[-1]]
            out.append(("decode", None, "%s.%s.from_slice" % (proto.name, s.name), k, rule_from_slice_struct(s), None))
        m = re.match(r"^<([A-Za-z_0-9:]+)<&\[u8\]> as bp3d_proto::message::WriteTo>::write_to::<stub::OpaqueW>@", k)
        if m and m.group(1).split("::")[-1] in proto.structs:
            s = proto.structs[m.group(1).split("::")[-1]]
            out.append(("encode", None, "%s.%s.write_to" % (proto.name, s.name), k, with_data(rule_write_struct(s)), pre_size(s.size)))
        m = re.match(r"^<([A-Za-z_0-9:]+)<&\[u8\]> as std::convert::From<&\[u8\]>>::from@", k)
        if m and m.group(1).split("::")[-1] in proto.structs:
            s = proto.structs[m.group(1).split("::")[-1]]
            out.append(("make", None, "%s.%s.from" % (proto.name, s.name), k, with_none(rule_same_bytes(s)), pre_args))
        m = KEY.match(k)
        if m and m.group(2) in proto.structs:
            s = proto.structs[m.group(2)]
            lab = "%s.%s.%s" % (proto.name, s.name, m.group(4))
            if m.group(4) == "new" and m.group(3) == "&[u8]":
                out.append(("make", None, lab, k, with_none(rule_same_bytes(s)), pre_args))
            elif m.group(4) in ("to_ref", "to_mut"):
                out.append(("make", None, lab, k, with_data(rule_same_bytes(s)), pre_size(0)))
            elif m.group(4) == "new_on_stack":
                out.append(("make", None, lab, k, rule_stack(s), None))
    return out


# ---- arrays, through the generic accessors

GLUE = re.compile(r"^glue::(aget|aset|alen|aiter|aref|amut)_(.*)@")


def pre_index(s, f, has_i):
    def pre(I, st, args):
        pre_size(s.size)(I, st, args)
        if has_i and not st.add_ge(K(f.count - 1) - args[1]):
            raise Give("precondition")
    return pre


def item_of(I, st, d, f, end, i):
    n = f.bits // 8
    bits = ()
    bs = [byte(I, st, d, i.scale(n) + f.start + j) for j in range(n)]
    if end == "big":
        bs.reverse()
    for b in bs:
        bits += N.bits_of(st.norm(b), 8)
    return bits


def item_same(env, st, v, bits, f, name):
    I = env.I
    if f.kind == "boolean":
        raw = N.from_bits(bits, False)
        t = st.truth(v) if isinstance(v, tuple) and not isinstance(v, (Adt, Sy)) else None
        if t is not None:
            return env.need(st, ("not", ("eq", raw)) if t else ("eq", raw), name)
    x = as_number(I, st, v, f.bits)
    if x is None:
        return env.that(st, None, name, "", repr(v)[:80])
    env.eq(st, x, N.from_bits(bits, f.kind == "signed"), name)


def rule_array(s, f, op):
    def rule(env, outs):
        I = env.I
        no_panic(env)
        d = data0(I, I.args0)
        n = f.bits // 8
        for st, v in outs:
            sinks = [e[1] for e in st.ev if e[0] == "sink"]
            if op == "alen":
                env.eq(st, v, K(f.count), "len is the declared length")
            elif op == "aget":
                if len(sinks) != 1:
                    raise Give("sink")
                item_same(env, st, sinks[0], item_of(I, st, d, f, s.end, I.root_args[1]), f, "item i is slot i")
            elif op == "aset":
                src = [e[1] for e in st.ev if e[0] == "source"]
                if len(src) != 1:
                    raise Give("source")
                i = I.root_args[1]
                x = src[0]
                if f.kind == "boolean" and isinstance(x, tuple):
                    t = st.truth(x)
                    cs = [(st, t)] if t is not None else [(b, w) for w in (True, False) for b in st.copy().assume(x, w)]
                else:
                    cs = [(st, None)]
                for s1, t in cs:
                    y = K(1 if t else 0) if t is not None else as_number(I, s1, x, f.bits)
                    if y is None:
                        env.that(s1, None, "item i is written to slot i")
                        continue
                    env.eq(s1, N.from_bits(item_of(I, s1, d, f, s.end, i), False), N.from_bits(N.bits_of(s1.norm(y), max(64, f.bits))[:f.bits], False), "item i is written to slot i")
                for nm, ws in st.regs.items():
                    if ("R", nm) != d.root:
                        continue
                    for w in ws:
                        if w[0] == "havoc":
                            env.that(st, None, "no other item is written")
                            continue
                        ln = K(1) if w[0] == "e" else w[2]
                        lo = d.off + f.start + i.scale(n)
                        env.need(st, ("and", ("ge", w[1] - lo), ("ge", lo + n - w[1] - ln)), "no other item is written")
            elif op == "aiter":
                if len(sinks) != f.count + 1:
                    raise Give("sinks")
                for j, o in enumerate(sinks):
                    k = variant(I, st, o)
                    env.that(st, None if k is None else (k == "Some") == (j < f.count), "iteration yields every item once", "", "step %d yields %s" % (j, k))
                    if k == "Some" and j < f.count:
                        item_same(env, st, payload(I, st, o), item_of(I, st, d, f, s.end, K(j)), f, "iteration yields every item once")
            else:
                if len(sinks) != 1:
                    raise Give("sink")
                same_slice(env, st, natives.as_slice(I, st, sinks[0]), d.root, d.off + f.start, K(f.count * n), "refers to its own bytes")
    return rule


def array_units(prog, proto):
    out = []
    for k in prog.roots:
        m = GLUE.match(k)
        if not m:
            continue
        for s in proto.structs.values():
            for f in s.fields:
                if f.count is not None and m.group(2) == "%s_%s" % (s.name, f.name):
                    op = m.group(1)
                    out.append(("array", f, "%s.%s.%s.%s" % (proto.name, s.name, f.name, op[1:]), k, with_data(rule_array(s, f, op)), pre_index(s, f, op in ("aget", "aset"))))
    return out


# ---------------------------------------------------------------- the scalar codecs themselves

class Buf:
    """a buffer of a given number of bytes in one byte order"""

    def __init__(self, end, size):
        self.end, self.size, self.name = end, size, "buffer"


def rule_codec(s, f, op, sign):
    """s: the buffer, f: the field inside"""
    inner = rule_get_raw(s, f) if op == "read" else rule_set(s, f, None, False)

    def rule(env, outs):
        I = env.I
        I.d0 = natives.as_slice(I, I.args0, I.root_args[0])
        if op == "read" and sign:
            no_panic(env)
            for st, v in outs:
                b = field_bits(I, st, I.d0, f, s.end)
                env.eq(st, v, N.from_bits(tuple(b), True), "reads exactly its bits")
            return
        inner(env, outs)
    return rule


def codec_units(prog, prop):
    """[(label, key, rule, pre)]"""
    import re
    out = []
    for k in prog.roots:
        n = prog.fns[k]["p"].rsplit("::", 1)[-1]
        m = re.match(r"byte_(read|write)_(le|be)_([uif]\d+)_(\d)$", n)
        b = re.match(r"bit_(read|write)_(le|be)_(\d+)_(\d+)$", n)
        x = m if prop == "C11" else b if prop == "C10" else m or b
        if x is None:
            continue
        end = "little" if x.group(2) == "le" else "big"
        if x is m:
            size, bits, off = int(m.group(4)), 8 * int(m.group(4)), 0
        else:
            bits, off = int(b.group(3)), int(b.group(4))
            size = (bits + 7) // 8
        if prop == "C21" and size == 1:
            continue
        f = layout.Field("value", "float" if x is m and m.group(3)[0] == "f" else "unsigned")
        f.bits, f.off = bits, off
        # a codec is handed exactly the bytes of the field
        sign = x is m and m.group(3)[0] == "i"

        def pre(I, st, args, size=size):
            I.root_args = args
            d = natives.as_slice(I, st, args[0])
            if not st.add_eq(d.len - size):
                raise Give("precondition")
        out.append((n, k, rule_codec(Buf(end, size), f, x.group(1), sign), pre))
    return out
