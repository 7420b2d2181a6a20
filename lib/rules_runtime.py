"""Obligations on the runtime crate, stated on what each entry point does."""
import re

import numdom as N
from numdom import Lin, K, ZERO, var
from interp import SliceV, Ptr, Adt, Sy, Tup, Arr, Term, It, FALSE, Give, ISIZE_MAX, USIZE_MAX
from rules import *

WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}
S = ("R", "s")


def leaf(prog, key):
    return prog.fns[key]["p"].split("::", 1)[1]


def roots(prog):
    """name -> key of the harness entry points"""
    out = {}
    for k in prog.roots:
        n = leaf(prog, k)
        if "::" not in n and "{" not in n:
            out[n] = k
    return out


# ------------------------------------------------------------ what a decoder must do

def prefix(env, st, pfx):
    """(consumed, value) of the length prefix at the start of s, or None when
    this path did not get past it"""
    I = env.I
    if pfx == "any":
        for e in st.ev:
            if e[0] == "dec" and e[1] == "stub::Prefix":
                s = e[2]
                env.that(st, s.root == S, "prefix is read from the input")
                env.eq(st, s.off, ZERO, "prefix is read at the start")
                env.eq(st, s.len, var("s.len", 0, ISIZE_MAX), "prefix sees the whole input")
                nm = [n for n in N.C.named if n.startswith("val:stub::Prefix@")]
                return e[3], Lin(0, ((N.C.named[nm[0]], 1),))
        return None
    end, ty = pfx.split("_")
    n = WIDTH[ty]
    if st.truth(("ge", var("s.len", 0, ISIZE_MAX) - n)) is not True:
        return None
    return K(n), int_of_bytes(I, st, whole(), 0, n, end == "be")


def whole():
    return SliceV(S, (), ZERO, var("s.len", 0, ISIZE_MAX), None, "s")


def L():
    return var("s.len", 0, ISIZE_MAX)


def decoder(name):
    """spec(env, st, kind, payload) -> list of pieces describing the encoding
    that starts at s, or a reason the input is malformed"""
    m = re.match(r"dec_(value|optional|varchar|array|list|unsized)_(.*)$", name)
    if m:
        return m.group(1), m.group(2)
    return {"dec_nts": ("nts", ""), "dec_buffer": ("buffer", ""), "dec_ref_any": ("ref", "")}.get(name)


def outcome(env, st, v):
    I = env.I
    if variant(I, st, v) == "Ok":
        m, size = message_parts(I, payload(I, st, v))
        return "Ok", m, size
    if variant(I, st, v) == "Err":
        return "Err", payload(I, st, v), None
    raise Give("undecided result")


def has_ev(st, *kinds):
    return [e for e in st.ev if e[0] in kinds]


def truncated(env, st, err, name):
    """this Err means 'truncated'"""
    env.that(st, variant(env.I, st, err) == "Truncated" or None if variant(env.I, st, err) is None else variant(env.I, st, err) == "Truncated",
             name, "", "error is %s" % variant(env.I, st, err))


def rule_decode(kind, arg):
    """C02: consumption is exactly the encoding; truncation otherwise"""
    def rule(env, outs):
        I = env.I
        for st, v in outs:
            k, m, size = outcome(env, st, v)
            if k == "Ok":
                env.need(st, ("ge", L() - size), "size never exceeds the input")
            if kind == "value":
                end, ty = arg.split("_")
                n = WIDTH[ty]
                if k == "Ok":
                    env.eq(st, size, K(n), "size is the extent")
                    env.need(st, ("ge", L() - n), "all bytes were there")
                else:
                    env.need(st, ("ge", K(n - 1) - L()), "fails only when truncated")
                    truncated(env, st, m, "short input is reported as truncated")
            elif kind == "nts":
                if k == "Ok":
                    same_slice(env, st, m, S, ZERO, size - 1, "value is the bytes before the terminator")
                    env.eq(st, byte(I, st, whole(), size - 1), ZERO, "the byte at size-1 is the terminator")
                else:
                    nm = variant(I, st, m)
                    if nm == "InvalidUtf8":
                        env.that(st, bool(has_ev(st, "utf8err")), "invalid UTF-8 only when the check failed")
                    else:
                        truncated(env, st, m, "missing terminator is reported as truncated")
                nts_scan(env, st, k, m, size)
            elif kind == "buffer":
                if k == "Ok":
                    same_slice(env, st, m, S, ZERO, L(), "value is the whole input")
                    env.eq(st, size, L(), "size is the extent")
                else:
                    env.never(st, "a payload always decodes")
            elif kind == "ref":
                ds = has_ev(st, "dec", "decerr")
                env.that(st, len(ds) == 1 and ds[0][1] == "stub::Opq", "decodes exactly one element")
                if k == "Ok":
                    env.eq(st, size, ds[0][3], "size is the extent")
            elif kind == "optional":
                rule_optional(env, st, k, m, size, arg)
            elif kind in ("varchar", "array", "list", "unsized"):
                rule_prefixed(env, st, k, m, size, kind, arg)
        if kind == "list":
            list_loop(env, outs, arg)
    return rule


def nts_scan(env, st, k, m, size):
    """no terminator before the reported one (all bytes of the value are non-zero)"""
    I = env.I
    if not st.loopy:
        if k == "Ok":
            n = st.norm(size - 1)
            if n.is_const():
                for i in range(n.c):
                    env.need(st, ("not", ("eq", byte(I, st, whole(), K(i)))), "the value contains no terminator")
            else:
                env.that(st, None, "the value contains no terminator")
        elif variant(I, st, m) == "Truncated":
            n = st.norm(L())
            lim = None
            for i in range(12):
                if st.truth(("eq", L() - i)) is True:
                    lim = i
            if lim is None:
                env.that(st, None, "truncated only when there is no terminator")
            else:
                for i in range(lim):
                    env.need(st, ("not", ("eq", byte(I, st, whole(), K(i)))), "truncated only when there is no terminator")
                env.that(st, True, "truncated only when there is no terminator")
        return
    # generalised scan: every way round has looked at a non-zero byte, one further each time
    lp = [l for l in I.loops_seen if not l["quiet"]]
    ok = len(lp) == 1 and bool(lp[0]["backs"])
    why = "%d scanning loops" % len(lp)
    if ok:
        l = lp[0]
        for b, _ in l["backs"]:
            good = False
            for key, x in l["fresh"].items():
                if not isinstance(x, Lin):
                    continue
                x0 = l["init"].get(key)
                x1 = get_leaf(b, key)
                if isinstance(x1, Lin) and isinstance(x0, Lin) and l["st0"].truth(("eq", x0)) is True and b.truth(("eq", x1 - x - 1)) is True \
                        and b.truth(("not", ("eq", byte(env.I, b, whole(), x)))) is True:
                    # position x was looked at; the result position must be the same leaf
                    if k == "Ok":
                        if env.loop_false(st, l, ("eq", size - 1 - x), "the byte at size-1 is the terminator", "", "the terminator was found elsewhere"):
                            return
                        good = good or st.truth(("eq", size - 1 - x)) is True
                    else:
                        end = st.truth(("eq", x - L())) is True or bool(has_ev(st, "utf8err"))
                        # given up before the end: the next byte may well be the terminator
                        for q in () if end else st.copy().assume(("ge", L() - x - 1), True):
                            for q2 in q.assume(("eq", byte(env.I, q, whole(), x)), True):
                                if env.loop_false(q2, l, ("c", False), "truncated only when there is no terminator", "", "bytes at the end are not looked at"):
                                    return
                        good = good or end
            ok = ok and good
        why = "scan position not identified"
    env.that(st, True if ok else None, "the value contains no terminator" if k == "Ok" else "truncated only when there is no terminator", "", why)


def get_leaf(st, key):
    import widen
    return widen.get(st.mem.get(key[0]), key[1])


def rule_optional(env, st, k, m, size, arg):
    I = env.I
    has = st.truth(("ge", L() - 1))
    if has is not True:
        if k == "Ok":
            return env.never(st, "empty input has no presence byte")
        env.need(st, ("ge", -L()), "fails only when truncated")
        return truncated(env, st, m, "short input is reported as truncated")
    b = byte(I, st, whole(), K(0))
    zero, one = st.truth(("eq", b)), st.truth(("eq", b - 1))
    if arg in ("any", "codec", "offsets"):
        ds = has_ev(st, "dec", "decerr")
        want = "stub::Codec" if arg == "codec" else "stub::Opq"
        if k == "Ok" and isinstance(m, Tup):
            m = m.f[0]
        if ds:
            env.that(st, len(ds) == 1 and ds[0][1] == want, "decodes exactly the value")
            env.need(st, ("and", ("eq", ds[0][2].off - 1), ("eq", ds[0][2].len - L() + 1)), "value starts after the presence byte")
            env.need(st, ("not", ("eq", b)), "absent values are not decoded")
        if k == "Err":
            env.that(st, bool(has_ev(st, "decerr")), "fails only when the value fails")
        elif variant(I, st, m) == "Some":
            env.that(st, bool(ds), "present value was decoded")
            if ds:
                env.eq(st, size, ds[0][3] + 1, "size is the extent")
                x = payload(I, st, m)
                env.that(st, isinstance(x, Sy) and x.name.startswith("val:") or (isinstance(x, Adt) and not x.f), "value is the decoded one", "", repr(x))
        else:
            env.eq(st, size, K(1), "size is the extent")
            env.need(st, ("not", ("eq", b - 1)), "a present value is not skipped")
    else:
        end, ty = arg.split("_")
        n = WIDTH[ty]
        if k == "Err":
            env.need(st, ("and", ("not", ("eq", b)), ("ge", K(n) - L())), "fails only when truncated")
            truncated(env, st, m, "short input is reported as truncated")
        elif variant(I, st, m) == "Some":
            env.need(st, ("and", ("not", ("eq", b)), ("ge", L() - n - 1)), "present value was there")
            env.eq(st, size, K(n + 1), "size is the extent")
            value_eq(env, st, payload(I, st, m), ty, 1, end == "be", "value is the bytes in the declared order")
        else:
            env.eq(st, size, K(1), "size is the extent")
            env.need(st, ("not", ("eq", b - 1)), "a present value is not skipped")


def value_eq(env, st, got, ty, off, big, name):
    n = WIDTH[ty]
    want = int_of_bytes(env.I, st, whole(), off, n, big, ty[0] == "i")
    if ty[0] == "f":
        got = env.I.f_bits(got, 8 * n)
    env.eq(st, got, want, name)


def rule_prefixed(env, st, k, m, size, kind, arg):
    I = env.I
    p = prefix(env, st, arg)
    if p is None:
        if k == "Ok":
            return env.never(st, "decodes the prefix first")
        if arg == "any":
            return env.that(st, bool(has_ev(st, "decerr")), "fails before the prefix only when the prefix fails")
        env.need(st, ("ge", K(WIDTH[arg.split("_")[1]] - 1) - L()), "fails before the prefix only when the prefix fails")
        return truncated(env, st, m, "short input is reported as truncated")
    psz, val = p
    if kind == "varchar":
        if k == "Ok":
            same_slice(env, st, m, S, psz, val, "value is the counted bytes after the prefix")
            env.eq(st, size, psz + val, "size is the extent")
        elif has_ev(st, "utf8err"):
            s = has_ev(st, "utf8err")[0][1]
            same_slice(env, st, s, S, psz, val, "UTF-8 is checked on the counted bytes")
            env.that(st, variant(I, st, m) == "InvalidUtf8", "invalid UTF-8 is reported as such")
        else:
            env.need(st, ("ge", psz + val - L() - 1), "fails only when truncated")
            truncated(env, st, m, "short input is reported as truncated")
    elif kind == "array":
        SIZE = var("SIZE", 0, 1 << 60)
        total = N.mul(val, SIZE)
        if k == "Ok":
            d, n = container_parts(I, m)
            same_slice(env, st, d, S, psz, total, "storage is the counted items after the prefix")
            env.eq(st, n, val, "count is the prefix value")
            env.eq(st, size, psz + total, "size is the extent")
        else:
            env.need(st, ("ge", psz + total - L() - 1), "fails only when truncated")
            truncated(env, st, m, "short input is reported as truncated")
    elif kind == "unsized":
        if k == "Ok":
            d, n = container_parts(I, m)
            same_slice(env, st, d, S, psz, L() - psz, "storage is everything after the prefix")
            env.eq(st, n, val, "count is the prefix value")
            env.eq(st, size, L(), "size is the extent")
        else:
            env.never(st, "fails only when the prefix fails")
    elif kind == "list":
        items = [e for e in st.ev if e[0] in ("dec", "decerr") and e[1] == "stub::Opq"]
        if k == "Ok":
            d, n = container_parts(I, m)
            env.eq(st, n, val, "count is the prefix value")
            env.need(st, ("ge", d.off + d.len - psz), "storage starts after the prefix") if isinstance(d, SliceV) and d.root == S else env.never(st, "storage starts after the prefix")
            env.eq(st, d.off, psz, "storage starts after the prefix")
            env.eq(st, size, d.off + d.len, "size is the extent")
        elif not has_ev(st, "decerr"):
            env.never(st, "fails only when an item fails")
        if not st.loopy:
            pos = psz
            for e in items:
                env.need(st, ("and", ("eq", e[2].off - pos), ("eq", e[2].off + e[2].len - L())), "every item follows the previous one")
                if e[0] == "dec":
                    pos = pos + e[3]
            if k == "Ok":
                env.eq(st, val, K(len(items)), "as many items as counted")
                env.eq(st, size, pos, "size is the sum of the items")


def list_loop(env, outs, arg):
    """generalised loop of the list decoder"""
    I = env.I
    lp = [l for l in I.loops_seen if not l["quiet"]]
    if env.mode == "exact":
        return
    name = "every item follows the previous one"
    if not lp:
        return
    for l in lp:
        if not l["backs"]:
            continue
        for b, ev in l["backs"]:
            items = [e for e in ev if e[0] == "dec" and e[1] == "stub::Opq"]
            if len(items) != 1 or any(e[0] == "decerr" for e in ev):
                env.that(b, None, name, "", "%d items in one round" % len(items))
                continue
            s, size = items[0][2], items[0][3]
            off = s.off
            # offset of the next round, from the leaves it depends on
            pairs = {x.t[0][0]: (get_leaf(b, key), l["init"].get(key)) for key, x in l["fresh"].items() if isinstance(x, Lin) and x.single()}
            nxt, ini = off, off
            for sym, _ in off.t:
                if sym in pairs:
                    if not isinstance(pairs[sym][0], Lin) or not isinstance(pairs[sym][1], Lin):
                        nxt = None
                        break
                    k = dict(off.t)[sym]
                    nxt = nxt + (pairs[sym][0] - N.sl(sym)).scale(k)
                    ini = ini + (pairs[sym][1] - N.sl(sym)).scale(k)
            ok = nxt is not None and b.truth(("eq", nxt - off - size)) is True and b.truth(("eq", s.off + s.len - L())) is True
            p = prefix(env, b, arg)
            ok = ok and p is not None and b.truth(("eq", ini - p[0])) is True
            # one more item is counted
            cnt = [key for key, x in l["fresh"].items() if isinstance(x, Lin) and isinstance(get_leaf(b, key), Lin)
                   and b.truth(("eq", get_leaf(b, key) - x - 1)) is True]
            cntd = [key for key, x in l["fresh"].items() if isinstance(x, Lin) and isinstance(get_leaf(b, key), Lin)
                    and b.truth(("eq", x - get_leaf(b, key) - 1)) is True]
            env.that(b, True if ok and (cnt or cntd) else None, name, "", "loop not recognised")
            for st, v in outs:
                if not st.loopy or variant(I, st, v) != "Ok" or ("loop", l["id"]) not in st.ev:
                    continue
                m, size_ = message_parts(I, payload(I, st, v))
                good = False
                for keys, sg in ((cnt, 1), (cntd, -1)):
                    for key in keys:
                        x, x0 = l["fresh"][key], l["init"][key]
                        if st.truth(("eq", (x - x0).scale(sg) - p[1])) is True:
                            good = True
                if not good and any(env.loop_false(st, l, ("eq", (l["fresh"][key] - l["init"][key]).scale(sg) - p[1]), "as many items as counted", "", "the loop ends after another number of rounds")
                                    for keys, sg in ((cnt, 1), (cntd, -1)) for key in keys):
                    continue
                env.that(st, True if good else None, "as many items as counted", "", "count at exit not recognised")
                # size: what the items of all rounds add up to
                env.that(st, True if st.truth(("eq", size_ - off)) is True else None, "size is the sum of the items", "", "sum not recognised")


# ------------------------------------------------------------ C03 / C05 / C06: writers

def writer_spec(name):
    m = re.match(r"enc_(value|optional|varchar|array|list)_(.*)$", name)
    if m:
        return m.group(1), m.group(2)
    return {"enc_nts": ("nts", ""), "enc_buffer": ("buffer", ""), "enc_ref_any": ("ref", "")}.get(name)


def prefix_pieces(env, st, arg, n):
    if arg == "any":
        return [("e", "stub::Prefix", n)]
    end, ty = arg.split("_")
    b = N.bits_of(st.norm(n), 64)
    bs = [N.from_bits(b[8 * i:8 * i + 8], False) for i in range(WIDTH[ty])]
    if end == "be":
        bs.reverse()
    return [("b", x) for x in bs]


def fits(arg, n):
    if arg == "any":
        return ("c", True)
    return ("ge", K((1 << (8 * WIDTH[arg.split("_")[1]])) - 1) - n)


def arg_val(env, nm):
    """value of the writer's input argument, from its own pointee"""
    return None


def rule_encode(kind, arg):
    """the bytes of a successful write"""
    def rule(env, outs):
        I = env.I
        fn = None
        for st, v in outs:
            r = variant(I, st, v)
            if r is None:
                raise Give("undecided result")
            if r != "Ok":
                continue
            short_write_ok(env, st)
            exp = expected(env, st, kind, arg)
            if exp is None:
                env.never(st, "unwritable value is refused")
                continue
            match_stream(env, st, stream(I, st), exp, "writes exactly the encoding")
    return rule


def vlen():
    return var("v.len", 0, ISIZE_MAX)


def vroot():
    return SliceV(("R", "v"), (), ZERO, vlen(), None, "s")


def container_arg(env, st):
    """(storage, count) of the container argument v"""
    for r, x in list(st.mem.items()):
        if r[0] == "A" and r[1] == "v":
            return container_parts(env.I, x)
    raise Give("argument not found")


def expected(env, st, kind, arg):
    I = env.I
    if kind == "value":
        end, ty = arg.split("_")
        x = None
        for r, y in st.mem.items():
            if r[0] == "A" and r[1] == "v":
                x = y
        if ty[0] == "f":
            x = I.f_bits(x, 8 * WIDTH[ty])
        b = N.bits_of(st.norm(I.num(st, x)), 8 * WIDTH[ty])
        bs = [N.from_bits(b[i:i + 8], False) for i in range(0, len(b), 8)]
        if end == "be":
            bs.reverse()
        return [("b", q) for q in bs]
    if kind == "buffer":
        return [("s", vroot())]
    if kind == "nts":
        return [("s", vroot()), ("b", ZERO)]
    if kind == "ref":
        for e in st.ev:
            if e[0] == "enc" and e[1] == "stub::Opq":
                return [("e", "stub::Opq", e[2])]
        return [("e", "stub::Opq", None)]
    if kind == "varchar":
        return prefix_pieces(env, st, arg, vlen()) + [("s", vroot())]
    if kind in ("array", "list"):
        d, n = container_arg(env, st)
        return prefix_pieces(env, st, arg, n) + [("s", d)]
    if kind == "optional":
        x = None
        for r, y in st.mem.items():
            if r[0] == "A" and r[1] == "v":
                x = y
        k = variant(I, st, x)
        if k == "None":
            return [("b", ZERO)]
        if k is None:
            raise Give("undecided option")
        x = payload(I, st, x)
        if arg in ("any", "codec"):
            return [("b", K(1)), ("e", "stub::Opq" if arg == "any" else "stub::Codec", x)]
        end, ty = arg.split("_")
        if ty[0] == "f":
            x = I.f_bits(x, 8 * WIDTH[ty])
        b = N.bits_of(st.norm(I.num(st, x)), 8 * WIDTH[ty])
        bs = [N.from_bits(b[i:i + 8], False) for i in range(0, len(b), 8)]
        if end == "be":
            bs.reverse()
        return [("b", K(1))] + [("b", q) for q in bs]
    raise Give("writer")


def rule_prefix_ok(kind, arg):
    """C05: prefix == count, or the write fails; and nothing else is refused"""
    def rule(env, outs):
        I = env.I
        for st, v in outs:
            r = variant(I, st, v)
            if r is None:
                raise Give("undecided result")
            if kind == "nts":
                has = [x for k, x in st.facts.items() if isinstance(k, tuple) and k and k[0] == "o" and isinstance(k[1], Term) and k[1].op == "contains"]
                if r == "Ok":
                    if has:
                        env.that(st, not any(has), "a terminated string with a terminator inside is refused")
                    elif env.mode == "exact" and not st.loopy:
                        t = st.copy()
                        if t.add_ge(vlen() - 1) and t.add_eq(byte(I, t, vroot(), K(0))):
                            env.never(t, "a terminated string with a terminator inside is refused", "", "a string starting with NUL is written")
                    else:
                        env.that(st, None, "a terminated string with a terminator inside is refused")
                elif not st.g.get("failed"):
                    env.that(st, True if any(has) else None if not has else False, "only unwritable values are refused")
                continue
            n = vlen() if kind == "varchar" else container_arg(env, st)[1]
            if r == "Ok":
                env.need(st, fits(arg, n), "a length that does not fit the prefix is refused")
                got = stream(I, st)
                if arg == "any":
                    e = [p for p in got if p[0] == "e"]
                    env.that(st, bool(e) and e[0][1] == "stub::Prefix" and got[0][0] == "e", "the prefix comes first")
                    if e and isinstance(e[0][2], Lin):
                        env.eq(st, e[0][2], n, "the prefix is the count")
                else:
                    end, ty = arg.split("_")
                    w = WIDTH[ty]
                    bs = []
                    for p in got:
                        if p[0] != "b":
                            break
                        bs.append(p[1])
                    if len(bs) < w:
                        env.never(st, "the prefix is the count", "", "only %d prefix bytes" % len(bs))
                        continue
                    bs = bs[:w]
                    if end == "be":
                        bs.reverse()
                    bits = ()
                    for b in bs:
                        bits += N.bits_of(st.norm(b), 8)
                    env.eq(st, N.from_bits(bits, False), n, "the prefix is the count")
                after = [p for p in norm_stream(I, st, got) if p[0] == "s"]
                total = sum((p[1].len for p in after), ZERO)
                want = vlen() if kind == "varchar" else container_arg(env, st)[0].len
                nb = len([p for p in got if p[0] == "b"]) - (0 if arg == "any" else WIDTH[arg.split("_")[1]])
                if not any(p[0] in ("loop", "p") for p in got):
                    env.eq(st, total + nb, want, "everything counted follows")
            elif not st.g.get("failed"):
                env.need(st, ("not", fits(arg, n)), "only lengths that do not fit are refused")
    return rule


def rule_errors(env, outs):
    """C06: failure of the output or of a nested element means failure"""
    I = env.I
    for st, v in outs:
        f = st.g.get("failed")
        r = v
        bad = None
        if is_result(I, r):
            bad = variant(I, st, r) == "Err" if variant(I, st, r) else None
        elif isinstance(r, (Adt, Sy)) and I.T(r.ty)["p"].endswith("Option"):
            k = variant(I, st, r)
            if k == "None":
                bad = False
            elif k == "Some":
                x = payload(I, st, r)
                if is_result(I, x):
                    bad = variant(I, st, x) == "Err"
        elif isinstance(r, Tup) and all(isinstance(x, (Adt, Sy)) for x in r.f):
            bad = any(variant(I, st, x) == "Some" and is_result(I, payload(I, st, x)) and variant(I, st, payload(I, st, x)) == "Err" for x in r.f)
        if f is True:
            where = [e for e in st.ev if e[0] in ("werr", "encerr", "decerr")]
            env.that(st, bad, "every failure is reported", "", "failure of %r reported as success" % (where[:1],))
        elif f == "maybe":
            env.that(st, True if bad else None, "every failure is reported")
        else:
            env.that(st, True, "every failure is reported")
        if bad is False:
            short_write_ok(env, st, "success only after every byte was accepted")


def rule_count_items(many):
    def rule(env, outs):
        I = env.I
        rule_errors(env, outs)
        for st, v in outs:
            x = None
            for r, y in st.mem.items():
                if r[0] == "A" and r[1] == "l":
                    x = y
            d, n = container_parts(I, x)
            n0 = var("l*.1" if not many == "w" else "l*.0.1", 0, USIZE_MAX)
            for c in ("l*.1", "l*.0.1"):
                if c in N.C.named:
                    n0 = N.sl(N.C.named[c])
            encs = [e for e in st.ev if e[0] == "enc"]
            ok = variant(I, st, v) == "Ok"
            if not st.loopy:
                env.eq(st, n - n0, K(len(encs)), "every written item is counted, no other")
            else:
                env.that(st, True, "every written item is counted, no other")
            if ok and not many:
                env.that(st, len(encs) == 1, "writes exactly the given item")
            if ok and many:
                given = I.root_args[1]
                given = given.len if isinstance(given, SliceV) else None
                name = "every given item is written"
                if given is None:
                    env.that(st, None, name)
                elif not st.loopy:
                    env.eq(st, K(len(encs)), given, name)
                else:
                    lp = [l for l in I.loops_seen if not l["quiet"]]
                    # a position which starts at the first item, goes on by one each round, and is at the end at the end
                    at = []
                    for key, x in lp[0]["fresh"].items() if len(lp) == 1 and lp[0]["backs"] else ():
                        x0, ends = lp[0]["init"].get(key), [get_leaf(b, key) for b, _ in lp[0]["backs"]]
                        if isinstance(x, Lin) and isinstance(x0, Lin) and lp[0]["st0"].truth(("eq", x0)) is True and \
                                all(isinstance(e, Lin) and b.truth(("eq", e - x - 1)) is True for (b, _), e in zip(lp[0]["backs"], ends)):
                            at.append(x)
                    whole_ = any(st.truth(("eq", x - given)) is True for x in at)
                    if not whole_ and at:
                        for z in st.copy().assume(("ge", given - at[0] - 1), True):
                            if env.loop_false(z, lp[0], FALSE, name, "", "items are left out"):
                                return
                    env.that(st, True if whole_ else None, name)
        for l in I.loops_seen:
            if l["quiet"]:
                continue
            for b, ev in l["backs"]:
                encs = [e for e in ev if e[0] == "enc"]
                good = None
                for key, x in l["fresh"].items():
                    x1 = get_leaf(b, key)
                    if key[0][0] != "A" or key[0][1] != "l":
                        continue
                    if isinstance(x, (Adt, Sy)):
                        x, x1 = container_parts(I, x)[1], container_parts(I, x1)[1]
                    if isinstance(x, Lin) and isinstance(x1, Lin):
                        good = True if b.truth(("eq", x1 - x - len(encs))) is True else None
                env.that(b, good if len(encs) == 1 else None, "every round writes and counts one item")
    return rule


# ------------------------------------------------------------ C01

def rule_no_panic(name):
    def rule(env, outs):
        I = env.I
        for p in I.panics:
            env.that(p.st, False, "no panic", p.span, "%s in %s" % (p.kind, p.fn))
        env.put("no panic", "proved")
        loops_end(env)
        if re.search(r"_next$", name):
            progress(env, outs)
    return rule


def rule_helper(name):
    """the small accessors through which sizes, values and ranges are handed on"""
    def named(I, st, v):
        if isinstance(v, Ptr):
            v = I.load(st, v.root, v.path)
        if isinstance(v, Sy):
            v = I.expand(v.ty, v.name)
        return dict((f[0], x) for f, x in zip(I.T(v.ty)["v"][v.var]["f"], v.f))

    def rule(env, outs):
        I = env.I
        args = I.root_args
        for st, v in outs:
            if name == "offset_size":
                r = named(I, I.args0, args[0])
                env.eq(st, v, r["end"] - r["start"], "the size of a range is its length")
            elif name == "message_new":
                m, n = message_parts(I, v)
                env.eq(st, n, args[0], "keeps the size")
                env.that(st, m == args[1], "keeps the value")
            elif name == "message_size":
                env.eq(st, v, message_parts(I, I.load(I.args0, args[0].root, args[0].path))[1], "keeps the size")
            elif name == "message_into_inner":
                env.that(st, v == message_parts(I, args[0])[0], "keeps the value")
            elif name == "message_map":
                m, n = message_parts(I, args[0])
                m1, n1 = message_parts(I, v)
                env.eq(st, n1, n, "keeps the size")
                env.that(st, isinstance(m1, Tup) and m1.f[0] == m, "keeps the value")
            elif name == "fixed_size":
                env.eq(st, v, var("SIZE", 0, 1 << 60), "the size is the fixed size")
            elif name == "to_single":
                t = I.load(I.args0, args[0].root, args[0].path) if isinstance(args[0], Ptr) else args[0]
                x, y = t.f if isinstance(t, Tup) else (None, None)
                k, kx, ky = variant(I, st, v), variant(I, st, x), variant(I, st, y)
                if k == "Some":
                    env.that(st, None if kx is None or ky is None else kx == "Some" and ky == "Some", "a value and its ranges are both there")
                    p = payload(I, st, v)
                    env.that(st, isinstance(p, Tup) and p.f[0] == payload(I, st, x) and p.f[1] == payload(I, st, y), "the value and its ranges are kept")
                else:
                    env.that(st, kx == "None" or ky == "None", "nothing only when one is missing")
    return rule


HELPERS = {"offset_size": "C17", "to_single": "C17", "message_new": "C02", "message_size": "C02", "message_into_inner": "C02", "message_map": "C02", "fixed_size": "C07"}


def loops_end(env):
    for l in env.I.loops_seen:
        if l["quiet"]:
            continue
        if l["ranking"] is not None or not l["backs"]:
            env.put("every loop ends", "proved")
            continue
        for b, ev in l["backs"]:
            stuck = all(get_leaf(b, k) == x for k, x in l["fresh"].items())
            env.that(b, False if stuck else None, "every loop ends", l["fn"], "no decreasing measure found")


def num_leaves(I, v, path=()):
    import natives
    if isinstance(v, Sy):
        t = I.T(v.ty)
        if t["k"] == "adt" and not t.get("enum"):
            try:
                if "slice" not in t["p"]:
                    raise Give("")
                v = natives.iter_of(I, None, v)
            except Give:
                v = I.expand(v.ty, v.name)
    if isinstance(v, Lin):
        yield path, v
    elif isinstance(v, SliceV):
        yield path + ("len",), v.len
    elif isinstance(v, (Adt, Tup, Arr)):
        for i, x in enumerate(v.f):
            yield from num_leaves(I, x, path + (i,))
    elif isinstance(v, It):
        for i, x in enumerate(v.parts):
            yield from num_leaves(I, x, path + (i,))


def arg_root(st, nm):
    for r, y in st.mem.items():
        if r[0] == "A" and r[1] == nm:
            return r, y
    raise Give("argument not found")


def progress(env, outs):
    """a yielded item brings the end of the iteration nearer"""
    I = env.I
    before = {}
    for r, y in I.args0.mem.items():
        if r[0] == "A" and r[1] == "l":
            before = dict(num_leaves(I, y))
    for st, v in outs:
        if variant(I, st, v) != "Some":
            continue
        _, y = arg_root(st, "l")
        after = dict(num_leaves(I, y))
        ok = False
        same = True
        for k, x in after.items():
            x0 = before.get(k)
            if x0 is None:
                x0 = x
            if st.truth(("eq", x - x0)) is not True:
                same = False
            if st.truth(("and", ("ge", x0 - x - 1), ("ge", x))) is True:
                ok = True
            if st.truth(("eq", x - x0 - 1)) is True:
                # an index below a bound that does not move
                for k2, b in after.items():
                    if k2 != k and st.truth(("and", ("eq", b - before.get(k2, b)), ("ge", b - x))) is True:
                        ok = True
        env.that(st, True if ok else False if same else None, "iteration comes nearer to its end with every item", "", "nothing decreases")


# ------------------------------------------------------------ C07

def storage_ok(I, st, v):
    """the invariant of a decoded or validated array"""
    d, n = container_parts(I, v)
    return ("eq", d.len - N.mul(n, var("SIZE", 0, 1 << 60)))


def pre_container(name, case=None):
    if re.match(r"(array|wrapper)_(get|iter|to_ref|len)", name) and not name.endswith("next"):
        def pre(I, st, args):
            p = args[0]
            v = I.load(st, p.root, p.path)
            c = storage_ok(I, st, v)
            SIZE = var("SIZE", 0, 1 << 60)
            d, n = container_parts(I, v)
            ok = st.add_eq(c[1])
            if case is not None and case < 4:
                ok = ok and st.add_eq(n - case) and st.add_eq(d.len - SIZE.scale(case))
            elif case is not None:
                ok = ok and st.add_ge(n - 4) and st.add_ge(d.len - SIZE.scale(4))
            if not ok:
                raise Give("precondition")
            if len(args) > 1 and not st.add_ge(container_parts(I, v)[1] - args[1] - 1):
                raise Give("precondition")
        return pre
    return None


def slot(env, st, got, d, i, name):
    """got is the item at slot i of storage d"""
    I = env.I
    if isinstance(got, (Adt, Tup)) and len(got.f) == 1:
        got = got.f[0]
    SIZE = var("SIZE", 0, 1 << 60)
    if isinstance(got, Ptr):
        got = natives_slice(I, st, got)
    if isinstance(got, SliceV) and got.root != d.root:
        return env.need(st, ("and", ("eq", got.len), ("eq", SIZE)), name)
    if not isinstance(got, SliceV):
        return env.that(st, False, name, "", "item is %r" % (got,))
    i = i if isinstance(i, Lin) else K(i)
    env.need(st, ("and", ("eq", got.off - d.off - N.mul(i, SIZE)), ("eq", got.len - SIZE)), name)


def natives_slice(I, st, p):
    import natives
    return natives.as_slice(I, st, p)


def rule_container(name):
    m = re.match(r"(array|list|wrapper)_(.*)$", name)
    if not m or m.group(2).startswith("write"):
        return None
    kind, op = m.groups()

    def start(env):
        I = env.I
        for r, y in I.args0.mem.items():
            if r[0] == "A" and r[1] == "l":
                return container_parts(I, y)
        raise Give("argument not found")

    def rule(env, outs):
        I = env.I
        for st, v in outs:
            if op in ("from_parts", "from_raw_parts"):
                b = SliceV(("R", "b"), (), ZERO, var("b.len", 0, ISIZE_MAX), None, "s")
                n = var("len", 0, USIZE_MAX)
                want = ("eq", b.len - N.mul(n, var("SIZE", 0, 1 << 60)))
                if op == "from_parts":
                    k = variant(I, st, v)
                    if k is None:
                        raise Give("undecided")
                    env.need(st, want if k == "Some" else ("not", want), "validated exactly when storage is count * item size")
                    if k != "Some":
                        continue
                    v = payload(I, st, v)
                d, c = container_parts(I, v)
                same_slice(env, st, d, b.root, b.off, b.len, "keeps the given storage")
                env.eq(st, c, n, "keeps the given count")
            elif op == "new":
                d, c = container_parts(I, v)
                env.eq(st, c, ZERO, "a new container is empty")
            elif op == "len":
                env.eq(st, v, start(env)[1], "len is the count")
            elif op == "to_ref":
                d0, n0 = start(env)
                d, c = container_parts(I, v)
                same_slice(env, st, d, d0.root, d0.off, d0.len, "same storage")
                env.eq(st, c, n0, "same count")
            elif op in ("get", "get_mut"):
                slot(env, st, v, start(env)[0], var("i", 0, USIZE_MAX), "element i is slot i")
            elif op in ("iter3", "iter_mut3") and kind != "list":
                d0, n0 = start(env)
                for i, x in enumerate(v.f):
                    k = variant(I, st, x)
                    if k is None:
                        raise Give("undecided")
                    more = ("ge", n0 - i - 1)
                    env.need(st, more if k == "Some" else ("not", more), "yields exactly the counted items")
                    if k == "Some":
                        slot(env, st, payload(I, st, x), d0, i, "the i-th item is slot i")
            elif op in ("iter3", "iter_offsets3") and kind == "list":
                d0, n0 = start(env)
                pos, dead, left = d0.off, False, d0.len
                evs = [e for e in st.ev if e[0] in ("dec", "decerr")]
                j = 0
                for i, x in enumerate(v.f):
                    k = variant(I, st, x)
                    if k is None:
                        raise Give("undecided")
                    if dead:
                        env.that(st, k == "None", "nothing is yielded after a malformed item")
                        continue
                    env.need(st, ("ge", n0 - i - 1) if k == "Some" else ("not", ("ge", n0 - i - 1)), "yields exactly the counted items")
                    if k != "Some":
                        dead = True
                        continue
                    r = variant(I, st, payload(I, st, x))
                    if j >= len(evs):
                        env.never(st, "every item is decoded")
                        break
                    e = evs[j]
                    j += 1
                    env.need(st, ("and", ("eq", e[2].off - pos), ("eq", e[2].len - left)), "item i follows item i-1") if e[2].root == d0.root else env.never(st, "item i follows item i-1")
                    env.that(st, (r == "Err") == (e[0] == "decerr"), "a malformed item is reported")
                    if e[0] == "decerr":
                        dead = True
                    else:
                        pos, left = pos + e[3], left - e[3]
                        if op == "iter3":
                            val = payload(I, st, payload(I, st, x))
                            env.that(st, isinstance(val, Sy) and val.name.startswith("val:") or isinstance(val, Adt), "the item is the decoded one")
                if j < len(evs):
                    env.never(st, "no item is decoded without being yielded")
            else:
                env.put("analysed", "proved")
    return rule


# ------------------------------------------------------------ C09

def written_length(I, st, pcs):
    n = ZERO
    for p in pcs:
        if p[0] == "b":
            n = n + 1
        elif p[0] == "s":
            n = n + p[1].len
        elif p[0] == "p":
            n = n + p[3]
        elif p[0] == "e":
            n = n + (p[3] if len(p) > 3 else var("enclen:%s(%r)" % (p[1], p[2]), 0, ISIZE_MAX))
        else:
            return None
    return n


def rule_measure(wkey):
    """measuring = writing to an output that accepts everything"""
    def rule(env, outs):
        I = env.I
        for st, v in outs:
            k = variant(I, st, v)
            if k is None:
                raise Give("undecided")
            if st.g.get("writer_failed"):
                env.never(st, "measuring accepts every byte")
                continue
            w = st.copy()
            for x in ("failed", "codec_failed"):
                w.g.pop(x, None)
            n_ev = len(w.ev)
            wt = I.T(I.p.fns[wkey]["locals"][2])
            arg = I.root_args[0]
            for s, r in I.call_body(w, wkey, [arg, I.mk(I.p.fns[wkey]["locals"][2], "out")], "root"):
                kk = variant(I, s, r)
                io = [e for e in s.ev[n_ev:] if e[0] == "werr"]
                if kk is None or io:
                    continue
                part = [e for e in s.ev[n_ev:] if e[0] == "wpart"]
                if part:
                    continue
                if k == "Err":
                    if kk == "Ok":
                        # the same element either encodes or does not
                        enc = {(e[1], repr(e[2])) for e in st.ev if e[0] == "encerr"} & {(e[1], repr(e[2])) for e in s.ev[n_ev:] if e[0] == "enc"}
                        if enc:
                            continue
                        env.never(s, "measuring fails only when writing fails")
                    continue
                if kk == "Err":
                    enc = {(e[1], repr(e[2])) for e in st.ev if e[0] == "enc"} & {(e[1], repr(e[2])) for e in s.ev[n_ev:] if e[0] == "encerr"}
                    if enc:
                        continue
                    env.never(s, "measuring fails when writing fails")
                    continue
                s2 = s.copy()
                s2.ev = s.ev[n_ev:]
                total = written_length(I, s, stream(I, s2))
                if total is None:
                    env.that(s, None, "the measure is the number of bytes written")
                else:
                    env.eq(s, payload(I, st, v), total, "the measure is the number of bytes written")
    return rule


# ------------------------------------------------------------ C03: reader after writer

def lay_wire(I, st, pcs, trail):
    """region 'wire' holding the written bytes; returns total or None"""
    off = ZERO
    regs, encs = [], []
    for p in pcs:
        if p[0] == "b":
            regs.append(("e", off, p[1]))
            off = off + 1
        elif p[0] == "s":
            s = p[1]
            regs.append(("blk", off, s.len, s))
            if s.kind == "str" or s.root[0] == "R" and s.root[1] == "v":
                st.facts[("o", Term("utf8", (("R", "wire"), (), st.norm(off), st.norm(s.len))))] = True
            off = off + s.len
        elif p[0] == "e":
            ln = var("enclen:%s(%r)" % (p[1], p[2]), 0, ISIZE_MAX)
            encs.append((off, p[1], p[2], ln))
            off = off + ln
        else:
            return None
    if trail:
        off2 = off + var("trail", 0, ISIZE_MAX)
    else:
        off2 = off
    st.regs["wire"] = tuple(regs)
    st.g["wire"] = tuple(encs)
    if not st.add_ge(K(ISIZE_MAX) - off2):
        return "infeasible"
    return off, off2


def wire_hook(base, bad):
    import contracts
    import natives

    def hook(I, st, c, args, span, dty):
        tr = c.get("tr") or ""
        if tr.endswith(contracts.FS) or tr.endswith(contracts.FSO):
            s = natives.as_slice(I, st, args[0])
            if s.root == ("R", "wire"):
                nm = bad(I, c)
                if nm is not None:
                    off = st.norm(s.off)
                    for o, codec, val, ln in st.g.get("wire", ()):
                        if codec == nm and st.truth(("eq", off - o)) is True:
                            if st.truth(("ge", s.len - ln)) is not True:
                                st.g["wire_short"] = True
                            okt, errt = contracts.ok_err(I, dty)
                            fs = I.T(okt)["v"][0]["f"]
                            vals = []
                            for f in fs:
                                if f[0] == "size":
                                    vals.append(ln)
                                elif tr.endswith(contracts.FSO):
                                    tt = I.T(f[1])["f"]
                                    vals.append(Tup((val, I.mk(tt[1], "offs:" + repr(val)))))
                                else:
                                    vals.append(val)
                            st.ev += (("dec", nm, s._replace(off=off), ln),)
                            return [(st, Adt(dty, 0, (Adt(okt, 0, tuple(vals)),)))]
        return base(I, st, c, args, span, dty)
    return hook


def wire_same(env, st, got, want, name):
    """got (read from the wire) denotes what want (written) does"""
    I = env.I
    import natives
    if isinstance(want, Ptr):
        want = natives.writer_of(I, st, want)
    if isinstance(got, Ptr):
        got = natives.writer_of(I, st, got)
    if isinstance(got, SliceV) and isinstance(want, SliceV):
        if got.root == want.root and got.path == want.path:
            return env.need(st, ("and", ("eq", got.off - want.off), ("eq", got.len - want.len)), name)
        if st.truth(("and", ("eq", got.len), ("eq", want.len))) is True:
            return env.that(st, True, name)
        if got.root != ("R", "wire"):
            return env.that(st, False, name, "", "%r read, %r written" % (got, want))
        for w in st.regs.get("wire", ()):
            if w[0] == "blk" and w[3].root == want.root and w[3].path == want.path:
                return env.need(st, ("and", ("eq", got.off - w[1] - want.off + w[3].off), ("eq", got.len - want.len)), name)
        n = st.norm(want.len)
        if n.is_const() and n.c <= 64:
            env.eq(st, got.len, n, name)
            for i in range(n.c):
                env.eq(st, byte(I, st, got, K(i)), byte(I, st, want, K(i)), name)
            return
        return env.that(st, None, name)
    if isinstance(got, Lin) and isinstance(want, Lin):
        return env.eq(st, got, want, name)
    if isinstance(want, Sy):
        t = I.T(want.ty)
        if isinstance(got, Sy) and got.name == want.name:
            return env.that(st, True, name)
        if t["k"] in ("float",) or t["s"] in ("f32", "f64"):
            n = 32 if t["s"] == "f32" else 64
            return env.eq(st, I.f_bits(got, n), I.f_bits(want, n), name)
        if t["k"] == "adt":
            if t.get("enum"):
                i = st.facts.get(want.name)
                if i is None:
                    return env.that(st, None, name, "", "undecided variant")
                want = I.expand(want.ty, want.name, i)
            else:
                want = I.expand(want.ty, want.name)
    if isinstance(got, Sy) and isinstance(want, Adt):
        i = st.facts.get(got.name, 0 if not I.T(got.ty).get("enum") else None)
        if i is None:
            return env.that(st, None, name, "", "undecided variant")
        got = I.expand(got.ty, got.name, i)
    if isinstance(got, Adt) and isinstance(want, Adt):
        if got.var != want.var:
            return env.that(st, False, name, "", "another variant")
        if len(got.f) != len(want.f):
            return env.that(st, None, name)
        for x, y in zip(got.f, want.f):
            wire_same(env, st, x, y, name)
        if not got.f:
            env.that(st, True, name)
        return
    if isinstance(got, (Tup, Arr)) and isinstance(want, (Tup, Arr)) and len(got.f) == len(want.f):
        for x, y in zip(got.f, want.f):
            wire_same(env, st, x, y, name)
        return
    try:
        b = env.I.f_bits(got, 64) if not isinstance(got, (Adt, SliceV)) else None
    except Exception:
        b = None
    r = same_value(I, st, got, want)
    env.that(st, r, name, "", "read %r, wrote %r" % (got, want))


def rule_roundtrip(prog, kind, arg, deckey, contracted):
    """everything written is read back as the same value, by the reader of the type"""
    def rule(env, outs):
        I = env.I
        base = I.hook
        for st, v in outs:
            if variant(I, st, v) != "Ok":
                continue
            if any(e[0] == "wpart" and st.truth(("eq", e[3] - e[2])) is not True for e in st.ev):
                continue
            got = []
            for p in stream(I, st):
                if p[0] == "p":
                    got += [("b", x) for x in p[1].f] if isinstance(p[1], Arr) else [("s", p[1])]
                else:
                    got.append(p)
            wst = st.copy()
            wst.ev = ()
            if kind == "array":
                d, n = container_arg(env, wst)
                if not wst.add_eq(d.len - N.mul(n, var("SIZE", 0, 1 << 60))):
                    continue
            t = lay_wire(I, wst, got, kind not in ("buffer",))
            if t == "infeasible":
                continue
            if t is None:
                env.that(st, None, "the reader accepts what was written", "", "output not recognised")
                continue
            body, total = t
            I.hook = wire_hook(base, contracted)
            want = None
            for r, y in wst.mem.items():
                if r[0] == "A" and r[1] == "v":
                    want = y
            if want is None:
                want = vroot()
            try:
                res = I.call_body(wst, deckey, [SliceV(("R", "wire"), (), ZERO, total, None, "s")], "root")
            finally:
                I.hook = base
            for r, x in res:
                k, m, size = outcome(env, r, x)
                foreign = [e for e in r.ev if e[0] in ("dec", "decerr") and e[2].root == ("R", "wire") and not any(o[1] == e[1] and r.truth(("eq", e[2].off - o[0])) is True for o in r.g["wire"])]
                if kind == "list":
                    foreign = [e for e in foreign if e[1] != "stub::Opq"]
                if foreign:
                    env.never(r, "nested elements are read where they were written", "", "%r" % (foreign[0][:2],))
                    continue
                if r.g.get("wire_short"):
                    env.that(r, None, "nested elements are read where they were written")
                    continue
                if k == "Err":
                    if kind == "list" and has_ev(r, "decerr"):
                        continue
                    env.never(r, "the reader accepts what was written", "", "rejected with %s" % variant(I, r, m))
                    continue
                if kind == "list":
                    d0, n0 = container_parts(I, want)
                    d, n = container_parts(I, m)
                    env.eq(r, n, n0, "the same count is read back")
                    w = [w for w in r.regs["wire"] if w[0] == "blk" and w[3].root == d0.root]
                    if w and isinstance(d, SliceV) and d.root == ("R", "wire"):
                        env.eq(r, d.off, w[0][1], "items are read where they were written")
                    elif r.truth(("eq", d0.len)) is not True:
                        env.that(r, None, "items are read where they were written")
                    continue
                if kind == "array":
                    d0, n0 = container_parts(I, want)
                    d, n = container_parts(I, m)
                    env.eq(r, n, n0, "the same count is read back")
                    if r.truth(("eq", n - n0)) is True:
                        # equal counts occupy equal space
                        SIZE = var("SIZE", 0, 1 << 60)
                        r.add_eq(N.mul(n, SIZE) - N.mul(n0, SIZE))
                    wire_same(env, r, d, d0, "the same items are read back")
                else:
                    wire_same(env, r, m, want, "the same value is read back")
                env.eq(r, size, body, "the reader consumes what was written")
    return rule
