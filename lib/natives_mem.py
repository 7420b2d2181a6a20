"""Unsafe operations: what they do, and when they are undefined."""
import numdom as N
from numdom import Lin, K, ZERO
from interp import SliceV, Ptr, Adt, Tup, Arr, It, Term, UNIT, Give
import natives
from natives import nat, as_slice, split_state, sub, rng_bounds

UB = "undefined behaviour: "


def must(I, st, c, what, sp):
    """the state in which the operation is defined, or None"""
    ok, bad = split_state(I, st, c)
    if bad is not None:
        I.panic(UB + what, sp, bad)
    return ok


@nat(r"(std|core)::hint::unreachable_unchecked", r"(std|core)::intrinsics::unreachable")
def _unreachable(I, st, c, a, sp, dty, nm):
    I.panic(UB + "code marked as unreachable is reached", sp, st)
    return []


@nat(r"core::slice::<impl \[u8\]>::is_ascii", r"core::slice::ascii::<impl \[u8\]>::is_ascii", r"core::str::<impl str>::is_ascii")
def _is_ascii(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    if s.root[0] == "S" and st.norm(s.off).is_const() and st.norm(s.len).is_const():
        return None
    w = (s.root, s.path, st.norm(s.off), st.norm(s.len))
    key, u8 = ("o", Term("ascii", w)), ("o", Term("utf8", w))
    t = st.facts.get(key)
    out = []
    if t is not False and st.facts.get(u8) is not False:
        x = st.copy()
        x.facts[key] = x.facts[u8] = True
        out.append((x, ("c", True)))
    if t is not True:
        y = st.copy()
        y.facts[key] = False
        # there has to be something which is not ASCII
        if y.add_ge(st.norm(s.len) - 1):
            out.append((y, ("c", False)))
    return out


def eptr(I, st, v):
    if isinstance(v, It) and v.kind == "eptr":
        return v.parts[0]
    raise Give("raw pointer")


def width(I, ty):
    t = I.T(ty)
    if t["k"] in ("int", "uint", "float"):
        return t["bits"] // 8 if t["k"] == "float" else I.bits(ty)[0] // 8
    if t["k"] == "array" and I.T(t["e"])["k"] == "uint" and I.bits(t["e"])[0] == 8 and isinstance(t["n"], int):
        return t["n"]
    raise Give("raw access to " + t["s"])


def bytes_at(I, st, s, n):
    u8 = s.elem
    return [natives_byte(I, st, s, i) for i in range(n)]


def natives_byte(I, st, s, i):
    p = I.elem_ptr(st, s, K(i))
    return I.num(st, I.load(st, p.root, p.path))


def only_bytes(I, s):
    if s.kind != "str" and (s.elem is None or I.T(s.elem)["k"] != "uint" or I.bits(s.elem)[0] != 8):
        raise Give("raw pointer to other items")


PTR = r"(std|core)::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::"


@nat(r"(std|core)::ptr::read(_unaligned|_volatile)?", PTR + r"read(_unaligned|_volatile)?")
def _read(I, st, c, a, sp, dty, nm):
    s = eptr(I, st, a[0])
    only_bytes(I, s)
    n = width(I, dty)
    ok = must(I, st, I.cge(s.len - n), "read past the end of the memory", sp)
    if ok is None:
        return []
    if n > 1 and I.T(dty)["k"] != "array" and not nm.endswith("_unaligned"):
        I.panic(UB + "read through a pointer which need not be aligned", sp, ok.copy())
    bs = bytes_at(I, ok, s, n)
    if I.T(dty)["k"] == "array":
        return [(ok, Arr(tuple(bs)))]
    bits = ()
    for b in bs:
        bits += N.bits_of(ok.norm(b), 8)
    if I.T(dty)["k"] == "float":
        return [(ok, Term("f%d" % (8 * n), (N.from_bits(bits, False),)))]
    return [(ok, N.from_bits(bits, I.bits(dty)[1]))]


@nat(r"(std|core)::ptr::copy(_nonoverlapping)?", r"(std|core)::intrinsics::copy(_nonoverlapping)?")
def _copy(I, st, c, a, sp, dty, nm):
    x, y, n = eptr(I, st, a[0]), eptr(I, st, a[1]), I.num(st, a[2])
    only_bytes(I, x)
    only_bytes(I, y)
    ok = must(I, st, I.cge(x.len - n), "copy past the end of the source", sp)
    ok = ok and must(I, ok, I.cge(y.len - n), "copy past the end of the target", sp)
    if ok is None:
        return []
    m = natives.enumerated(ok, n)
    if not m.is_const() or m.c > 64:
        raise Give("raw copy of a variable number of bytes")
    vs = bytes_at(I, ok, x, m.c)
    for i, v in enumerate(vs):
        p = I.elem_ptr(ok, y, K(i))
        I.store(ok, p.root, p.path, v)
    return [(ok, UNIT)]


@nat(r"(std|core)::slice::from_raw_parts(_mut)?", r"(std|core)::slice::raw::from_raw_parts(_mut)?")
def _from_raw(I, st, c, a, sp, dty, nm):
    s, n = eptr(I, st, a[0]), I.num(st, a[1])
    only_bytes(I, s)
    ok = must(I, st, I.cge(s.len - n), "slice past the end of the memory", sp)
    if ok is None:
        return []
    return [(ok, s._replace(len=n, kind="s", elem=I.T(I.T(dty)["e"])["e"]))]


@nat(r"(std|core)::ptr::NonNull::<T>::offset_from_unsigned", r"(std|core)::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::offset_from_unsigned", r"(std|core)::intrinsics::ptr_offset_from_unsigned")
def _offset_from(I, st, c, a, sp, dty, nm):
    """the distance of two pointers into one slice"""
    x, y = eptr(I, st, a[0]), eptr(I, st, a[1])
    if (x.root, x.path) != (y.root, y.path):
        raise Give("pointers into different slices")
    d = x.off - y.off
    if st.truth(I.cge(d)) is not True:
        raise Give("the order of pointers")
    return [(st, d)]


@nat(r"<std::str::Bytes<'_> as std::iter::Iterator>::(any|all)", r"<std::slice::Iter<'a, T> as std::iter::Iterator>::(any|all)")
def _any_zero(I, st, c, a, sp, dty, nm):
    """whether a zero byte is among the bytes of a slice: the predicate is decided for zero and for all other bytes"""
    import natives_comp as NC
    it = I.load(st, a[0].root, a[0].path) if isinstance(a[0], Ptr) else a[0]
    if not isinstance(it, It) or it.kind not in ("bytes", "iter") or len(it.parts) != 1:
        return None
    s = it.parts[0]
    if s.root[0] != "R" or it.kind == "iter" and (s.elem is None or I.T(s.elem)["s"] != "u8"):
        return None
    every = nm.endswith("all")
    x = N.sl(N.C.fresh("probe", 0, 255))
    for q, want in ((st.copy(), not every), (st.copy(), every)):
        if not (q.add_eq(x) if want is (not every) else q.add_ge(x - 1)):
            return None
        f = a[1] if isinstance(a[1], Ptr) else NC.heap(I, q, a[1])
        arg = x if it.kind == "bytes" else NC.heap(I, q, x)
        n = len(I.panics) if hasattr(I, "panics") else None
        try:
            rs = NC.call_fn(I, q, f, [arg], sp, dty)
        except Give:
            return None
        if not rs or any(r.truth(I.cond(r, v)) is not want for r, v in rs):
            return None
        if n is not None and len(I.panics) != n:
            return None
    t = ("o", Term("contains", (s._replace(kind="s", elem=None), ZERO)))
    return [(st, ("not", t) if every else t)]
