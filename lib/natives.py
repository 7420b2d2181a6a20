"""Abstract semantics of the standard-library operations the analysed code uses.
Anything not listed here is interpreted from its own MIR body."""
import re

import numdom as N
from numdom import Lin, K, ZERO, ONE, var
from interp import (SliceV, Ptr, Adt, Sy, Tup, Arr, Clo, FnV, FnConst, Discr, Term, It, UNIT, TRUE, FALSE, NEVER, Fork, Give,
                    ISIZE_MAX, USIZE_MAX, neg)

TABLE = []
CACHE = {}


def nat(*pats):
    def deco(f):
        for p in pats:
            TABLE.append((re.compile(p + r"\Z"), f))
        return f
    return deco


def call(I, st, c, args, span, dty):
    name = c.get("ps") or c.get("r") or c["d"]
    tr = c.get("tr")
    key = (name, tr)
    fs = CACHE.get(key)
    if fs is None:
        fs = []
        for p, f in TABLE:
            if p.match(name) or (tr and p.match("trait:" + tr)):
                fs.append(f)
        CACHE[key] = fs
    for f in fs:
        r = f(I, st, c, args, span, dty, name)
        if r is not None:
            return r
    return None


# ---------------------------------------------------------------- helpers

def opt(I, dty, v):
    """Some(v) / None of the Option type"""
    return Adt(dty, 1, (v,)) if v is not None else Adt(dty, 0, ())


def deref(I, st, v):
    v = I.as_ptr(st, v)
    if isinstance(v, Ptr):
        return I.load(st, v.root, v.path)
    return v


def as_slice(I, st, v, elem=None):
    """slice behind a reference to a slice, array, str"""
    v = I.as_ptr(st, v)
    if isinstance(v, SliceV):
        return v
    if isinstance(v, Ptr):
        x = I.load(st, v.root, v.path)
        if isinstance(x, Arr):
            return SliceV(v.root, v.path, ZERO, K(len(x.f)), elem, "s")
        if isinstance(x, Sy) and I.T(x.ty)["k"] == "array":
            x = I.expand(x.ty, x.name)
            I.store(st, v.root, v.path, x)
            return SliceV(v.root, v.path, ZERO, K(len(x.f)), elem, "s")
        if isinstance(x, (SliceV, Ptr)):
            return as_slice(I, st, x, elem)
    raise Give("slice of %r" % (v,))


def sub(s, start, end):
    return s._replace(off=s.off + start, len=end - start)


def split_state(I, st, c):
    """(state where c, state where not c), None when impossible"""
    t = st.truth(c)
    if t is True:
        return st, None
    if t is False:
        return None, st
    a, b = st.copy(), st.copy()
    a = a.assume(c, True)
    b = b.assume(c, False)
    if len(a) > 1 or len(b) > 1:
        raise Fork(a + b)
    return (a[0] if a else None), (b[0] if b else None)


def rng_bounds(I, st, s, idx):
    """(start, end, condition that it is in range) of a range index"""
    n = s.len
    if isinstance(idx, Adt):
        t = I.T(idx.ty)
        p = t["p"].rsplit("::", 1)[-1]
        if p in ("Range", "RangeInclusive"):
            a, b = I.num(st, idx.f[0]), I.num(st, idx.f[1])
            if p == "RangeInclusive":
                b = b + 1
            return a, b, ("and", I.cge(b - a), I.cge(n - b))
        if p == "RangeFrom":
            a = I.num(st, idx.f[0])
            return a, n, I.cge(n - a)
        if p in ("RangeTo", "RangeToInclusive"):
            b = I.num(st, idx.f[0])
            if p == "RangeToInclusive":
                b = b + 1
            return ZERO, b, I.cge(n - b)
        if p == "RangeFull":
            return ZERO, n, TRUE
    if isinstance(idx, Sy):
        t = I.T(idx.ty)
        if t["k"] == "adt":
            return rng_bounds(I, st, s, I.expand(idx.ty, idx.name))
    raise Give("range %r" % (idx,))


def is_num(v):
    return isinstance(v, Lin) or isinstance(v, Discr)


def utf8_boundary(I, st, s):
    """str slicing is also partial on character boundaries"""
    return s.kind == "str"


# ---------------------------------------------------------------- slices

@nat(r"core::slice::<impl \[T\]>::len", r"core::str::<impl str>::len", r"(std|core)::ptr::.*<impl \*(const|mut) \[T\]>::len")
def _len(I, st, c, a, sp, dty, nm):
    return [(st, as_slice(I, st, a[0]).len)]


@nat(r"core::slice::<impl \[T\]>::is_empty", r"core::str::<impl str>::is_empty")
def _is_empty(I, st, c, a, sp, dty, nm):
    return [(st, I.ceq(as_slice(I, st, a[0]).len))]


@nat(r"core::str::<impl str>::as_bytes", r"core::str::<impl str>::as_bytes_mut")
def _as_bytes(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    return [(st, s._replace(kind="s", elem=I.T(I.T(dty)["e"])["e"]))]


@nat(r"std::string::String::(as_bytes|as_str|as_mut_str)", r"std::vec::Vec::<T, A>::(as_slice|as_mut_slice)")
def _noop_none(I, st, c, a, sp, dty, nm):
    return None


@nat(r"core::slice::index::<impl std::ops::(Index|IndexMut)<I> for \[T\]>::index(_mut)?",
     r"(std|core)::array::<impl std::ops::(Index|IndexMut)<I> for \[T; N\]>::index(_mut)?",
     r"core::str::traits::<impl std::ops::(Index|IndexMut)<I> for str>::index(_mut)?")
def _index(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0], I.T(I.T(dty)["e"]).get("e"))
    if is_num(a[1]):
        i = I.num(st, a[1])
        ok, bad = split_state(I, st, I.cge(s.len - i - 1))
        if bad is not None:
            I.panic("index out of bounds", sp, bad)
        return [(ok, I.elem_ptr(ok, s, i))] if ok is not None else []
    x, y, cond = rng_bounds(I, st, s, a[1])
    return ranged(I, st, s, x, y, cond, sp)


def ranged(I, st, s, x, y, cond, sp):
    t = st.truth(cond)
    out = []
    if t is not True:
        b = st.copy()
        for q in b.assume(cond, False):
            I.panic("slice index out of range", sp, q)
    if t is False:
        return []
    if t is None:
        for q in st.assume(cond, True):
            out.append((q, sub(s, x, y)))
    else:
        out.append((st, sub(s, x, y)))
    if s.kind == "str":
        k = boundaries(s, st.norm(x), st.norm(y))
        if k is False:
            for q, _ in out:
                I.panic("slice index not on a character boundary", sp, q)
            return []
        if k is None:
            for q, _ in out:
                q.imp += ("character boundary",)
    return out


def boundaries(s, x, y):
    """both ends are on character boundaries; None if that is not known"""
    if s.root[0] != "S" or not all(isinstance(z, N.Lin) and z.is_const() for z in (x, y, s.off, s.len)):
        return None
    b = s.root[1]
    return all(z.c + s.off.c >= len(b) or b[z.c + s.off.c] & 0xc0 != 0x80 for z in (x, y))


@nat(r"core::slice::<impl \[T\]>::get(_mut)?", r"core::str::<impl str>::get(_mut)?")
def _get(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    if is_num(a[1]):
        i = I.num(st, a[1])
        ok, bad = split_state(I, st, I.cge(s.len - i - 1))
        out = []
        if ok is not None:
            out.append((ok, opt(I, dty, I.elem_ptr(ok, s, i))))
        if bad is not None:
            out.append((bad, opt(I, dty, None)))
        return out
    x, y, cond = rng_bounds(I, st, s, a[1])
    t = st.truth(cond)
    out = []
    if t is not True:
        for q in st.copy().assume(cond, False):
            out.append((q, opt(I, dty, None)))
    if t is not False:
        for q in (st.assume(cond, True) if t is None else [st]):
            out.append((q, opt(I, dty, sub(s, x, y))))
            if s.kind == "str":
                k = boundaries(s, st.norm(x), st.norm(y))
                if k is False:
                    out[-1] = (q, opt(I, dty, None))
                if k is None:
                    q.imp += ("character boundary",)
    return out


@nat(r"core::slice::<impl \[T\]>::get_unchecked(_mut)?")
def _getu(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    if is_num(a[1]):
        i = I.num(st, a[1])
        ok, bad = split_state(I, st, I.cge(s.len - i - 1))
        if bad is not None:
            I.panic("undefined behaviour: unchecked index out of bounds", sp, bad)
        return [(ok, I.elem_ptr(ok, s, i))] if ok is not None else []
    x, y, cond = rng_bounds(I, st, s, a[1])
    if st.truth(cond) is not True:
        for q in st.copy().assume(cond, False):
            I.panic("undefined behaviour: unchecked range", sp, q)
    return [(q, sub(s, x, y)) for q in st.assume(cond, True)]


@nat(r"core::slice::<impl \[T\]>::(first|last)(_mut)?")
def _first(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    ok, bad = split_state(I, st, I.cge(s.len - 1))
    out = []
    if ok is not None:
        out.append((ok, opt(I, dty, I.elem_ptr(ok, s, ZERO if "first" in nm else s.len - 1))))
    if bad is not None:
        out.append((bad, opt(I, dty, None)))
    return out


@nat(r"core::slice::<impl \[T\]>::split_(first|last)(_mut)?")
def _split_first(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    ok, bad = split_state(I, st, I.cge(s.len - 1))
    out = []
    if ok is not None:
        if "first" in nm:
            v = Tup((I.elem_ptr(ok, s, ZERO), sub(s, ONE, s.len)))
        else:
            v = Tup((I.elem_ptr(ok, s, s.len - 1), sub(s, ZERO, s.len - 1)))
        out.append((ok, opt(I, dty, v)))
    if bad is not None:
        out.append((bad, opt(I, dty, None)))
    return out


@nat(r"core::slice::<impl \[T\]>::split_at(_mut)?(_checked|_unchecked|_mut_checked|_mut_unchecked)?", r"core::str::<impl str>::split_at(_checked)?")
def _split_at(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    i = I.num(st, a[1])
    ok, bad = split_state(I, st, I.cge(s.len - i))
    chk = nm.endswith("_checked")
    out = []
    if ok is not None:
        v = Tup((sub(s, ZERO, i), sub(s, i, s.len)))
        if s.kind == "str":
            ok.imp += ("character boundary",)
        out.append((ok, opt(I, dty, v) if chk else v))
    if bad is not None:
        if chk:
            out.append((bad, opt(I, dty, None)))
        else:
            I.panic("split_at out of bounds", sp, bad)
    return out


def copy_slice(I, st, dst, src, n):
    """dst[..n] = src[..n]; n provably equal to both lengths"""
    n = st.norm(n)
    if not n.is_const():
        lo, hi = n.rng()
        if dst.root[0] == "R":
            ov = st.regs.get(dst.root[1], ())
            st.regs[dst.root[1]] = ov + (("blk", st.norm(dst.off), n, src),)
            return
        raise Give("copy of unknown length")
    vals = [I.elem(st, src, K(i)) for i in range(n.c)]
    for i, v in enumerate(vals):
        p = I.elem_ptr(st, dst, K(i))
        I.store(st, p.root, p.path, v)


@nat(r"core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)")
def _copy(I, st, c, a, sp, dty, nm):
    d, s = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    ok, bad = split_state(I, st, I.ceq(d.len - s.len))
    if bad is not None:
        I.panic("copy_from_slice length mismatch", sp, bad)
    if ok is None:
        return []
    n = enumerated(ok, d.len, s.len)
    copy_slice(I, ok, d, s, n)
    return [(ok, UNIT)]


def enumerated(ok, *ns):
    """equal numbers: a constant, forked over when there are few"""
    n = ok.norm(ns[0])
    for x in ns:
        if ok.norm(x).is_const():
            return ok.norm(x)
    lo, hi = tight(ok, n)
    if lo is not None and hi is not None and hi - lo <= 16:
        if lo == hi:
            return K(lo)
        outs = []
        for k in range(lo, hi + 1):
            x = ok.copy()
            if x.add_eq(n - k):
                outs.append(x)
        raise Fork(outs)
    return n


def tight(st, l):
    """small provable constant bounds"""
    lo, hi = l.rng()
    for b in range(0, 17):
        if st.entails_ge(K(b) - l):
            hi = b
            break
    else:
        return lo, hi
    lo = max(lo or 0, 0)
    while lo < hi and st.entails_ge(l - (lo + 1)):
        lo += 1
    return lo, hi


@nat(r"core::slice::<impl \[T\]>::fill")
def _fill(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    n = st.norm(s.len)
    if n.is_const() and n.c <= 64:
        for i in range(n.c):
            p = I.elem_ptr(st, s, K(i))
            I.store(st, p.root, p.path, a[1])
        return [(st, UNIT)]
    return None


@nat(r"core::slice::<impl \[T\]>::reverse")
def _reverse(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    n = st.norm(s.len)
    if not n.is_const() or n.c > 64:
        return None
    vals = [I.elem(st, s, K(i)) for i in range(n.c)]
    for i, v in enumerate(reversed(vals)):
        p = I.elem_ptr(st, s, K(i))
        I.store(st, p.root, p.path, v)
    return [(st, UNIT)]


@nat(r"core::slice::<impl \[T\]>::swap")
def _swap_el(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    i, j = I.num(st, a[1]), I.num(st, a[2])
    ok, bad = split_state(I, st, ("and", I.cge(s.len - i - 1), I.cge(s.len - j - 1)))
    if bad is not None:
        I.panic("index out of bounds", sp, bad)
    if ok is None:
        return []
    x, y = I.elem(ok, s, i), I.elem(ok, s, j)
    for k, v in ((i, y), (j, x)):
        p = I.elem_ptr(ok, s, k)
        I.store(ok, p.root, p.path, v)
    return [(ok, UNIT)]


@nat(r"core::slice::<impl \[T\]>::contains")
def _contains(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    x = deref(I, st, a[1])
    n = st.norm(s.len)
    if s.root[0] == "S":
        if isinstance(x, Lin) and x.is_const():
            return [(st, ("c", x.c in s.root[1][s.off.c:s.off.c + n.c]))]
    elif s.root[0] != "R":
        # a list which is known item by item
        import natives_comp
        out, work = [], [st]
        if not n.is_const() or n.c > 256:
            return None
        for i in range(n.c):
            more = []
            for q in work:
                y = natives_comp.val(I, q, I.elem_ptr(q, s, K(i)))
                z = natives_comp.val(I, q, x)
                if is_num(y) and is_num(z):
                    r = I.ceq(I.num(q, y) - I.num(q, z))
                elif isinstance(y, SliceV) and isinstance(z, SliceV) and (y.kind == "str" or z.kind == "str"):
                    r = natives_comp.same(I, q, y, z)
                else:
                    return None
                hit, miss = split_state(I, q, r)
                out += [(hit, TRUE)] if hit is not None else []
                more += [miss] if miss is not None else []
            work = more
        return out + [(q, FALSE) for q in work]
    return [(st, ("o", Term("contains", (s._replace(kind="s", elem=None), x))))]


@nat(r"core::slice::<impl \[T\]>::(iter|iter_mut)", r"core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter",
     r"core::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter", r"std::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter")
def _iter(I, st, c, a, sp, dty, nm):
    t = I.T(dty)
    el = None
    for x in t.get("a", []):
        el = x
    return [(st, It("iter", (as_slice(I, st, a[0], el),)))]


@nat(r"core::str::<impl str>::bytes")
def _bytes(I, st, c, a, sp, dty, nm):
    return [(st, It("bytes", (as_slice(I, st, a[0])._replace(kind="s"),)))]


@nat(r"<std::slice::(Iter|IterMut)<'a, T> as std::iter::Iterator>::next", r"<std::str::Bytes<'_> as std::iter::Iterator>::next")
def _iter_next(I, st, c, a, sp, dty, nm):
    p = a[0]
    it = I.load(st, p.root, p.path)
    if not isinstance(it, It):
        it = iter_of(I, st, it)
    s = it.parts[0]
    ok, bad = split_state(I, st, I.cge(s.len - 1))
    out = []
    if bad is not None:
        out.append((bad, opt(I, dty, None)))
    if ok is not None:
        v = I.elem(ok, s, ZERO) if it.kind == "bytes" else I.elem_ptr(ok, s, ZERO)
        I.store(ok, p.root, p.path, It(it.kind, (sub(s, ONE, s.len),)))
        out.append((ok, opt(I, dty, v)))
    return out


def iter_of(I, st, v):
    """symbolic std iterators become (slice, chunk) pairs"""
    if isinstance(v, Sy):
        t = I.T(v.ty)
        p = t["p"].rsplit("::", 1)[-1]
        s = SliceV(("R", v.name + ".it"), (), ZERO, var(v.name + ".it.len", 0, ISIZE_MAX), None, "s")
        if p in ("Iter", "IterMut"):
            return It("iter", (s,))
        if p in ("Chunks", "ChunksMut", "ChunksExact", "ChunksExactMut"):
            n = var(v.name + ".chunk", 1, ISIZE_MAX)
            return It("chunks", (s, n))
    raise Give("iterator %r" % (v,))


@nat(r"<std::slice::(Iter|IterMut)<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def _iter_back(I, st, c, a, sp, dty, nm):
    p = a[0]
    it = I.load(st, p.root, p.path)
    s = it.parts[0]
    ok, bad = split_state(I, st, I.cge(s.len - 1))
    out = []
    if bad is not None:
        out.append((bad, opt(I, dty, None)))
    if ok is not None:
        v = I.elem_ptr(ok, s, s.len - 1)
        I.store(ok, p.root, p.path, It(it.kind, (sub(s, ZERO, s.len - 1),)))
        out.append((ok, opt(I, dty, v)))
    return out


@nat(r"<std::slice::(Iter|IterMut|Chunks|ChunksMut)<'[a-z_]+, T> as std::iter::ExactSizeIterator>::(len|is_empty)")
def _iter_len(I, st, c, a, sp, dty, nm):
    it = deref(I, st, a[0])
    if isinstance(it, It) and it.kind == "iter":
        n = it.parts[0].len
        return [(st, n if nm.endswith("len") else ("eq", n))]
    return None


@nat(r"core::slice::<impl \[T\]>::(chunks|chunks_mut)")
def _chunks(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    n = I.num(st, a[1])
    ok, bad = split_state(I, st, I.cge(n - 1))
    if bad is not None:
        I.panic("chunk size is zero", sp, bad)
    return [(ok, It("chunks", (s, n)))] if ok is not None else []


@nat(r"core::slice::<impl \[T\]>::(chunks_exact|chunks_exact_mut)")
def _chunks_exact(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    n = I.num(st, a[1])
    ok, bad = split_state(I, st, I.cge(n - 1))
    if bad is not None:
        I.panic("chunk size is zero", sp, bad)
    return [(ok, It("chunkse", (s, n)))] if ok is not None else []


@nat(r"<std::slice::(Chunks|ChunksMut|ChunksExact|ChunksExactMut)<'a, T> as std::iter::Iterator>::next")
def _chunks_next(I, st, c, a, sp, dty, nm):
    p = a[0]
    it = I.load(st, p.root, p.path)
    if not isinstance(it, It):
        it = iter_of(I, st, it)
    s, n = it.parts
    out = []
    if it.kind == "chunkse":
        ok, bad = split_state(I, st, I.cge(s.len - n))
        if bad is not None:
            out.append((bad, opt(I, dty, None)))
        if ok is not None:
            I.store(ok, p.root, p.path, It(it.kind, (sub(s, n, s.len), n)))
            out.append((ok, opt(I, dty, sub(s, ZERO, n))))
        return out
    ok, bad = split_state(I, st, I.cge(s.len - 1))
    if bad is not None:
        out.append((bad, opt(I, dty, None)))
    if ok is not None:
        full, part = split_state(I, ok, I.cge(s.len - n))
        if full is not None:
            I.store(full, p.root, p.path, It(it.kind, (sub(s, n, s.len), n)))
            out.append((full, opt(I, dty, sub(s, ZERO, n))))
        if part is not None:
            I.store(part, p.root, p.path, It(it.kind, (sub(s, s.len, s.len), n)))
            out.append((part, opt(I, dty, s)))
    return out


@nat(r"<\[T\] as std::convert::AsRef<\[T\]>>::as_ref", r"core::slice::<impl std::convert::AsRef<\[T\]> for \[T\]>::as_ref")
def _id(I, st, c, a, sp, dty, nm):
    return [(st, a[0])]


@nat(r"std::str::from_utf8(_mut)?", r"core::str::<impl str>::from_utf8(_mut)?")
def _from_utf8(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    key = ("o", Term("utf8", (s.root, s.path, st.norm(s.off), st.norm(s.len))))
    out = []
    t = st.facts.get(key)
    et = I.T(dty)["v"][1]["f"][0][1]
    if t is not False:
        x = st.copy()
        x.facts[key] = True
        x.ev += (("utf8", s),)
        out.append((x, Adt(dty, 0, (s._replace(kind="str", elem=None),))))
    if t is not True:
        y = st.copy()
        y.facts[key] = False
        y.ev += (("utf8err", s),)
        out.append((y, Adt(dty, 1, (I.mk(et, "utf8error"),))))
    return out


@nat(r"std::str::from_utf8_unchecked(_mut)?", r"core::str::<impl str>::from_utf8_unchecked(_mut)?")
def _from_utf8_u(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    key = ("o", Term("utf8", (s.root, s.path, st.norm(s.off), st.norm(s.len))))
    if st.facts.get(key) is not True and s.kind != "str":
        I.panic("undefined behaviour: unchecked UTF-8", sp, st.copy())
    return [(st, s._replace(kind="str", elem=None))]


# ---------------------------------------------------------------- arrays

@nat(r".*TryFrom<&'?a? ?(mut )?\[T\]> for (&'a (mut )?)?\[T; N\]>::try_from", r"<T as std::convert::TryInto<U>>::try_into",
     r"trait:core::convert::TryFrom::try_from")
def _try_from(I, st, c, a, sp, dty, nm):
    t = I.T(dty)
    if t["k"] != "adt" or not t["p"].endswith("Result"):
        return None
    ok_t = t["v"][0]["f"][0][1]
    o = I.T(ok_t)
    if o["k"] == "array" and isinstance(a[0], SliceV):
        s = a[0]
        good, bad = split_state(I, st, I.ceq(s.len - o["n"]))
        out = []
        if good is not None:
            out.append((good, Adt(dty, 0, (Arr(tuple(I.elem(good, s, K(i)) for i in range(o["n"]))),))))
        if bad is not None:
            out.append((bad, Adt(dty, 1, (I.mk(t["v"][1]["f"][0][1], "tryfrom"),))))
        return out
    if o["k"] == "ref" and I.T(o["e"])["k"] == "array" and isinstance(a[0], SliceV):
        s = a[0]
        n = I.T(o["e"])["n"]
        good, bad = split_state(I, st, I.ceq(s.len - n))
        out = []
        if good is not None:
            I.fid += 1
            r = ("H", I.fid)
            good.mem[r] = Arr(tuple(I.elem(good, s, K(i)) for i in range(n)))
            out.append((good, Adt(dty, 0, (Ptr(r, ()),))))
        if bad is not None:
            out.append((bad, Adt(dty, 1, (I.mk(t["v"][1]["f"][0][1], "tryfrom"),))))
        return out
    if I.is_int(ok_t) and is_num(a[0]):
        x = I.num(st, a[0])
        lo, hi = I.int_range(ok_t)
        good, bad = split_state(I, st, ("and", I.cge(x - lo), I.cge(K(hi) - x)))
        out = []
        if good is not None:
            out.append((good, Adt(dty, 0, (x,))))
        if bad is not None:
            out.append((bad, Adt(dty, 1, (I.mk(t["v"][1]["f"][0][1], "tryfromint"),))))
        return out
    return None


@nat(r"(core|std)::array::<impl \[T; N\]>::as_(mut_)?slice")
def _arr_slice(I, st, c, a, sp, dty, nm):
    return [(st, as_slice(I, st, a[0], I.T(I.T(dty)["e"])["e"]))]


# ---------------------------------------------------------------- integers

NUM = r"core::num::<impl ([iu](?:8|16|32|64|128|size))>::"


def nty(I, c, nm):
    s = re.search(r"<impl ([iuf]\w+)>", nm).group(1)
    return I.p.find(s)


@nat(NUM + r"from_(le|be|ne)_bytes")
def _from_bytes(I, st, c, a, sp, dty, nm):
    return [(st, I.bytes_to_int(st, a[0], dty, "_be_" in nm))]


@nat(NUM + r"to_(le|be|ne)_bytes")
def _to_bytes(I, st, c, a, sp, dty, nm):
    n = I.T(dty)["n"]
    x = st.norm(I.num(st, a[0]))
    b = N.bits_of(x, n * 8)
    el = [N.from_bits(b[i:i + 8], False) for i in range(0, n * 8, 8)]
    if "_be_" in nm:
        el.reverse()
    return [(st, Arr(tuple(el)))]


@nat(NUM + r"(swap_bytes|to_be|from_be)")
def _swap(I, st, c, a, sp, dty, nm):
    w, s = I.bits(dty)
    b = N.bits_of(st.norm(I.num(st, a[0])), w)
    r = ()
    for i in range(w - 8, -1, -8):
        r += b[i:i + 8]
    return [(st, N.from_bits(r, s))]


@nat(NUM + r"(to_le|from_le)")
def _to_le(I, st, c, a, sp, dty, nm):
    return [(st, a[0])]


@nat(r"(core|std)::f(32|64)::<impl f(32|64)>::from_(le|be|ne)_bytes")
def _f_from(I, st, c, a, sp, dty, nm):
    n = I.T(dty)["bits"]
    u = I.p.find("u%d" % n)
    el = list(I.arr_elems(st, a[0]))
    if "_be_" in nm:
        el.reverse()
    b = ()
    for e in el:
        b += N.bits_of(st.norm(I.num(st, e)), 8)
    return [(st, Term("f%d" % n, (N.from_bits(b),)))]


@nat(r"(core|std)::f(32|64)::<impl f(32|64)>::to_(le|be|ne)_bytes")
def _f_to(I, st, c, a, sp, dty, nm):
    n = I.T(dty)["n"] * 8
    b = N.bits_of(I.f_bits(a[0], n), n)
    el = [N.from_bits(b[i:i + 8], False) for i in range(0, n, 8)]
    if "_be_" in nm:
        el.reverse()
    return [(st, Arr(tuple(el)))]


@nat(r"(core|std)::f(32|64)::<impl f(32|64)>::to_bits")
def _to_bits(I, st, c, a, sp, dty, nm):
    return [(st, I.f_bits(a[0], I.T(dty)["bits"]))]


@nat(r"(core|std)::f(32|64)::<impl f(32|64)>::from_bits")
def _fr_bits(I, st, c, a, sp, dty, nm):
    return [(st, Term("f%d" % I.T(dty)["bits"], (I.num(st, a[0]),)))]


def arith(I, st, op, x, y):
    return x + y if op == "add" else x - y if op == "sub" else N.mul(x, y)


@nat(NUM + r"(checked|saturating|overflowing|wrapping)_(add|sub|mul)(_signed|_unsigned)?")
def _arith(I, st, c, a, sp, dty, nm):
    kind, op = re.search(r"::(checked|saturating|overflowing|wrapping)_(add|sub|mul)", nm).groups()
    ty = nty(I, c, nm)
    lo, hi = I.int_range(ty)
    w, s = I.bits(ty)
    x = arith(I, st, op, I.num(st, a[0]), I.num(st, a[1]))
    if kind == "wrapping":
        return [(st, I.wrapnum(st, x, w, s))]
    cond = ("and", I.cge(x - lo), I.cge(K(hi) - x))
    t = st.truth(cond)
    goods = [] if t is False else ([st.copy()] if t is True else st.copy().assume(cond, True))
    bads = [] if t is True else ([st.copy()] if t is False else st.copy().assume(cond, False))
    out = []
    for q in goods:
        out.append((q, opt(I, dty, x) if kind == "checked" else Tup((x, FALSE)) if kind == "overflowing" else x))
    for q in bads:
        if kind == "checked":
            out.append((q, opt(I, dty, None)))
        elif kind == "overflowing":
            out.append((q, Tup((I.wrapnum(q, x, w, s), TRUE))))
        else:
            out.append((q, K(hi) if q.entails_ge(x - hi) else K(lo)))
    return out


@nat(NUM + r"(checked|wrapping)_(shl|shr)")
def _shifts(I, st, c, a, sp, dty, nm):
    kind, op = re.search(r"::(checked|wrapping)_(shl|shr)", nm).groups()
    ty = nty(I, c, nm)
    w, s = I.bits(ty)
    n = st.norm(I.num(st, a[1]))
    if not n.is_const():
        return None
    if kind == "checked" and not 0 <= n.c < w:
        return [(st, opt(I, dty, None))]
    v = N.shift(op, st.norm(I.num(st, a[0])), n.c % w, w, s)
    return [(st, opt(I, dty, v) if kind == "checked" else v)]


@nat(NUM + r"(checked_div|checked_rem|div_ceil|abs_diff|is_power_of_two|pow)")
def _num_misc(I, st, c, a, sp, dty, nm):
    op = nm.rsplit("::", 1)[1]
    ty = nty(I, c, nm)
    if op in ("checked_div", "checked_rem"):
        x, y = I.num(st, a[0]), st.norm(I.num(st, a[1]))
        nz, z = split_state(I, st, neg(I.ceq(y)))
        out = []
        if z is not None:
            out.append((z, opt(I, dty, None)))
        if nz is not None:
            out.append((nz, opt(I, dty, I.bin(nz, "Div" if op == "checked_div" else "Rem", x, y, ty, ty))))
        return out
    if op == "div_ceil":
        x, y = I.num(st, a[0]), st.norm(I.num(st, a[1]))
        if y.is_const() and y.c > 0 and I.int_range(ty)[0] == 0:
            return [(st, N.divc(x + (y.c - 1), y.c))]
    if op == "abs_diff":
        x, y = I.num(st, a[0]), I.num(st, a[1])
        p, q = split_state(I, st, I.cge(x - y))
        return [(z, v) for z, v in ((p, x - y), (q, y - x)) if z is not None]
    if op == "pow":
        x, y = st.norm(I.num(st, a[0])), st.norm(I.num(st, a[1]))
        if x.is_const() and y.is_const() and y.c < 200:
            lo, hi = I.int_range(ty)
            v = x.c ** y.c
            if lo <= v <= hi:
                return [(st, K(v))]
            I.panic("overflow pow", sp, st)
            return []
    return None


@nat(NUM + r"(next_power_of_two|checked_next_power_of_two|leading_zeros|trailing_zeros|leading_ones|trailing_ones|count_ones|count_zeros|ilog2|swap_bytes|reverse_bits|isqrt)")
def _bitcount(I, st, c, a, sp, dty, nm):
    op = nm.rsplit("::", 1)[1]
    w, s = I.bits(nty(I, c, nm))
    x = st.norm(I.num(st, a[0]))
    if not x.is_const():
        lo, hi = tight(st, x)
        if lo is not None and hi is not None and 0 < hi - lo <= 16:
            outs = []
            for k in range(lo, hi + 1):
                y = st.copy()
                if y.add_eq(x - k):
                    outs.append(y)
            raise Fork(outs)
        return None
    v = x.c & ((1 << w) - 1)
    b = bin(v)[2:].zfill(w)
    if op in ("next_power_of_two", "checked_next_power_of_two"):
        r = 1 << max(v - 1, 0).bit_length() if v > 1 else 1
        if r >= 1 << w:
            if op[0] == "c":
                return [(st, opt(I, dty, None))]
            I.panic("overflow next_power_of_two", sp, st)
            return []
        return [(st, opt(I, dty, K(r)) if op[0] == "c" else K(r))]
    if op == "ilog2":
        if v == 0:
            I.panic("ilog2 of zero", sp, st)
            return []
        return [(st, K(v.bit_length() - 1))]
    r = {"leading_zeros": lambda: w - v.bit_length(), "trailing_zeros": lambda: w if v == 0 else len(b) - len(b.rstrip("0")),
         "leading_ones": lambda: len(b) - len(b.lstrip("1")), "trailing_ones": lambda: len(b) - len(b.rstrip("1")),
         "count_ones": lambda: b.count("1"), "count_zeros": lambda: b.count("0")}.get(op)
    if r is None:
        return None
    return [(st, K(r()))]


@nat(r"core::str::<impl str>::chars")
def _chars(I, st, c, a, sp, dty, nm):
    return [(st, It("chars", (as_slice(I, st, a[0]),)))]


@nat(r"<std::str::Chars<'a> as std::iter::Iterator>::count", r"<core::str::Chars<'a> as std::iter::Iterator>::count")
def _chars_count(I, st, c, a, sp, dty, nm):
    it = a[0]
    if not isinstance(it, It) or it.kind != "chars":
        return None
    s = it.parts[0]
    n, off = st.norm(s.len), st.norm(s.off)
    if n.is_const() and n.c <= 1:
        return [(st, n)]
    v = var("chars%r" % ((s.root, s.path, off, n),), 0, ISIZE_MAX)
    # every character of a string takes one to four bytes
    x = st.copy()
    if not all(x.assume(q) for q in (I.cge(n - v), I.cge(v.scale(4) - n))):
        return []
    return [(x, v)]


@nat(r"(core|std)::cmp::(min|max)", r"trait:core::cmp::Ord::(min|max)")
def _minmax(I, st, c, a, sp, dty, nm):
    if not (is_num(a[0]) and is_num(a[1])):
        return None
    op = c["d"].rsplit("::", 1)[1]
    x, y = I.num(st, a[0]), I.num(st, a[1])
    p, q = split_state(I, st, I.cge(y - x))
    out = []
    if p is not None:
        out.append((p, x if op == "min" else y))
    if q is not None:
        out.append((q, y if op == "min" else x))
    return out


@nat(r"trait:core::clone::Clone::clone")
def _clone(I, st, c, a, sp, dty, nm):
    t = I.T(dty)
    if t["k"] in ("int", "uint", "bool", "char", "float", "ref", "ptr"):
        return [(st, deref(I, st, a[0]) if not isinstance(a[0], SliceV) else a[0])]
    return None


def _bytes(I, st, s):
    """the bytes of a slice of known bytes, or None"""
    import natives_gen
    if s.root[0] not in ("S", "L", "H", "C"):
        return None
    try:
        return natives_gen.const(I, st, s)
    except (Give, KeyError, IndexError, TypeError, AttributeError):
        return None


@nat(r"trait:core::cmp::PartialEq::(eq|ne)")
def _eq(I, st, c, a, sp, dty, nm):
    x, y = a
    for _ in range(3):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            x, y = deref(I, st, x), deref(I, st, y)
        else:
            break
    r = None
    if is_num(x) and is_num(y):
        r = I.ceq(I.num(st, x) - I.num(st, y))
    elif isinstance(x, SliceV) and isinstance(y, SliceV):
        if x.root[0] == "S" and y.root[0] == "S":
            r = ("c", x.root[1][x.off.c:][:x.len.c] == y.root[1][y.off.c:][:y.len.c])
        elif x == y:
            r = TRUE
        elif _bytes(I, st, x) is not None and _bytes(I, st, y) is not None:
            r = ("c", _bytes(I, st, x) == _bytes(I, st, y))
        else:
            r = ("o", Term("slice_eq", (x, y)))
    if r is None:
        return None
    ne = (c.get("tr") or "").endswith("::ne")
    return [(st, neg(r) if ne else r)]


# ---------------------------------------------------------------- memory

@nat(r"(std|core)::mem::size_of", r"(std|core)::intrinsics::size_of", r"core::mem::SizedTypeProperties::.*")
def _size_of(I, st, c, a, sp, dty, nm):
    if not c.get("a"):
        return None
    n = I.size_of(c["a"][0])
    return None if n is None else [(st, K(n))]


@nat(r"(std|core)::mem::(replace|take|swap)")
def _mem(I, st, c, a, sp, dty, nm):
    op = nm.rsplit("::", 1)[1]
    if not isinstance(a[0], Ptr):
        return None
    old = I.load(st, a[0].root, a[0].path)
    if op == "replace":
        I.store(st, a[0].root, a[0].path, a[1])
        return [(st, old)]
    if op == "swap" and isinstance(a[1], Ptr):
        o2 = I.load(st, a[1].root, a[1].path)
        I.store(st, a[0].root, a[0].path, o2)
        I.store(st, a[1].root, a[1].path, old)
        return [(st, UNIT)]
    if op == "take":
        v = default_of(I, dty)
        if v is not None:
            I.store(st, a[0].root, a[0].path, v)
            return [(st, old)]
    return None


def default_of(I, ty):
    t = I.T(ty)
    if t["k"] in ("int", "uint"):
        return ZERO
    if t["k"] == "bool":
        return FALSE
    if t["k"] == "adt" and t["p"] == "core::option::Option":
        return Adt(ty, 0, ())
    if t["k"] == "ref" and I.T(t["e"])["k"] in ("slice", "str"):
        e = I.T(t["e"])
        return SliceV(("S", b""), (), ZERO, ZERO, e.get("e"), "s" if e["k"] == "slice" else "str")
    return None


@nat(r"(std|core)::mem::(drop|forget)", r"(std|core)::hint::(black_box|assert_unchecked)", r"(std|core)::intrinsics::(assume|cold_path)")
def _drop(I, st, c, a, sp, dty, nm):
    return [(st, UNIT)]


@nat(r"(std|core)::intrinsics::integer_(min|max)", r"core::num::<impl [iu](8|16|32|64|128|size)>::(min|max)")
def _int_min(I, st, c, a, sp, dty, nm):
    x, y = I.num(st, a[0]), I.num(st, a[1])
    le, gt = split_state(I, st, I.cge(y - x))
    mn = nm.endswith("min")
    return [(q, v) for q, v in ((le, x if mn else y), (gt, y if mn else x)) if q is not None]


@nat(r"(std|core)::intrinsics::(likely|unlikely)")
def _likely(I, st, c, a, sp, dty, nm):
    return [(st, a[0])]


@nat(r"(std|core)::panicking::.*", r"(std|core)::rt::panic.*", r"(std|core)::rt::begin_panic.*", r"(std|core)::option::(unwrap|expect)_failed.*", r"(std|core)::result::unwrap_failed",
     r"(std|core)::slice::.*fail.*", r"(std|core)::str::slice_error_fail.*", r"(alloc|std)::raw_vec::(handle_error|capacity_overflow).*", r"std::process::(abort|exit)")
def _panics(I, st, c, a, sp, dty, nm):
    I.panic("panic: " + nm.rsplit("::", 1)[1], sp, st)
    return []


# ---------------------------------------------------------------- closures

@nat(r"trait:core::ops::function::(FnOnce::call_once|FnMut::call_mut|Fn::call)")
def _fn(I, st, c, a, sp, dty, nm):
    f = a[0]
    ref = None
    if isinstance(f, Ptr):
        v = I.load(st, f.root, f.path)
        while isinstance(v, Ptr):
            f = v
            v = I.load(st, f.root, f.path)
        ref, f = f, v
    targs = list(a[1].f) if isinstance(a[1], Tup) else None
    if targs is None:
        return None
    if isinstance(f, Clo):
        return I.call_closure(st, f, targs, sp, dty, ref)
    if isinstance(f, FnV):
        return I.call(st, f, targs, sp, dty)
    return None


# ---------------------------------------------------------------- ranges

@nat(r"(std|core)::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def _range_next(I, st, c, a, sp, dty, nm):
    p = a[0]
    r = I.load(st, p.root, p.path)
    if isinstance(r, Sy):
        r = I.expand(r.ty, r.name)
    s, e = I.num(st, r.f[0]), I.num(st, r.f[1])
    ok, bad = split_state(I, st, I.cge(e - s - 1))
    out = []
    if bad is not None:
        out.append((bad, opt(I, dty, None)))
    if ok is not None:
        I.store(ok, p.root, p.path, r._replace(f=(s + 1, e)))
        out.append((ok, opt(I, dty, s)))
    return out


@nat(r"(std|core)::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back")
def _range_back(I, st, c, a, sp, dty, nm):
    p = a[0]
    r = I.load(st, p.root, p.path)
    if isinstance(r, Sy):
        r = I.expand(r.ty, r.name)
    s, e = I.num(st, r.f[0]), I.num(st, r.f[1])
    ok, bad = split_state(I, st, I.cge(e - s - 1))
    out = []
    if bad is not None:
        out.append((bad, opt(I, dty, None)))
    if ok is not None:
        I.store(ok, p.root, p.path, r._replace(f=(s, e - 1)))
        out.append((ok, opt(I, dty, e - 1)))
    return out


# ---------------------------------------------------------------- output

def writer_of(I, st, v):
    while isinstance(v, Ptr):
        v = I.load(st, v.root, v.path)
    return v


def data_of(st, s):
    return s._replace(off=st.norm(s.off), len=st.norm(s.len))


def is_opaque_w(I, c):
    im = c.get("impl") or ""
    if im.endswith("OpaqueW"):
        return True
    a = c.get("a") or []
    return bool(a) and I.T(a[0])["s"].endswith("OpaqueW")


def snapshot(I, st, s):
    """what the bytes of a memory slice are right now"""
    n = st.norm(s.len)
    if s.root[0] not in ("R", "S") and n.is_const() and n.c <= 64:
        return Arr(tuple(st.norm(I.num(st, I.elem(st, s, K(i)))) for i in range(n.c)))
    if s.root[0] == "R" and st.regs.get(s.root[1]) and n.is_const() and n.c <= 64:
        return Arr(tuple(st.norm(I.num(st, I.elem(st, s, K(i)))) for i in range(n.c)))
    return data_of(st, s)


def io_error(I, st, dty):
    et = I.T(dty)["v"][1]["f"][0][1]
    I.fid += 1
    return Adt(dty, 1, (I.mk(et, "ioerror%d" % I.fid),))


@nat(r"trait:(core|std)::io(::write)?::Write::write_all")
def _write_all(I, st, c, a, sp, dty, nm):
    if not is_opaque_w(I, c) or "for &mut W" in nm:
        return None
    s = as_slice(I, st, a[1])
    snap = snapshot(I, st, s)
    ok, bad = st.copy(), st.copy()
    ok.ev += (("w", snap, st.norm(s.len)),)
    bad.ev += (("werr", snap),)
    bad.g["failed"] = True
    return [(ok, Adt(dty, 0, (UNIT,))), (bad, io_error(I, bad, dty))]


@nat(r"trait:(core|std)::io(::write)?::Write::write")
def _write(I, st, c, a, sp, dty, nm):
    if not is_opaque_w(I, c) or "for &mut W" in nm:
        return None
    s = as_slice(I, st, a[1])
    I.fid += 1
    ok, bad = st.copy(), st.copy()
    n = var("written%d" % I.fid, 0, ISIZE_MAX)
    ok.add_ge(s.len - n)
    ok.ev += (("wpart", snapshot(I, st, s), st.norm(s.len), n),)
    bad.ev += (("werr", snapshot(I, st, s)),)
    bad.g["failed"] = True
    return [(ok, Adt(dty, 0, (n,))), (bad, io_error(I, bad, dty))]


@nat(r"trait:(core|std)::io(::write)?::Write::flush")
def _flush(I, st, c, a, sp, dty, nm):
    if not is_opaque_w(I, c) or "for &mut W" in nm:
        return None
    ok, bad = st.copy(), st.copy()
    bad.g["failed"] = True
    bad.ev += (("werr", None),)
    return [(ok, Adt(dty, 0, (UNIT,))), (bad, io_error(I, bad, dty))]


@nat(r"(std|alloc|core)::io::.*Error::(new|other|kind|from|new_const|is_interrupted|_new)", r".*io::error::<impl std::io::Error>::new", r".*io::Error::(new|other|from_.*|kind)")
def _ioerr(I, st, c, a, sp, dty, nm):
    I.fid += 1
    return [(st, I.mk(dty, "ioerr%d" % I.fid))]


@nat(r"(std|core)::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter")
def _arr_into(I, st, c, a, sp, dty, nm):
    return [(st, It("into", (Arr(tuple(a[0].f), "vec"),)))] if isinstance(a[0], Arr) else None


@nat(r"<std::array::IntoIter<T, N> as std::iter::Iterator>::next")
def _arr_next(I, st, c, a, sp, dty, nm):
    p = a[0]
    while isinstance(p, Ptr):
        it = I.load(st, p.root, p.path)
        if isinstance(it, It):
            break
        p = it
    else:
        return None
    if it.kind != "into":
        return None
    v = it.parts[0]
    if not v.f:
        return [(st, opt(I, dty, None))]
    I.store(st, p.root, p.path, It("into", (Arr(v.f[1:], "vec"),)))
    return [(st, opt(I, dty, v.f[0]))]
