"""Abstract semantics of the collections and strings the schema compiler uses:
vectors and maps of known shape holding abstract values, reference-counted
cells, strings which are known or a concatenation with abstract parts.  Only
active for the analysis of the compiler crate (Interp hook)."""
import hashlib
import itertools
import re

import natives
import numdom as N
from numdom import Lin, K, ZERO, ONE, var
from natives import deref, opt, as_slice
from interp import SliceV, Ptr, Adt, Sy, Tup, Arr, Clo, FnV, Term, It, UNIT, TRUE, FALSE, NEVER, Fork, Give, USIZE_MAX, neg

TABLE, CACHE = [], {}


def nat(*pats):
    def deco(f):
        for p in pats:
            TABLE.append((re.compile(p + r"\Z", re.S), f))
        return f
    return deco


def hook(I, st, c, args, span, dty):
    name = c.get("ps") or c.get("r") or c["d"]
    tr = c.get("tr")
    key = (name, tr)
    fs = CACHE.get(key)
    if fs is None:
        fs = CACHE[key] = [f for p, f in TABLE if p.match(name) or (tr and p.match("trait:" + tr))]
    for f in fs:
        r = f(I, st, c, args, span, dty, name)
        if r is not None:
            return r
    if dty is not None and not (c.get("fn") in I.p.fns):
        t = I.T(dty)
        if t["k"] == "adt":
            last = name.rsplit("::", 1)[-1]
            for i, v in enumerate(t["v"]):
                if v["n"] == last and len(v["f"]) == len(args) and (t["enum"] or t["p"].endswith("::" + last)):
                    return [(st, Adt(dty, i, tuple(args)))]     # a constructor used as a function
    return None


# ------------------------------------------------------------------ values

def text(b):
    if isinstance(b, str):
        b = b.encode()
    return SliceV(("S", b), (), ZERO, K(len(b)), None, "str")


def parts_of(s):
    """parts of a string value: bytes and abstract pieces"""
    if s.root[0] == "S":
        if s.off.is_const() and s.len.is_const():
            b = s.root[1][s.off.c:s.off.c + s.len.c]
            return (b,) if b else ()
    if s.root[0] == "T":
        return s.root[1]
    return (("opaque", s),)


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:16]


def join(parts):
    out = []
    for p in parts:
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += p
        elif p != b"":
            out.append(p)
    if not out:
        return text(b"")
    if len(out) == 1:
        if isinstance(out[0], bytes):
            return text(out[0])
        if out[0][0] == "opaque":
            return out[0][1]
    lo = sum(len(p) for p in out if isinstance(p, bytes)) + sum(1 for p in out if not isinstance(p, bytes) and p[0] in ("num", "chr"))
    return SliceV(("T", tuple(out)), (), ZERO, var("len" + digest(out), lo, 1 << 40), None, "str")


def known(s):
    """the bytes of a string value, or None"""
    if isinstance(s, SliceV) and s.root[0] == "S" and s.off.is_const() and s.len.is_const():
        return s.root[1][s.off.c:s.off.c + s.len.c]
    return None


def val(I, st, v):
    """follow references down to a value"""
    for _ in range(8):
        if isinstance(v, Ptr):
            v = I.load(st, v.root, v.path)
        else:
            break
    return v


def rec(I, st, v):
    """the place a reference (to a reference...) denotes: (root, path)"""
    while isinstance(v, Ptr):
        x = I.load(st, v.root, v.path)
        if not isinstance(x, Ptr):
            return v
        v = x
    raise Give("place of %r" % (v,))


def heap(I, st, v):
    I.fid += 1
    r = ("H", I.fid)
    st.mem[r] = v
    return Ptr(r, ())


def same(I, st, a, b):
    """equality of two keys: a condition"""
    a, b = val(I, st, a), val(I, st, b)
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        x, y = known(a), known(b)
        if x is not None and y is not None:
            return ("c", x == y)
        if a == b:
            return TRUE
        return ("o", Term("text_eq", (a, b) if repr(a) <= repr(b) else (b, a)))
    if isinstance(a, Lin) and isinstance(b, Lin):
        return I.ceq(a - b)
    raise Give("key comparison %r %r" % (a, b))


def branch(st, c):
    """[(state, bool)]"""
    t = st.truth(c)
    if t is not None:
        return [(st, t)]
    o = st.copy()
    return [(s, True) for s in st.assume(c, True)] + [(s, False) for s in o.assume(c, False)]


# ------------------------------------------------------------------ Vec

VEC = r"std::vec::Vec::<T(, A)?>::"


@nat(VEC + r"(new|with_capacity|new_in|with_capacity_in)", r"<std::vec::Vec<T> as std::default::Default>::default")
def _vec_new(I, st, c, a, sp, dty, nm):
    return [(st, Arr((), "vec"))]


@nat(VEC + r"push", VEC + r"push_mut")
def _push(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    v = I.load(st, p.root, p.path)
    I.store(st, p.root, p.path, Arr(v.f + (a[1],), "vec"))
    return [(st, UNIT)]


@nat(VEC + r"pop")
def _pop(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    v = I.load(st, p.root, p.path)
    if not v.f:
        return [(st, opt(I, dty, None))]
    I.store(st, p.root, p.path, Arr(v.f[:-1], "vec"))
    return [(st, opt(I, dty, v.f[-1]))]


@nat(VEC + r"(insert|remove|swap_remove|split_off)")
def _vec_at(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    v = I.load(st, p.root, p.path)
    i = st.norm(I.num(st, a[1]))
    if not isinstance(v, Arr) or not i.is_const():
        return None
    i, n = i.c, len(v.f)
    op = nm.rsplit("::", 1)[1]
    if i > n or (i == n and op in ("remove", "swap_remove")):
        I.panic("index out of bounds", sp, st)
        return []
    if op == "insert":
        f, r = v.f[:i] + (a[2],) + v.f[i:], UNIT
    elif op == "remove":
        f, r = v.f[:i] + v.f[i + 1:], v.f[i]
    elif op == "swap_remove":
        r = v.f[i]
        f = v.f[:i] + (v.f[-1:] if i < n - 1 else ()) + v.f[i + 1:n - 1]
    else:
        f, r = v.f[:i], Arr(v.f[i:], "vec")
    I.store(st, p.root, p.path, Arr(f, "vec"))
    return [(st, r)]


@nat(VEC + r"(retain|retain_mut|append|extend_from_slice)")
def _vec_bulk(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    v = I.load(st, p.root, p.path)
    op = nm.rsplit("::", 1)[1]
    if not isinstance(v, Arr):
        return None
    if op == "append":
        q = rec(I, st, a[1])
        w = I.load(st, q.root, q.path)
        I.store(st, p.root, p.path, Arr(v.f + w.f, "vec"))
        I.store(st, q.root, q.path, Arr((), "vec"))
        return [(st, UNIT)]
    if op == "extend_from_slice":
        w = val(I, st, a[1])
        if isinstance(w, SliceV) and w.off.is_const() and w.len.is_const() and w.root[0] != "S":
            w = Arr(I.load(st, w.root, w.path).f[w.off.c:w.off.c + w.len.c], "vec")
        if not isinstance(w, Arr):
            return None
        I.store(st, p.root, p.path, Arr(v.f + w.f, "vec"))
        return [(st, UNIT)]
    work = [(st, ())]
    for i in range(len(v.f)):
        nxt = []
        for s, keep in work:
            for q, r in call_fn(I, s, a[1], [Ptr(p.root, p.path + (("i", K(i)),))], sp, None):
                for x, t in branch(q, I.cond(q, r)):
                    nxt.append((x, keep + ((i,) if t else ())))
        work = nxt
    for s, keep in work:
        w = I.load(s, p.root, p.path)
        I.store(s, p.root, p.path, Arr(tuple(w.f[i] for i in keep), "vec"))
    return [(s, UNIT) for s, _ in work]


@nat(VEC + r"(truncate|reserve|shrink_to_fit|clear|reserve_exact)")
def _vec_misc(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    v = I.load(st, p.root, p.path)
    if nm.endswith("clear"):
        I.store(st, p.root, p.path, Arr((), "vec"))
    elif nm.endswith("truncate"):
        n = st.norm(I.num(st, a[1]))
        if not n.is_const():
            return None
        I.store(st, p.root, p.path, Arr(v.f[:n.c], "vec"))
    return [(st, UNIT)]


@nat(VEC + r"len", VEC + r"is_empty")
def _vec_len(I, st, c, a, sp, dty, nm):
    v = val(I, st, a[0])
    if not isinstance(v, Arr):
        return None
    return [(st, K(len(v.f)) if nm.endswith("len") else ("c", not v.f))]


def elem_ty(I, dty):
    t = I.T(dty)
    if t["k"] in ("ref", "ptr"):
        t = I.T(t["e"])
    return t.get("e")


@nat(VEC + r"(as_slice|as_mut_slice)", r"<std::vec::Vec<T, A> as std::ops::(Deref|DerefMut)>::deref(_mut)?", r"<std::vec::Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref", r"<std::vec::Vec<T, A> as std::borrow::Borrow<\[T\]>>::borrow")
def _vec_deref(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    v = I.load(st, p.root, p.path)
    if not isinstance(v, Arr):
        return None
    return [(st, SliceV(p.root, p.path, ZERO, K(len(v.f)), elem_ty(I, dty), "s"))]


@nat(r"<std::vec::Vec<T, A> as std::ops::(Index|IndexMut)<I>>::index(_mut)?")
def _vec_index(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    v = I.load(st, p.root, p.path)
    if not isinstance(v, Arr) or not isinstance(a[1], Lin):
        if isinstance(v, Arr):
            s = SliceV(p.root, p.path, ZERO, K(len(v.f)), elem_ty(I, dty), "s")
            return natives._index(I, st, c, [s, a[1]], sp, dty, nm)
        return None
    out = []
    for s, ok in branch(st, ("and", I.cge(a[1]), I.cge(K(len(v.f) - 1) - a[1]))):
        if ok:
            out.append((s, Ptr(p.root, p.path + (("i", a[1]),))))
        else:
            I.panic("index out of bounds", sp, s)
    return out


@nat(r"<(&'a )?(mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", r"<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def _vec_into(I, st, c, a, sp, dty, nm):
    if isinstance(a[0], Ptr):
        p = rec(I, st, a[0])
        v = I.load(st, p.root, p.path)
        return [(st, It("iter", (SliceV(p.root, p.path, ZERO, K(len(v.f)), None, "s"),)))]
    if isinstance(a[0], Arr):
        return [(st, It("into", (a[0],)))]
    return None


@nat(r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", r"<std::collections::hash_map::IntoIter<K, V(, A)?> as std::iter::Iterator>::next")
def _into_next(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    it = I.load(st, p.root, p.path)
    if not isinstance(it, It):
        return None
    v = it.parts[0]
    if not v.f:
        return [(st, opt(I, dty, None))]
    I.store(st, p.root, p.path, It(it.kind, (Arr(v.f[1:], "vec"),)))
    return [(st, opt(I, dty, v.f[0]))]


@nat(r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint", r"<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", r"trait:core::iter::traits::iterator::Iterator::size_hint")
def _size_hint(I, st, c, a, sp, dty, nm):
    I.fid += 1
    t = I.T(dty)
    p = deref(I, st, a[0])
    it = I.load(st, p.root, p.path) if isinstance(p, Ptr) else p
    x = it.parts[0] if isinstance(it, It) and it.kind in ("iter", "into") and it.parts else None
    m = x.len if isinstance(x, SliceV) else K(len(x.f)) if isinstance(x, Arr) and it.kind == "into" else None
    if m is not None:
        return [(st, Tup((m, Adt(t["f"][1], 1, (m,)))))]
    n = var("hint%d" % I.fid, 0, USIZE_MAX)
    return [(st, Tup((ZERO, Adt(t["f"][1], 0, ()))))]


@nat(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::__iterator_get_unchecked")
def _iter_get(I, st, c, a, sp, dty, nm):
    p = deref(I, st, a[0])
    it = I.load(st, p.root, p.path) if isinstance(p, Ptr) else p
    x = it.parts[0] if isinstance(it, It) and it.kind == "iter" and it.parts else None
    return [(st, I.elem_ptr(st, x, I.num(st, a[1])))] if isinstance(x, SliceV) else None


@nat(r"<std::collections::(hash_map|hash::map)::Iter<'a, K, V> as std::iter::Iterator>::next", r"<std::collections::(hash_map|hash::map)::(Keys|Values)<'a, K, V> as std::iter::Iterator>::next", r"<std::collections::(hash_set|hash::set)::Iter<.*> as std::iter::Iterator>::next")
def _map_next(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    it = I.load(st, p.root, p.path)
    if not isinstance(it, It) or it.kind != "mapit":
        return None
    root, path, i, order, what = it.parts
    if i >= len(order):
        return [(st, opt(I, dty, None))]
    I.store(st, p.root, p.path, It("mapit", (root, path, i + 1, order, what)))
    i = order[i]
    k, v = Ptr(root, path + (("f", i, None), ("f", 0, None))), Ptr(root, path + (("f", i, None), ("f", 1, None)))
    return [(st, opt(I, dty, {"kv": Tup((k, v)), "k": k, "v": v, "s": k}[what]))]


def it_next(I, st, ity, slot, oty, sp):
    """one step of an iterator stored in a heap cell -> [(state, option value)]"""
    it = st.mem[slot.root]
    c = {"d": "core::iter::traits::iterator::Iterator::next", "tr": "core::iter::traits::iterator::Iterator::next"}
    if isinstance(it, It):
        if it.kind in NEXT:
            return NEXT[it.kind](I, st, c, [slot], sp, oty, "")
    t = I.T(ity)
    if t["k"] == "adt" and t["p"].endswith("ops::range::Range"):
        return natives._range_next(I, st, c, [slot], sp, oty, "")
    for pre in ("<%s as std::iter::Iterator>::next@" % t["s"],):
        for k in I.next_index().get(pre, ()):
            return I.call_body(st, k, [slot], sp)
    raise Give("next of " + t["s"])


def next_index(I):
    ix = getattr(I.p, "_next_ix", None)
    if ix is None:
        ix = I.p._next_ix = {}
        for k in I.p.fns:
            i = k.find("as std::iter::Iterator>::next@")
            if i > 0:
                ix.setdefault(k[:k.index("@", i) + 1], []).append(k)
    return ix


def drain(I, st, it, ity, oty, sp):
    """[(state, [items])]"""
    I.next_index = lambda: next_index(I)
    if isinstance(it, Ptr):
        slot = it
        t = I.T(ity)
        if t["k"] in ("ref", "ptr"):
            ity = t["e"]
    else:
        slot = heap(I, st, it)
    work, out = [(st, [])], []
    n = 0
    while work:
        st, acc = work.pop()
        n += 1
        if n > 4000:
            raise Give("iteration")
        for s, o in it_next(I, st, ity, slot, oty, sp):
            if not isinstance(o, Adt):
                raise Give("iterator item %r" % (o,))
            if o.var == 0:
                out.append((s, acc))
            else:
                work.append((s, acc + [o.f[0]]))
    return out


def opt_ty(I, item):
    """some Option type (only its variant structure is used)"""
    for i, t in enumerate(I.p.types):
        if t["k"] == "adt" and t["p"] == "core::option::Option" and (item is None or t["a"] and t["a"][0] == item):
            return i
    for i, t in enumerate(I.p.types):
        if t["k"] == "adt" and t["p"] == "core::option::Option":
            return i


@nat(r"<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", r"<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend", r"<std::string::String as std::iter::(FromIterator|Extend)<.*>>::(from_iter|extend)")
def _from_iter(I, st, c, a, sp, dty, nm):
    ext = nm.endswith("extend")
    it = a[1] if ext else a[0]
    ar = [x for x in c.get("a") or [] if isinstance(x, int)]
    ity = ar[-1] if ar else None
    if isinstance(it, Arr):
        it = It("into", (it,))
    if ity is None:
        raise Give("iterator type of " + nm)
    if isinstance(it, Ptr) and isinstance(val(I, st, it), Arr):
        p = rec(I, st, it)
        it = It("iter", (SliceV(p.root, p.path, ZERO, K(len(val(I, st, it).f)), None, "s"),))
    out = []
    for s, items in drain(I, st, it, ity, opt_ty(I, None), sp):
        if "string::String" in nm:
            ps = ()
            for x in items:
                x = val(I, s, x)
                ps += char_parts(s, x)
            v = ps
            if ext:
                p = rec(I, s, a[0])
                old = I.load(s, p.root, p.path)
                I.store(s, p.root, p.path, join(parts_of(old) + ps))
                out.append((s, UNIT))
            else:
                out.append((s, join(ps)))
        elif ext:
            p = rec(I, s, a[0])
            old = I.load(s, p.root, p.path)
            I.store(s, p.root, p.path, Arr(old.f + tuple(items), "vec"))
            out.append((s, UNIT))
        else:
            out.append((s, Arr(tuple(items), "vec")))
    return out


def char_parts(st, x):
    """the text of one character, of many (a chunk of abstract text) or of a string"""
    if isinstance(x, It) and x.kind == "chunk":
        return x.parts
    if isinstance(x, Lin):
        x = st.norm(x)
        return (chr(x.c).encode(),) if x.is_const() else (("chr", x),)
    return parts_of(x)


@nat(r"<T as std::iter::IntoIterator>::into_iter", r"<I as std::iter::IntoIterator>::into_iter")
def _into_iter_id(I, st, c, a, sp, dty, nm):
    return [(st, a[0])]


@nat(r"std::slice::<impl \[T\]>::(sort_by|sort_by_key|sort|sort_unstable|sort_unstable_by|sort_unstable_by_key)", r"core::slice::<impl \[T\]>::(sort_unstable|sort_unstable_by|sort_unstable_by_key)", r"(slice|alloc::slice|std::slice)::<impl \[T\]>::(sort.*)")
def _sort(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    n = s.len.c if s.len.is_const() else None
    if n is None or s.root[0] == "R":
        raise Give("sort")
    kind = nm.rsplit("::", 1)[1]
    work, out = [(st, [0][:n], 1)], []
    lt = ("ordering",)

    def less(st, i, j):
        """[(state, item i sorts strictly before item j)]"""
        pi, pj = I.elem_ptr(st, s, K(i)), I.elem_ptr(st, s, K(j))
        if kind.endswith("_by"):
            res = []
            for q, o in call_fn(I, st, a[1], [pi, pj], sp, None):
                res += [(q, ordering(I, q, o) < 0)]
            return res
        if kind.endswith("_by_key"):
            res = []
            for q, ki in call_fn(I, st, a[1], [pi], sp, None):
                for r, kj in call_fn(I, q, a[1], [pj], sp, None):
                    res += cmp_lt(I, r, ki, kj)
            return res
        return cmp_lt(I, st, val(I, st, pi), val(I, st, pj))

    while work:
        st, order, k = work.pop()
        if k >= n:
            root, path = s.root, s.path
            old = I.load(st, root, path)
            items = [old.f[s.off.c + i] for i in order]
            f = old.f[:s.off.c] + tuple(items) + old.f[s.off.c + n:]
            if root[0] != "C":
                I.store(st, root, path, old._replace(f=f))
            out.append((st, UNIT))
            continue
        # insertion of item k
        pos = [(st, len(order))]
        while pos:
            st, j = pos.pop()
            if j == 0:
                work.append((st, [k] + order, k + 1))
                continue
            for q, l in less(st, k, order[j - 1]):
                if l:
                    pos.append((q, j - 1))
                else:
                    work.append((q, order[:j] + [k] + order[j:], k + 1))
    return out


def ordering(I, st, o):
    if isinstance(o, Adt):
        return I.T(o.ty)["v"][o.var]["d"] if I.T(o.ty)["v"][o.var]["d"] < 128 else I.T(o.ty)["v"][o.var]["d"] - 256
    raise Give("ordering %r" % (o,))


def cmp_lt(I, st, x, y):
    x, y = val(I, st, x), val(I, st, y)
    if isinstance(x, Lin) and isinstance(y, Lin):
        return branch(st, I.cge(y - x - 1))
    bx, by = known(x), known(y)
    if bx is not None and by is not None:
        return [(st, bx < by)]
    if isinstance(x, (Tup, Arr, Adt)) and isinstance(y, (Tup, Arr, Adt)):
        res, work = [], [(st, 0)]
        if isinstance(x, Adt) and x.var != y.var:
            return [(st, x.var < y.var)]
        while work:
            s, i = work.pop()
            if i >= min(len(x.f), len(y.f)):
                res.append((s, len(x.f) < len(y.f)))
                continue
            for q, l in cmp_lt(I, s, x.f[i], y.f[i]):
                if l:
                    res.append((q, True))
                else:
                    for r, g in cmp_lt(I, q, y.f[i], x.f[i]):
                        if g:
                            res.append((r, False))
                        else:
                            work.append((r, i + 1))
        return res
    return branch(st, ("o", Term("lt", (x, y))))


def call_fn(I, st, f, args, sp, dty):
    ref = None
    while isinstance(f, Ptr):
        ref, f = f, I.load(st, f.root, f.path)
    if isinstance(f, Clo):
        return I.call_closure(st, f, args, sp, dty, ref)
    if isinstance(f, FnV):
        return I.call(st, f, args, sp, dty)
    raise Give("call of %r" % (f,))


# ------------------------------------------------------------------ maps

MAP = r"std::collections::(HashMap|BTreeMap)::<K, V(, [SA])?(, A)?>::"
SET = r"std::collections::(HashSet|BTreeSet)::<T(, [SA])?(, A)?>::"


@nat(MAP + "(new|with_capacity)", SET + "(new|with_capacity)", r"<std::collections::(HashMap|BTreeMap)<K, V(, [SA])?(, A)?> as std::default::Default>::default",
     r"<std::collections::(HashSet|BTreeSet)<T(, [SA])?(, A)?> as std::default::Default>::default")
def _map_new(I, st, c, a, sp, dty, nm):
    return [(st, Tup((), "map"))]


def find(I, st, p, key):
    """[(state, index or None)]"""
    m = I.load(st, p.root, p.path)
    if not isinstance(m, Tup):
        raise Give("map %r" % (m,))
    work, out = [(st, 0)], []
    while work:
        s, i = work.pop()
        if i >= len(m.f):
            out.append((s, None))
            continue
        for q, eq in branch(s, same(I, s, m.f[i].f[0], key)):
            if eq:
                out.append((q, i))
            else:
                work.append((q, i + 1))
    return out


@nat(MAP + "(get|get_mut|contains_key|get_key_value|remove)", SET + "contains")
def _map_get(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    out = []
    op = nm.rsplit("::", 1)[1]
    for s, i in find(I, st, p, a[1]):
        if op in ("contains_key", "contains"):
            out.append((s, ("c", i is not None)))
        elif i is None:
            out.append((s, opt(I, dty, None)))
        else:
            v = Ptr(p.root, p.path + (("f", i, None), ("f", 1, None)))
            if op == "get_key_value":
                v = Tup((Ptr(p.root, p.path + (("f", i, None), ("f", 0, None))), v))
            if op == "remove":
                m = I.load(s, p.root, p.path)
                v = m.f[i].f[1]
                I.store(s, p.root, p.path, Tup(m.f[:i] + m.f[i + 1:], "map"))
            out.append((s, opt(I, dty, v)))
    return out


@nat(MAP + "insert", SET + "insert")
def _map_insert(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    out = []
    iset = "Set" in nm
    v = UNIT if iset else a[2]
    for s, i in find(I, st, p, a[1]):
        m = I.load(s, p.root, p.path)
        if i is None:
            I.store(s, p.root, p.path, Tup(m.f + (Tup((a[1], v)),), "map"))
            out.append((s, TRUE if iset else opt(I, dty, None)))
        else:
            I.store(s, p.root, p.path, Tup(m.f[:i] + (Tup((m.f[i].f[0], v)),) + m.f[i + 1:], "map"))
            out.append((s, FALSE if iset else opt(I, dty, m.f[i].f[1])))
    return out


@nat(r"<std::collections::(HashMap|BTreeMap)<K, V(, [SA])?(, A)?> as std::iter::(FromIterator|Extend)<.*>>::(from_iter|extend)", r"<std::collections::(HashSet|BTreeSet)<T(, [SA])?(, A)?> as std::iter::(FromIterator|Extend)<.*>>::(from_iter|extend)")
def _map_from_iter(I, st, c, a, sp, dty, nm):
    ext, iset = nm.endswith("extend"), "Set" in nm
    it = a[1] if ext else a[0]
    ar = [x for x in c.get("a") or [] if isinstance(x, int)]
    if not ar:
        raise Give("iterator type of " + nm)
    if isinstance(it, Arr):
        it = It("into", (it,))
    out = []
    for s, items in drain(I, st, it, ar[-1], opt_ty(I, None), sp):
        p = rec(I, s, a[0]) if ext else heap(I, s, Tup((), "map"))
        work = [s]
        for x in items:
            nxt = []
            for q in work:
                args = [p, x] if iset else [p, x.f[0], x.f[1]]
                for r, i in find(I, q, p, args[1]):
                    m = I.load(r, p.root, p.path)
                    v = UNIT if iset else args[2]
                    f = m.f + (Tup((args[1], v)),) if i is None else m.f[:i] + (Tup((m.f[i].f[0], v)),) + m.f[i + 1:]
                    I.store(r, p.root, p.path, Tup(f, "map"))
                    nxt.append(r)
            work = nxt
        out += [(q, UNIT if ext else I.load(q, p.root, p.path)) for q in work]
    return out


@nat(MAP + "entry")
def _entry(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    return [(s, It("entry", (p, a[1], i))) for s, i in find(I, st, p, a[1])]


@nat(r"std::collections::(hash_map|btree_map|hash::map|btree::map::entry)::Entry::<'a, K, V(, A)?>::(or_insert|or_insert_with|or_default|and_modify)")
def _entry_or(I, st, c, a, sp, dty, nm):
    e = a[0]
    op = nm.rsplit("::", 1)[1]
    if not isinstance(e, It) or e.kind != "entry":
        return None
    p, key, i = e.parts
    slot = lambda i: Ptr(p.root, p.path + (("f", i, None), ("f", 1, None)))
    if op == "and_modify":
        return [(q, e) for q, _ in call_fn(I, st, a[1], [slot(i)], sp, None)] if i is not None else [(st, e)]
    if i is not None:
        return [(st, slot(i))]
    if op == "or_default":
        return None
    out = []
    for q, v in ([(st, a[1])] if op == "or_insert" else call_fn(I, st, a[1], [], sp, None)):
        m = I.load(q, p.root, p.path)
        I.store(q, p.root, p.path, Tup(m.f + (Tup((key, v)),), "map"))
        out.append((q, slot(len(m.f))))
    return out


@nat(MAP + "(len|is_empty)", SET + "(len|is_empty)")
def _map_len(I, st, c, a, sp, dty, nm):
    m = val(I, st, a[0])
    return [(st, K(len(m.f)) if nm.endswith("len") else ("c", not m.f))]


def hash_order(I, st, nm, n):
    if "Hash" in nm and n > 1 or "hash" in nm and n > 1:
        I.hash_iters = getattr(I, "hash_iters", set())
        I.hash_iters.add(I.stack[-1][0] if I.stack else "?")


def key_order(I, st, m):
    """[(state, order)] of an ordered table's items by their keys"""
    work, out = [(st, [], 0)], []
    while work:
        s, o, k = work.pop()
        if k >= len(m.f):
            out.append((s, tuple(o)))
            continue
        pos = [(s, len(o))]
        while pos:
            q, j = pos.pop()
            if j == 0:
                work.append((q, [k] + o, k + 1))
                continue
            for r, l in cmp_lt(I, q, m.f[k].f[0], m.f[o[j - 1]].f[0]):
                if l:
                    pos.append((r, j - 1))
                else:
                    work.append((r, o[:j] + [k] + o[j:], k + 1))
    return out


def permutation(I, n):
    """the order in which run I.order of the program meets the items of a hash table"""
    k = getattr(I, "order", None) or 0
    if not k or n < 2:
        return tuple(range(n))
    if n <= 4:
        ps = list(itertools.permutations(range(n)))
        return ps[-k % len(ps)]
    return tuple(range(n))[::-1] if k == 1 else tuple((i + k) % n for i in range(n))


@nat(MAP + "(iter|keys|values)", SET + "iter", r"<&'a std::collections::(HashMap|BTreeMap)<K, V(, [SA])?(, A)?> as std::iter::IntoIterator>::into_iter", r"<&'a std::collections::(HashSet|BTreeSet)<T(, [SA])?(, A)?> as std::iter::IntoIterator>::into_iter")
def _map_iter(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    m = I.load(st, p.root, p.path)
    hash_order(I, st, nm, len(m.f))
    op = nm.rsplit("::", 1)[1]
    orders = [(st, permutation(I, len(m.f)))] if "Hash" in nm else key_order(I, st, m)
    return [(s, It("mapit", (p.root, p.path, 0, order, "s" if "Set" in nm else {"keys": "k", "values": "v"}.get(op, "kv")))) for s, order in orders]


@nat(r"<std::collections::(HashMap|BTreeMap)<K, V(, [SA])?(, A)?> as std::iter::IntoIterator>::into_iter", MAP + "(into_iter|drain|into_keys|into_values)")
def _map_into(I, st, c, a, sp, dty, nm):
    m = val(I, st, a[0])
    hash_order(I, st, nm, len(m.f))
    # any order is possible: both directions are explored
    fwd = It("into", (Arr(tuple(m.f), "vec"),))
    if len(m.f) < 2:
        return [(st, fwd)]
    if nm.find("Hash") < 0:
        return [(s, It("into", (Arr(tuple(m.f[i] for i in o), "vec"),))) for s, o in key_order(I, st, m)]
    if getattr(I, "order", None) is not None:
        return [(st, It("into", (Arr(tuple(m.f[i] for i in permutation(I, len(m.f))), "vec"),)))]
    o = st.copy()
    k = var("order", 0, 1)
    return [(s, v) for ss, v in ((st.assume(("eq", k), True), fwd), (o.assume(("eq", k), False), It("into", (Arr(tuple(reversed(m.f)), "vec"),)))) for s in ss]


# ------------------------------------------------------------------ Rc, Box, Cell

@nat(r"std::(rc::Rc|boxed::Box|sync::Arc)::<T>::new")
def _rc_new(I, st, c, a, sp, dty, nm):
    return [(st, heap(I, st, a[0]))]


@nat(r"<std::(rc::Rc|boxed::Box|sync::Arc)<T(, A)?> as std::(ops::(Deref|DerefMut)|convert::AsRef<T>|borrow::Borrow<T>)>::(deref(_mut)?|as_ref|borrow)")
def _rc_deref(I, st, c, a, sp, dty, nm):
    v = a[0]
    x = I.load(st, v.root, v.path)
    if isinstance(x, (Ptr, SliceV)):
        return [(st, x)]
    return None


@nat(r"std::(rc::Rc|sync::Arc)::<T(, A)?>::ptr_eq", r"std::ptr::(eq|addr_eq)")
def _ptr_eq(I, st, c, a, sp, dty, nm):
    x, y = a
    if "ptr_eq" in nm:
        x, y = I.load(st, x.root, x.path), I.load(st, y.root, y.path)
    return [(st, ("c", x == y))]


@nat(r"std::(rc::Rc|sync::Arc)::<T(, A)?>::(try_unwrap|get_mut|unwrap_or_clone)")
def _rc_misc(I, st, c, a, sp, dty, nm):
    return None


@nat(r"std::cell::Cell::<T>::(set|get|replace)")
def _cell(I, st, c, a, sp, dty, nm):
    p = a[0]
    v = I.load(st, p.root, p.path)
    path = p.path
    while isinstance(v, Adt) and len(v.f) == 1:
        path = path + (("f", 0, None),)
        v = v.f[0]
    op = nm.rsplit("::", 1)[1]
    if op != "get":
        I.store(st, p.root, path, a[1])
    return [(st, UNIT if op == "set" else v)]


@nat(r"trait:core::clone::Clone::clone", r"trait:alloc::borrow::ToOwned::to_owned")
def _clone(I, st, c, a, sp, dty, nm):
    v = a[0]
    x = I.load(st, v.root, v.path) if isinstance(v, Ptr) else v
    if isinstance(x, (SliceV, Ptr, Lin)):
        return [(st, x)]
    if isinstance(x, (Arr, Tup)) and x.tag in ("vec", "map"):
        return [(st, x)]
    if isinstance(x, (Adt, It, Clo, Sy)) or isinstance(x, tuple):
        return [(st, x)]
    return None


# ------------------------------------------------------------------ strings

STR = r"(core::str|std::str|alloc::str)::<impl str>::"


@nat(r"<std::string::String as std::ops::(Deref|DerefMut)>::deref(_mut)?", r"std::string::String::(as_str|as_mut_str|into_boxed_str|as_bytes)",
     r"<(std::string::String|str) as std::convert::(AsRef|Into)<.*>>::(as_ref|into)", r"<std::string::String as std::borrow::Borrow<str>>::borrow",
     STR + r"(to_owned|to_string|into_string|into_boxed_str|as_ref)", r"<(str|std::string::String|T) as std::string::(ToString|SpecToString)>::(to_string|spec_to_string)",
     r"<std::string::String as std::convert::From<.*>>::from", r"<std::boxed::Box<str> as std::convert::From<.*>>::from", r"<T as std::convert::Into<U>>::into", r"<T as std::convert::From<T>>::from",
     r"std::borrow::Cow::<'_, B>::into_owned", r"<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", r"<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref",
     r"<std::path::(Path|PathBuf) as std::convert::AsRef<.*>>::as_ref", r"<std::ffi::OsStr as std::convert::AsRef<.*>>::as_ref")
def _str_id(I, st, c, a, sp, dty, nm):
    v = val(I, st, a[0])
    if isinstance(v, Adt) and I.T(v.ty)["p"].endswith("borrow::Cow"):
        v = val(I, st, v.f[0])
    if isinstance(v, SliceV):
        if v.kind != "str" and not nm.endswith("as_bytes"):
            return None
        return [(st, v._replace(kind="s") if nm.endswith("as_bytes") else v)]
    if isinstance(v, Lin) and "to_string" in nm:
        v = st.norm(v)
        return [(st, text(str(v.c)) if v.is_const() else join((("num", v),)))]
    return None


@nat(r"std::string::String::(new|with_capacity)", r"<std::string::String as std::default::Default>::default")
def _string_new(I, st, c, a, sp, dty, nm):
    return [(st, text(b""))]


@nat(r"std::string::String::(push_str|push|clear)", r"<std::string::String as std::fmt::Write>::write_str", r"<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def _push_str(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    v = I.load(st, p.root, p.path)
    if nm.endswith("clear"):
        r = text(b"")
    else:
        x = val(I, st, a[1])
        r = join(parts_of(v) + char_parts(st, x))
    I.store(st, p.root, p.path, r)
    return [(st, UNIT if "write_str" not in nm else Adt(dty, 0, (UNIT,)))]


@nat(r"<std::string::String as std::ops::Add<&str>>::add")
def _str_add(I, st, c, a, sp, dty, nm):
    return [(st, join(parts_of(val(I, st, a[0])) + parts_of(val(I, st, a[1]))))]


@nat(r"std::string::String::(len|is_empty)", STR + r"(len|is_empty)")
def _str_len(I, st, c, a, sp, dty, nm):
    v = val(I, st, a[0])
    if not isinstance(v, SliceV):
        return None
    return [(st, v.len if nm.endswith("len") else I.ceq(v.len))]


@nat(r"trait:core::cmp::PartialEq::(eq|ne)")
def _eq(I, st, c, a, sp, dty, nm):
    x, y = val(I, st, a[0]), val(I, st, a[1])
    if isinstance(x, SliceV) and isinstance(y, SliceV) and (x.kind == "str" or y.kind == "str"):
        r = same(I, st, x, y)
    elif isinstance(x, Adt) and isinstance(y, Adt) and x.ty == y.ty:
        if x.var != y.var:
            r = FALSE
        elif not x.f and not y.f:
            r = TRUE
        elif len(x.f) == 1 and isinstance(val(I, st, x.f[0]), (SliceV, Lin)):
            r = same(I, st, x.f[0], y.f[0])
        else:
            return None
    else:
        return None
    ne = (c.get("tr") or "").endswith("::ne")
    return [(st, neg(r) if ne else r)]


@nat(STR + r"parse")
def _parse(I, st, c, a, sp, dty, nm):
    s = val(I, st, a[0])
    t = I.T(dty)
    it = t["a"][0]
    if not I.is_int(it):
        raise Give("parse")
    lo, hi = I.int_range(it)
    b = known(s)
    if b is not None:
        m = re.fullmatch(rb"[+-]?[0-9]+", b)
        if not m or (b[:1] == b"-" and lo == 0) or not lo <= int(b) <= hi:
            return [(st, Adt(dty, 1, (I.mk(I.T(dty)["v"][1]["f"][0][1], "parse_error"),)))]
        return [(st, Adt(dty, 0, (K(int(b)),)))]
    ps = parts_of(s)
    if len(ps) == 1 and not isinstance(ps[0], bytes) and ps[0][0] == "num":
        x = ps[0][1]
        out = []
        for q, ok in branch(st, ("and", I.cge(x - lo), I.cge(K(hi) - x))):
            out.append((q, Adt(dty, 0, (x,)) if ok else Adt(dty, 1, (I.mk(I.T(dty)["v"][1]["f"][0][1], "parse_error"),))))
        return out
    raise Give("parse of abstract text")


@nat(STR + r"(split|rsplit|split_terminator|lines|split_once|rsplit_once|trim|trim_start|trim_end|starts_with|ends_with|contains|find|rfind|strip_prefix|strip_suffix|replace|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|repeat|split_whitespace|splitn|trim_start_matches|trim_end_matches|trim_matches)")
def _str_ops(I, st, c, a, sp, dty, nm):
    op = nm.rsplit("::", 1)[1]
    b = known(val(I, st, a[0]))

    def pat(x):
        x = val(I, st, x)
        if isinstance(x, Lin):
            x = st.norm(x)
            return chr(x.c).encode() if x.is_const() else None
        return known(x) if isinstance(x, SliceV) else None
    if b is None:
        if op == "replace":
            p, r = pat(a[1]), pat(a[2])
            ps = parts_of(val(I, st, a[0]))
            if p is not None and r is not None and all(isinstance(x, bytes) or x[0] == "num" for x in ps) and not re.search(rb"[0-9]", p):
                return [(st, join([x.replace(p, r) if isinstance(x, bytes) else x for x in ps]))]
        if op in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
            f = "lower" if "lower" in op else "upper"
            return [(st, join([getattr(x, f)() if isinstance(x, bytes) and x.isascii() else x if x[0] == "num" else (f, "ascii" in op, x) for x in parts_of(val(I, st, a[0]))]))]
        raise Give("string operation on abstract text: " + op)
    if op in ("trim", "trim_start", "trim_end"):
        return [(st, text({"trim": b.strip, "trim_start": b.lstrip, "trim_end": b.rstrip}[op]()))]
    if op in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
        if "ascii" in op or b.isascii():
            return [(st, text(b.lower() if "lower" in op else b.upper()))]
        return [(st, text((b.decode("utf8").lower() if "lower" in op else b.decode("utf8").upper()).encode()))]
    if op in ("lines", "split_whitespace"):
        if op == "lines":
            x = [l[:-1] if l.endswith(b"\r") and i < b.count(b"\n") else l for i, l in enumerate(b.split(b"\n"))]
            x = x[:-1] if not x[-1] else x
        else:
            x = b.split()
        return [(st, It("split", (tuple(x),)))]
    if op == "repeat":
        n = st.norm(I.num(st, a[1]))
        return [(st, text(b * n.c))] if n.is_const() else None
    p = pat(a[-1]) if op not in ("replace",) else pat(a[1])
    if op == "splitn":
        n = st.norm(I.num(st, a[1]))
        return [(st, It("split", (tuple(b.split(p, n.c - 1)),)))]
    if p is None:
        raise Give("pattern")
    if op in ("trim_start_matches", "trim_end_matches", "trim_matches"):
        while p and op != "trim_end_matches" and b.startswith(p):
            b = b[len(p):]
        while p and op != "trim_start_matches" and b.endswith(p):
            b = b[:len(b) - len(p)]
        return [(st, text(b))]
    if op == "replace":
        r = pat(a[2])
        return [(st, text(b.replace(p, r)))]
    if op in ("split", "rsplit"):
        x = b.split(p)
        return [(st, It("split", (tuple(x if op == "split" else x[::-1]),)))]
    if op == "split_terminator":
        x = b.split(p)
        return [(st, It("split", (tuple(x[:-1] if x and not x[-1] else x),)))]
    if op in ("starts_with", "ends_with", "contains"):
        return [(st, ("c", {"starts_with": b.startswith, "ends_with": b.endswith, "contains": lambda q: q in b}[op](p)))]
    if op in ("find", "rfind"):
        i = b.find(p) if op == "find" else b.rfind(p)
        return [(st, opt(I, dty, None if i < 0 else K(i)))]
    if op in ("strip_prefix", "strip_suffix"):
        ok = b.startswith(p) if op == "strip_prefix" else b.endswith(p)
        return [(st, opt(I, dty, text(b[len(p):] if op == "strip_prefix" else b[:len(b) - len(p)]) if ok else None))]
    if op in ("split_once", "rsplit_once"):
        if p not in b:
            return [(st, opt(I, dty, None))]
        x, y = b.split(p, 1) if op == "split_once" else b.rsplit(p, 1)
        return [(st, opt(I, dty, Tup((text(x), text(y)))))]
    return None


@nat(r"<(std|core)::str::(Split|RSplit|Lines|SplitWhitespace|SplitN|SplitTerminator|iter::.*)<.*> as std::iter::Iterator>::next", r"<std::str::(Lines|SplitWhitespace).* as std::iter::Iterator>::next")
def _split_next(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    it = I.load(st, p.root, p.path)
    if not isinstance(it, It) or it.kind != "split":
        return None
    x = it.parts[0]
    if not x:
        return [(st, opt(I, dty, None))]
    I.store(st, p.root, p.path, It("split", (x[1:],)))
    return [(st, opt(I, dty, text(x[0])))]


# ------------------------------------------------------------------ formatting

@nat(r"core::fmt::rt::Argument::<'_>::new_(display|debug|lower_hex|upper_hex|binary|pointer)")
def _fmt_arg(I, st, c, a, sp, dty, nm):
    return [(st, Adt(dty, 0, (It("fmt", (nm.rsplit("_", 1)[1], a[0])),)))]


@nat(r"std::fmt::Arguments::<'a>::(new|new_v1|new_const|from_str|from_str_nonconst)", r"core::fmt::rt::<impl std::fmt::Arguments<'_>>::(new.*|from_str.*)", r"core::fmt::rt::<impl std::fmt::Arguments<'a>>::.*")
def _fmt_new(I, st, c, a, sp, dty, nm):
    return [(st, It("args", tuple(a)))]


def show(I, st, it):
    """[(state, text)] of a fmt::Arguments value"""
    if not isinstance(it, It) or it.kind != "args":
        raise Give("format arguments %r" % (it,))
    s0 = it.parts[0]
    if isinstance(s0, SliceV):
        return [(st, s0)]
    tmpl = val(I, st, s0)
    b = bytes(x.c for x in tmpl.f)
    args = []
    if len(it.parts) > 1:
        args = [x for x in val(I, st, it.parts[1]).f]
    i, k, parts = 0, 0, []
    while True:
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(b[i:i + n])
            i += n
        elif n == 0x80:
            m = b[i] | b[i + 1] << 8
            parts.append(b[i + 2:i + 2 + m])
            i += 2 + m
        else:
            if n & 0x37:
                if n & ~0xc8:
                    raise Give("format options")
            if n & 8:
                k = b[i] | b[i + 1] << 8
                i += 2
            parts.append(args[k])
            k += 1
    work = [(st, [])]
    for p in parts:
        nxt = []
        for s, acc in work:
            if isinstance(p, bytes):
                nxt.append((s, acc + [p]))
                continue
            kind, v = p.f[0].parts
            for q, t in display(I, s, kind, v):
                nxt.append((q, acc + list(parts_of(t))))
        work = nxt
    return [(s, join(acc)) for s, acc in work]


def display(I, st, kind, v):
    if kind == "pointer":
        return [(st, SliceV(("T", (("nondet", "address", getattr(I, "order", 0)),)), (), ZERO, var("plen", 1, 40), None, "str"))]
    x = val(I, st, v)
    if isinstance(x, Adt) and I.T(x.ty)["p"].endswith("borrow::Cow"):
        x = val(I, st, x.f[0])
    if isinstance(x, SliceV) and x.kind == "str" and kind == "display":
        return [(st, x)]
    if isinstance(x, Lin):
        x = st.norm(x)
        if x.is_const() and kind == "display":
            return [(st, text(str(x.c)))]
        return [(st, join(((("num", x) if kind == "display" else ("opaque", (kind, x))),)))]
    if isinstance(x, Term) and x.op in ("now", "span", "randomstate"):
        return [(st, SliceV(("T", (("nondet", x.op, x.args[0]),)), (), ZERO, var("flen%r" % (x,), 1, 400), None, "str"))]
    if isinstance(x, Term):
        return [(st, SliceV(("T", (("float", x, kind),)), (), ZERO, var("flen%r" % (x,), 1, 400), None, "str"))]
    if kind == "debug":
        b = known(x) if isinstance(x, SliceV) and x.kind == "str" else None
        if b is not None and all(32 <= y < 127 for y in b):
            return [(st, text(b'"' + b.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'))]
        return [(st, SliceV(("T", (("debug", digest(x)),)), (), ZERO, var("dlen" + digest(x), 0, 4000), None, "str"))]
    # a user's Display: some text which depends on the value only
    return [(st, SliceV(("T", (("shown", digest(x)),)), (), ZERO, var("dlen" + digest(x), 0, 4000), None, "str"))]


@nat(r"std::fmt::format", r"alloc::fmt::format", r"alloc::fmt::format::format_inner", r"std::fmt::format::format_inner")
def _format(I, st, c, a, sp, dty, nm):
    return show(I, st, val(I, st, a[0]))


@nat(r"std::hint::must_use")
def _must_use(I, st, c, a, sp, dty, nm):
    return [(st, a[0])]


@nat(r"std::io::_e?print", r"std::io::stdio::_e?print")
def _print(I, st, c, a, sp, dty, nm):
    if not getattr(I, "record", False):
        return [(st, UNIT)]
    import natives_gen
    out = []
    for s, t in show(I, st, val(I, st, a[0])):
        natives_gen.effect(s, "eprint" if nm.endswith("_eprint") else "print", t)
        out.append((s, UNIT))
    return out


# ------------------------------------------------------------------ floats

@nat(r"(core|std)::f(64|32)::<impl f(64|32)>::(is_finite|is_nan|is_infinite)")
def _f_class(I, st, c, a, sp, dty, nm):
    x = a[0]
    return [(st, ("o", Term(nm.rsplit("::", 1)[1], (x,))))]


# ------------------------------------------------------------------ folds over modelled iterators

def self_item(I, c):
    ar = [x for x in c.get("a") or [] if isinstance(x, int)]
    return ar[0] if ar else None


@nat(r"core::slice::<impl \[T\]>::windows")
def _windows(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    n = st.norm(I.num(st, a[1]))
    if not n.is_const() or not s.len.is_const():
        raise Give("windows")
    if n.c == 0:
        I.panic("panic: window size zero", sp, st)
        return []
    return [(st, It("wins", tuple(s._replace(off=s.off + i, len=n) for i in range(max(0, s.len.c - n.c + 1)))))]


@nat(r"<std::slice::Windows<'a, T> as std::iter::Iterator>::next")
def _wins_next(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    it = I.load(st, p.root, p.path)
    if not isinstance(it, It):
        return None
    if not it.parts:
        return [(st, opt(I, dty, None))]
    I.store(st, p.root, p.path, It("wins", it.parts[1:]))
    return [(st, opt(I, dty, it.parts[0]))]


@nat(r"<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back")
def _into_back(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    it = I.load(st, p.root, p.path)
    v = it.parts[0]
    if not v.f:
        return [(st, opt(I, dty, None))]
    I.store(st, p.root, p.path, It(it.kind, (Arr(v.f[:-1], "vec"),)))
    return [(st, opt(I, dty, v.f[-1]))]


@nat(r"trait:core::iter::traits::exact_size::ExactSizeIterator::len")
def _it_len(I, st, c, a, sp, dty, nm):
    it = val(I, st, a[0])
    if isinstance(it, It) and it.kind in ("into", "split"):
        x = it.parts[0]
        return [(st, K(len(x.f) if isinstance(x, Arr) else len(x)))]
    return None


@nat(r"std::cell::Cell::<T>::new")
def _cell_new(I, st, c, a, sp, dty, nm):
    return [(st, Adt(dty, 0, (Adt(I.T(dty)["v"][0]["f"][0][1], 0, (a[0],)),)))]


NEXT = {"iter": natives._iter_next, "bytes": natives._iter_next, "into": _into_next, "mapit": _map_next, "split": _split_next, "wins": _wins_next}


@nat(r"trait:core::iter::traits::iterator::Iterator::(find|any|all|find_map|position)")
def _search(I, st, c, a, sp, dty, nm):
    op = c["tr"].rsplit("::", 1)[1]
    slot = rec(I, st, a[0]) if isinstance(a[0], Ptr) else None
    it = I.load(st, slot.root, slot.path) if slot else a[0]
    if not isinstance(it, It) or it.kind not in NEXT:
        return None
    if slot is None:
        slot = heap(I, st, it)
    f = a[1] if isinstance(a[1], Ptr) else heap(I, st, a[1])
    cc = {"d": "", "tr": "core::iter::traits::iterator::Iterator::next"}
    oty = opt_ty(I, None)
    out, work = [], [(st, 0)]
    while work:
        s, k = work.pop()
        for q, o in NEXT[it.kind](I, s, cc, [slot], sp, oty, ""):
            if o.var == 0:
                out.append((q, {"any": FALSE, "all": TRUE}[op] if op in ("any", "all") else opt(I, dty, None)))
                continue
            x = o.f[0]
            arg = heap(I, q, x) if op == "find" else x
            for r, v in call_fn(I, q, f, [arg], sp, dty if op == "find_map" else None):
                if op == "find_map":
                    if isinstance(v, Adt):
                        if v.var:
                            out.append((r, v))
                        else:
                            work.append((r, k + 1))
                        continue
                    raise Give("find_map result")
                for z, t in branch(r, I.cond(r, v)):
                    if op == "any" and t:
                        out.append((z, TRUE))
                    elif op == "all" and not t:
                        out.append((z, FALSE))
                    elif op == "find" and t:
                        out.append((z, opt(I, dty, x)))
                    elif op == "position" and t:
                        out.append((z, opt(I, dty, K(k))))
                    else:
                        work.append((z, k + 1))
    return out


@nat(r"trait:core::iter::traits::iterator::Iterator::(try_fold|fold|for_each|count|last|nth)")
def _folds(I, st, c, a, sp, dty, nm):
    op = c["tr"].rsplit("::", 1)[1]
    slot = a[0]
    if isinstance(slot, Ptr):
        slot = rec(I, st, slot)
        it = I.load(st, slot.root, slot.path)
    else:
        it = slot
    if not isinstance(it, It) or it.kind not in NEXT:
        return None
    if not isinstance(a[0], Ptr):
        slot = heap(I, st, it)
    ity = self_item(I, c)
    oty = opt_ty(I, None)

    def nexts(st):
        I.next_index = lambda: next_index(I)
        cc = {"d": "", "tr": "core::iter::traits::iterator::Iterator::next"}
        return NEXT[it.kind](I, st, cc, [slot], sp, oty, "")

    out = []
    if op == "nth":
        n = st.norm(I.num(st, a[1]))
        if not n.is_const():
            raise Give("nth")
        work = [(st, n.c)]
        while work:
            s, k = work.pop()
            for q, o in nexts(s):
                if o.var == 0 or k == 0:
                    out.append((q, Adt(dty, o.var, o.f)))
                else:
                    work.append((q, k - 1))
        return out
    if op in ("count", "last"):
        work = [(st, ZERO, opt(I, dty, None))]
        while work:
            s, n, l = work.pop()
            for q, o in nexts(s):
                if o.var == 0:
                    out.append((q, n if op == "count" else l))
                else:
                    work.append((q, n + 1, Adt(dty, 1, o.f) if op == "last" else l))
        return out
    if op == "for_each":
        work = [st]
        while work:
            s = work.pop()
            for q, o in nexts(s):
                if o.var == 0:
                    out.append((q, UNIT))
                else:
                    work += [r for r, _ in call_fn(I, q, a[1], [o.f[0]], sp, None)]
        return out
    fslot = a[2]
    if not isinstance(fslot, Ptr):
        fslot = heap(I, st, fslot)
    work = [(st, a[1])]
    n = 0
    while work:
        s, acc = work.pop()
        n += 1
        if n > 4000:
            raise Give("fold")
        for q, o in nexts(s):
            if o.var == 0:
                out.append((q, acc if op == "fold" else from_output(I, dty, acc)))
                continue
            for r, v in call_fn(I, q, fslot, [acc, o.f[0]], sp, dty if op != "fold" else None):
                if op == "fold":
                    work.append((r, v))
                    continue
                if isinstance(v, Sy):
                    for j in range(len(I.T(v.ty)["v"])):
                        z = r.copy()
                        if z.facts.setdefault(v.name, j) == j:
                            x = I.expand(v.ty, v.name, j)
                            step_try(I, z, x, out, work)
                else:
                    step_try(I, r, v, out, work)
    return out


def good_variant(I, ty):
    p = I.T(ty)["p"]
    if p == "core::option::Option":
        return 1
    if p in ("core::result::Result", "core::ops::control_flow::ControlFlow"):
        return 0
    raise Give("Try type " + p)


def from_output(I, ty, v):
    return Adt(ty, good_variant(I, ty), (v,))


def step_try(I, st, v, out, work):
    if v.var == good_variant(I, v.ty):
        work.append((st, v.f[0]))
    else:
        out.append((st, v))
