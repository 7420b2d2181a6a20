"""Abstract semantics of what the code generator uses beyond the compiler:
joined text, boxed arrays, paths and the file system.  File system operations
succeed or fail freely and are recorded as effects of the path class."""
import natives
import natives_comp as NC
from natives import opt, as_slice
from natives_comp import nat, val, rec, heap, text, parts_of, join, known, drain, display, branch
from numdom import K, ZERO, var
from interp import SliceV, Ptr, Adt, Tup, Arr, Term, It, UNIT, TRUE, FALSE, Give

FX = ("H", "effects")


def effect(st, *e):
    v = st.mem.get(FX)
    st.mem[FX] = Arr((v.f if v is not None else ()) + (e,), "fx")


def effects(st):
    v = st.mem.get(FX)
    return v.f if v is not None else ()


# ------------------------------------------------------------------ vec![...]

@nat(r"std::boxed::Box::<T>::new_uninit")
def _new_uninit(I, st, c, a, sp, dty, nm):
    p = heap(I, st, Tup((UNIT, Tup((UNIT,)))))
    return [(st, Adt(dty, 0, (p, UNIT)))]


@nat(r"std::boxed::box_assume_init_into_vec_unsafe")
def _into_vec_unsafe(I, st, c, a, sp, dty, nm):
    b = a[0]
    p = b.f[0] if isinstance(b, Adt) else b
    v = I.load(st, p.root, p.path).f[1].f[0]
    return [(st, Arr(tuple(v.f), "vec"))] if isinstance(v, Arr) else None


@nat(r"std::slice::<impl \[T\]>::(to_vec|into_vec)")
def _to_vec(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    b = const(I, st, s)
    if b is not None:
        return [(st, Arr(tuple(K(x) for x in b), "vec"))]
    v = I.load(st, s.root, s.path)
    if isinstance(v, (Arr, Tup)) and s.off.is_const() and s.len.is_const():
        return [(st, Arr(tuple(v.f[s.off.c:s.off.c + s.len.c]), "vec"))]
    return None


# ------------------------------------------------------------------ joined text

def text_of(I, st, v):
    v = val(I, st, v)
    if isinstance(v, Adt) and I.T(v.ty)["p"].endswith("borrow::Cow"):
        v = val(I, st, v.f[0])
    if not isinstance(v, SliceV):
        raise Give("text of %r" % (v,))
    return v


def const(I, st, v):
    """the bytes of a slice of constants, or None"""
    s = as_slice(I, st, v)
    b = known(s)
    if b is not None:
        return b
    if s.root[0] in ("R", "T") or not s.off.is_const() or not s.len.is_const():
        return None
    x = I.load(st, s.root, s.path)
    if not isinstance(x, Arr):
        return None
    f = [st.norm(y) if isinstance(y, NC.Lin) else None for y in x.f[s.off.c:s.off.c + s.len.c]]
    if any(y is None or not y.is_const() or not 0 <= y.c < 256 for y in f):
        return None
    return bytes(y.c for y in f)


def joined(I, st, items, sep):
    out = ()
    for i, x in enumerate(items):
        if i:
            out += parts_of(sep)
        out += parts_of(x)
    return join(out)


@nat(r"itertools::Itertools::join")
def _it_join(I, st, c, a, sp, dty, nm):
    ity = NC.self_item(I, c)
    sep = text_of(I, st, a[1])
    it = a[0]
    if isinstance(it, Ptr):
        it = I.load(st, it.root, it.path)
    out = []
    for s, items in drain(I, st, it, ity, None, sp):
        ts = []
        for x in items:
            x = val(I, s, x)
            ts.append(text_of(I, s, x) if not isinstance(x, NC.Lin) else display(I, s, "display", x)[0][1])
        out.append((s, joined(I, s, ts, sep)))
    return out


@nat(r"std::slice::<impl \[T\]>::(join|concat)")
def _slice_join(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    sep = text_of(I, st, a[1]) if nm.endswith("join") else text(b"")
    if not s.len.is_const() or not s.off.is_const():
        return None
    v = I.load(st, s.root, s.path)
    return [(st, joined(I, st, [text_of(I, st, x) for x in v.f[s.off.c:s.off.c + s.len.c]], sep))]


@nat(r"std::string::<impl std::convert::From<(&'a str|&'a std::string::String|std::string::String)> for std::borrow::Cow<'a, str>>::from")
def _cow_from(I, st, c, a, sp, dty, nm):
    owned = "From<std::string::String>" in nm
    return [(st, Adt(dty, 1 if owned else 0, (val(I, st, a[0]) if owned else a[0] if isinstance(a[0], SliceV) else val(I, st, a[0]),)))]


@nat(r"std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow")
def _borrow(I, st, c, a, sp, dty, nm):
    return [(st, val(I, st, a[0]))]


@nat(r"core::slice::<impl \[T\]>::(starts_with|ends_with)")
def _slice_starts(I, st, c, a, sp, dty, nm):
    x, y = const(I, st, a[0]), const(I, st, a[1])
    if x is None or y is None:
        return None
    return [(st, ("c", x.startswith(y) if nm.endswith("starts_with") else x.endswith(y)))]


@nat(r"core::slice::<impl \[T\]>::(strip_prefix|strip_suffix)")
def _slice_strip(I, st, c, a, sp, dty, nm):
    x, y = const(I, st, a[0]), const(I, st, a[1])
    if x is None or y is None:
        return None
    pre = nm.endswith("strip_prefix")
    if not (x.startswith(y) if pre else x.endswith(y)):
        return [(st, NC.opt(I, dty, None))]
    s, n = as_slice(I, st, a[0]), len(y)
    return [(st, NC.opt(I, dty, s._replace(off=s.off + n if pre else s.off, len=s.len - n)))]


# ------------------------------------------------------------------ paths

@nat(r"<std::path::PathBuf as std::ops::Deref>::deref", r"std::path::<impl std::convert::AsRef<std::path::Path> for (str|std::string::String)>::as_ref", r"std::path::Path::(display|new|to_path_buf|as_os_str)",
     r"std::path::PathBuf::(as_path|from|into_os_string)", r"<std::path::PathBuf as std::convert::From<.*>>::from")
def _path_id(I, st, c, a, sp, dty, nm):
    v = val(I, st, a[0])
    return [(st, v)] if isinstance(v, SliceV) else None


@nat(r"std::path::Path::join")
def _path_join(I, st, c, a, sp, dty, nm):
    x, y = parts_of(text_of(I, st, a[0])), parts_of(text_of(I, st, a[1]))
    if y and isinstance(y[0], bytes) and y[0].startswith(b"/"):
        return [(st, join(y))]
    if y and not isinstance(y[0], bytes) or not x:
        raise Give("path")
    return [(st, join(x + ((b"" if isinstance(x[-1], bytes) and x[-1].endswith(b"/") else b"/"),) + y))]


# ------------------------------------------------------------------ the file system

def fallible(I, st, dty, ok, *e):
    """[(state, Ok(ok) or Err)]"""
    if getattr(I, "fs", "") == "ok":
        effect(st, *e)
        return [(st, Adt(dty, 0, (ok,)))]
    o = st.copy()
    effect(st, *e)
    effect(o, "failed", *e)
    t = I.T(dty)
    return [(st, Adt(dty, 0, (ok,))), (o, Adt(dty, 1, (I.mk(t["v"][1]["f"][0][1], "ioerr%d" % len(effects(o))),)))]


@nat(r"std::path::Path::(exists|is_dir|is_file)")
def _exists(I, st, c, a, sp, dty, nm):
    p = text_of(I, st, a[0])
    if getattr(I, "fs", "") == "ok":
        return [(st, TRUE if run_id(I) else FALSE)]
    return [(s, TRUE if t else FALSE) for s, t in branch(st, ("o", Term("exists", (p, K(len(effects(st)))))))]


@nat(r"std::fs::(create_dir|create_dir_all)")
def _create_dir(I, st, c, a, sp, dty, nm):
    return fallible(I, st, dty, UNIT, "mkdir", text_of(I, st, a[0]))


@nat(r"std::fs::write")
def _write(I, st, c, a, sp, dty, nm):
    return fallible(I, st, dty, UNIT, "write", text_of(I, st, a[0]), text_of(I, st, a[1]))


@nat(r"std::fs::(remove_file|remove_dir|remove_dir_all)")
def _remove(I, st, c, a, sp, dty, nm):
    return fallible(I, st, dty, UNIT, "remove", text_of(I, st, a[0]))


@nat(r"std::fs::read_to_string")
def _read(I, st, c, a, sp, dty, nm):
    p = text_of(I, st, a[0])
    n = "content%d" % len(effects(st))
    return fallible(I, st, dty, SliceV(("T", (("file", p),)), (), ZERO, var(n, 0, 1 << 40), None, "str"), "read", p)


@nat(r"std::env::(var|var_os)")
def _env(I, st, c, a, sp, dty, nm):
    p = text_of(I, st, a[0])
    e = getattr(I, "env", {}).get(known(p))
    return fallible(I, st, dty, text(e) if e else opaque_text(I, "env", p), "env", p)


# ------------------------------------------------------------------ what differs from run to run

def run_id(I):
    return getattr(I, "order", None) or 0


def opaque_text(I, *k):
    return SliceV(("T", (("nondet",) + k + (run_id(I),),)), (), ZERO, var("len!%s%d" % (k[0], run_id(I)), 0, 1 << 40), None, "str")


@nat(r"std::env::(current_dir|current_exe|home_dir)")
def _cwd(I, st, c, a, sp, dty, nm):
    return fallible(I, st, dty, opaque_text(I, nm), "env", text(nm))


@nat(r"std::env::temp_dir")
def _tmp(I, st, c, a, sp, dty, nm):
    return [(st, opaque_text(I, nm))]


@nat(r"std::time::(SystemTime|Instant)::now")
def _now(I, st, c, a, sp, dty, nm):
    return [(st, Term("now", (K(run_id(I)),)))]


@nat(r"std::time::(SystemTime|Instant)::(elapsed|duration_since)")
def _since(I, st, c, a, sp, dty, nm):
    d = Term("span", (K(run_id(I)),))
    return [(st, Adt(dty, 0, (d,)) if I.T(dty)["p"].endswith("Result") else d)]


@nat(r"(std|core)::time::Duration::(as_secs|as_millis|as_micros|as_nanos|subsec_nanos|subsec_micros|subsec_millis)")
def _secs(I, st, c, a, sp, dty, nm):
    v = val(I, st, a[0])
    return [(st, var("!time%d" % run_id(I), 0, 1 << 29))] if isinstance(v, Term) and v.op == "span" else None


@nat(r"std::process::id")
def _pid(I, st, c, a, sp, dty, nm):
    return [(st, var("!pid%d" % run_id(I), 1, 1 << 22))]


@nat(r"std::hash::RandomState::new", r"<std::hash::RandomState as std::default::Default>::default", r"std::collections::hash_map::RandomState::new")
def _rs(I, st, c, a, sp, dty, nm):
    return [(st, Term("randomstate", (K(run_id(I)),)))]


@nat(r"trait:core::hash::BuildHasher::(hash_one|build_hasher)")
def _rh(I, st, c, a, sp, dty, nm):
    v = val(I, st, a[0])
    if not isinstance(v, Term) or v.op != "randomstate":
        return None
    return [(st, var("!hash%d" % run_id(I), 0, (1 << 64) - 1) if c["tr"].endswith("hash_one") else v)]


@nat(r"trait:core::hash::Hasher::(finish|write.*)")
def _hf(I, st, c, a, sp, dty, nm):
    v = val(I, st, a[0])
    if not isinstance(v, Term) or v.op != "randomstate":
        return None
    return [(st, var("!hash%d" % run_id(I), 0, (1 << 64) - 1) if c["tr"].endswith("finish") else UNIT)]


# ------------------------------------------------------------------ schema files and the end of the process

@nat(r"json5::from_str", r"json5::de::from_str")
def _json5(I, st, c, a, sp, dty, nm):
    t = text_of(I, st, a[0])
    ps = parts_of(t)
    if len(ps) != 1 or isinstance(ps[0], bytes) or ps[0][0] != "file":
        raise Give("parsing %r" % (t,))
    f = known(ps[0][1])
    m = getattr(I, "models", {}).get(f)
    if m is None:
        raise Give("schema file %r" % (f,))
    return fallible(I, st, dty, m, "parse", ps[0][1])


@nat(r"std::process::exit")
def _exit(I, st, c, a, sp, dty, nm):
    effect(st, "exit", st.norm(a[0]))
    I.exits = getattr(I, "exits", [])
    I.exits.append(st)
    return []


# ------------------------------------------------------------------ constant byte slices

@nat(r"core::slice::<impl \[T\]>::(split|split_inclusive)")
def _split(I, st, c, a, sp, dty, nm):
    s = as_slice(I, st, a[0])
    b = known(s)
    if b is None:
        return None
    f = a[1] if isinstance(a[1], Ptr) else heap(I, st, a[1])
    dec = {}
    for x in sorted(set(b)):
        r = NC.call_fn(I, st, f, [heap(I, st, K(x))], sp, None)
        t = r[0][0].truth(I.cond(r[0][0], r[0][1])) if len(r) == 1 else None
        if t is None:
            raise Give("split on an abstract condition")
        dec[x] = t
    out, k = [], 0
    incl = nm.endswith("inclusive")
    for i, x in enumerate(b):
        if dec[x]:
            out.append((k, i + incl))
            k = i + 1
    if not incl or k < len(b):
        out.append((k, len(b)))
    return [(st, It("wins", tuple(s._replace(off=s.off + i, len=K(j - i)) for i, j in out)))]


@nat(r"<std::slice::Split(Inclusive)?<'_?[a-z]*, T, P> as std::iter::Iterator>::next")
def _split_step(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    it = I.load(st, p.root, p.path)
    if not isinstance(it, It):
        return None
    return NC.NEXT[it.kind](I, st, c, a, sp, dty, nm)


@nat(r"(core|std)::str::(converts::)?from_utf8")
def _from_utf8(I, st, c, a, sp, dty, nm):
    b = const(I, st, a[0])
    if b is None:
        return None
    try:
        b.decode()
    except UnicodeDecodeError:
        return [(st, Adt(dty, 1, (I.mk(I.T(dty)["v"][1]["f"][0][1], "utf8_error"),)))]
    s = as_slice(I, st, a[0])
    return [(st, Adt(dty, 0, (s._replace(kind="str", elem=None),)))]


# ------------------------------------------------------------------ compiling a constant template: once

_compiled = {}


def unchanged(a, b):
    return (a.rows, a.eqs, a.neqs, a.facts, a.imp, a.ev, a.sub) == (b.rows, b.eqs, b.neqs, b.facts, b.imp, b.ev, b.sub)


def plain(v):
    """a value without references into the heap of one run"""
    if isinstance(v, Ptr):
        return False
    if isinstance(v, SliceV):
        return v.root[0] == "S"
    if isinstance(v, (Adt, Tup, Arr)):
        return all(plain(x) for x in v.f)
    if hasattr(v, "caps"):
        return not v.caps
    return isinstance(v, tuple)


@nat(r"bp3d_protoc::gen::template::Template::<.*>::compile")
def _compile_template(I, st, c, a, sp, dty, nm):
    b = const(I, st, a[0]) if len(a) == 1 and isinstance(a[0], (SliceV, Ptr)) else None
    fn = c.get("fn")
    if b is None or fn not in I.p.fns:
        return None
    k = (id(I.p), fn, b)
    if k not in _compiled:
        n, u = len(I.panics), len(I.unknown_calls)
        q = st.copy()
        outs = I.call_body(q, fn, [text(b)._replace(kind="s")], sp)
        ok = len(outs) == 1 and len(I.panics) == n and len(I.unknown_calls) == u and unchanged(outs[0][0], st) and plain(outs[0][1])
        if not ok:
            _compiled[k] = None
            return outs
        _compiled[k] = outs[0][1]
    v = _compiled[k]
    return [(st, v)] if v is not None else None


# ------------------------------------------------------------------ characters of partly abstract text

@nat(r"(std|core)::str::<impl str>::chars")
def _chars(I, st, c, a, sp, dty, nm):
    s = val(I, st, a[0])
    if not isinstance(s, SliceV) or s.root[0] not in ("S", "T"):
        return None
    return [(st, It("chs", parts_of(s)))]


def first_char(parts):
    """(character, the parts behind it)"""
    p = parts[0]
    if isinstance(p, bytes):
        ch = p.decode()[0]
        n = len(ch.encode())
        return K(ord(ch)), ((p[n:],) if p[n:] else ()) + parts[1:]
    if p[0] == "chr":
        return p[1], parts[1:]
    return It("chunk", (p,)), parts[1:]


@nat(r"<std::str::Chars<'a> as std::iter::Iterator>::next")
def _chars_next(I, st, c, a, sp, dty, nm):
    p = rec(I, st, a[0])
    it = I.load(st, p.root, p.path)
    if not isinstance(it, It) or it.kind != "chs":
        return None
    if not it.parts:
        return [(st, opt(I, dty, None))]
    x, rest = first_char(it.parts)
    I.store(st, p.root, p.path, It("chs", rest))
    return [(st, opt(I, dty, x))]


@nat(r"std::str::Chars::<'a>::as_str")
def _chars_str(I, st, c, a, sp, dty, nm):
    it = val(I, st, a[0])
    return [(st, join(it.parts))] if isinstance(it, It) and it.kind == "chs" else None


@nat(r"(std|core)::char::methods::<impl char>::(to_ascii_uppercase|to_ascii_lowercase|is_ascii_lowercase|is_ascii_uppercase|is_uppercase|is_lowercase|is_ascii_alphabetic|is_ascii)")
def _char_ops(I, st, c, a, sp, dty, nm):
    op = nm.rsplit("::", 1)[1]
    x = val(I, st, a[0])
    if not isinstance(x, NC.Lin):
        return None
    x = st.norm(x)
    if x.is_const():
        ch = chr(x.c)
        r = {"to_ascii_uppercase": lambda: K(ord(ch.upper()) if ch.isascii() else x.c), "to_ascii_lowercase": lambda: K(ord(ch.lower()) if ch.isascii() else x.c),
             "is_ascii_lowercase": lambda: ("c", ch.isascii() and ch.islower()), "is_ascii_uppercase": lambda: ("c", ch.isascii() and ch.isupper()),
             "is_uppercase": lambda: ("c", ch.isupper()), "is_lowercase": lambda: ("c", ch.islower()), "is_ascii": lambda: ("c", ch.isascii()),
             "is_ascii_alphabetic": lambda: ("c", ch.isascii() and ch.isalpha())}[op]()
        return [(st, r)]
    lo, hi = x.rng()
    if lo is None or hi is None:
        return None
    low, up, asc = 97 <= lo and hi <= 122, 65 <= lo and hi <= 90, hi < 128
    other = asc and not any(lo <= y <= hi and chr(y).isalpha() for y in range(65, 123)) or lo > 127 and "ascii" in op
    if not (low or up or other):
        return None
    if op == "to_ascii_uppercase":
        return [(st, x - 32 if low else x)]
    if op == "to_ascii_lowercase":
        return [(st, x + 32 if up else x)]
    return [(st, ("c", {"is_ascii_lowercase": low, "is_lowercase": low, "is_ascii_uppercase": up, "is_uppercase": up, "is_ascii": asc, "is_ascii_alphabetic": low or up}[op]))]
