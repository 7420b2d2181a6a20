"""Contracts that replace calls the analysis treats modularly: the codec of "any
item" / "any prefix" in the runtime harness, and nested messages and unions in
generated code (each of which is analysed as a root of its own)."""
import numdom as N
from numdom import Lin, K, ZERO, var
from interp import (SliceV, Ptr, Adt, Sy, Tup, Arr, Clo, FnV, Term, It, UNIT, TRUE, FALSE, Give, ISIZE_MAX, USIZE_MAX)
import natives

# a foreign FromSlice may report a size beyond the bytes it was given
WILD = False

FS = "FromSlice::from_slice"
FSO = "FromSliceWithOffsets::from_slice_with_offsets"
WT = "WriteTo::write_to"


def slice_key(st, s):
    return (s.root, s.path, st.norm(s.off), st.norm(s.len))


def stub_impl(c):
    im = c.get("impl") or ""
    return im.split("<")[0].strip() if im.startswith("stub::") else None


def ok_err(I, dty):
    """(payload type of Ok, payload type of Err)"""
    t = I.T(dty)
    return t["v"][0]["f"][0][1], t["v"][1]["f"][0][1]


def decode(I, st, name, s, dty, with_off):
    """Err, or Ok(message of size <= available bytes); a function of (type, slice)"""
    root, path, off, ln = slice_key(st, s)
    tag = "%s@%s%s+%r/%r" % (name, root, path if path else "", off, ln)
    okt, errt = ok_err(I, dty)
    fact = ("decodes", name, root, path, off, ln)
    known = st.facts.get(fact)
    out = []
    if known is not False:
        a = st.copy()
        a.facts[fact] = True
        size = I.app(var("size:" + tag, 0, ISIZE_MAX), ("size", name, root), (off, ln))
        if WILD or a.add_ge(ln - size):
            mt = I.T(okt)
            fs = mt["v"][0]["f"]
            vals = []
            for i, f in enumerate(fs):
                if f[0] == "size":
                    vals.append(size)
                elif with_off:
                    tt = I.T(f[1])["f"]
                    vals.append(Tup((I.mk(tt[0], "val:" + tag), I.mk(tt[1], "offs:" + tag))))
                else:
                    vals.append(I.app(I.mk(f[1], "val:" + tag), ("val", name, root), (off, ln)))
            a.ev += (("dec", name, s._replace(off=off, len=ln), size),)
            out.append((a, Adt(dty, 0, (Adt(okt, 0, tuple(vals)),))))
    if known is not True:
        b = st.copy()
        b.facts[fact] = False
        b.g["failed"] = True
        b.ev += (("decerr", name, s._replace(off=off, len=ln)),)
        out.append((b, Adt(dty, 1, (I.mk(errt, "err:" + tag),))))
    return out


def key_of(I, st, v):
    v = natives.writer_of(I, st, v) if isinstance(v, Ptr) else v
    if isinstance(v, Lin):
        return st.norm(v)
    if isinstance(v, SliceV):
        return v._replace(off=st.norm(v.off), len=st.norm(v.len))
    return v


def encode(I, st, name, inp, out_w, span, dty):
    v = key_of(I, st, inp)
    w = natives.writer_of(I, st, out_w)
    okt, errt = ok_err(I, dty)
    if isinstance(w, Adt) and I.T(w.ty)["s"].endswith("OpaqueW"):
        ok, bad = st.copy(), st.copy()
        ok.ev += (("enc", name, v),)
        bad.ev += (("encerr", name, v),)
        bad.g["failed"] = True
        I.fid += 1
        return [(ok, Adt(dty, 0, (UNIT,))), (bad, Adt(dty, 1, (I.mk(errt, "err%d" % I.fid),)))]
    # a writer implemented in the analysed code: hand it bytes of unknown number
    tag = "%s(%r)" % (name, v)
    ln = var("enclen:" + tag, 0, ISIZE_MAX)
    bad = st.copy()
    bad.ev += (("encerr", name, v),)
    bad.g["failed"] = True
    bad.g["codec_failed"] = True
    I.fid += 1
    res = [(bad, Adt(dty, 1, (I.mk(errt, "err%d" % I.fid),)))]
    st.ev += (("enc", name, v, ln),)
    cw = find_write(I, w)
    data = SliceV(("R", "bytes:" + tag), (), ZERO, ln, None, "s")
    p = out_w
    while isinstance(p, Ptr) and isinstance(I.load(st, p.root, p.path), Ptr):
        p = I.load(st, p.root, p.path)
    if not isinstance(p, Ptr):
        I.fid += 1
        st.mem[("H", I.fid)] = w
        p = Ptr(("H", I.fid), ())
    for s, r in I.call_body(st, cw, [p, data], span):
        if isinstance(r, Adt) and r.var == 0:
            res.append((s, Adt(dty, 0, (UNIT,))))
        elif isinstance(r, Adt):
            s.g["writer_failed"] = True
            I.fid += 1
            res.append((s, Adt(dty, 1, (I.mk(errt, "err%d" % I.fid),))))
        else:
            raise Give("writer result")
    return res


def find_write(I, w):
    """std's write_all instantiated for the writer type (it loops over write)"""
    if not isinstance(w, Adt):
        raise Give("writer %r" % (w,))
    ws = I.T(w.ty)["s"]
    for k, f in I.p.fns.items():
        if f.get("name") == "write_all" and f["argc"] == 2:
            t = I.T(f["locals"][1])
            if t["k"] == "ref" and I.T(t["e"])["s"] == ws:
                return k
    raise Give("write_all of " + ws)


def make_hook(contracted):
    """contracted(callee) -> name of the modular codec, or None"""
    def hook(I, st, c, args, span, dty):
        tr = c.get("tr")
        if not tr:
            return None
        if tr.endswith(FS) or tr.endswith(FSO) or tr.endswith(WT):
            nm = contracted(I, c)
            if nm is None:
                return None
            if tr.endswith(FSO):
                return decode(I, st, nm, natives.as_slice(I, st, args[0]), dty, True)
            if tr.endswith(FS):
                return decode(I, st, nm, natives.as_slice(I, st, args[0]), dty, False)
            return encode(I, st, nm, args[0], args[1], span, dty)
        if tr == "core::convert::From::from" and stub_impl(c) in ("stub::Opq", "stub::OpqM"):
            s = natives.as_slice(I, st, args[0])
            return [(st, Sy(dty, "from:%s%s+%r/%r" % slice_key(st, s)))]
        return None
    return hook


def harness_contracted(I, c):
    return stub_impl(c)
