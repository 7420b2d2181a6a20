"""Compile-fail witnesses of the borrowing rules (C33).  Each witness is a pair of
programs which differ in the misuse only: the type and borrow checker has to accept
the proper one and to refuse the other for the reason given.  A pair whose proper
program is not accepted says nothing."""
import collections
import os
import re
import subprocess
import tempfile

import build
import checks_types
import contracts
import corpus as K
import rules
import rules_msg as M
import rules_runtime as R
from interp import SliceV, Adt, Tup, Arr, Ptr
from numdom import ZERO

LIFE = {"E0597", "E0716", "E0515", "E0505", "E0521", "E0310", "E0309", "E0495", "E0621", ""}
SHARED = {"E0502", "E0506", "E0499", "E0503", "E0505", "E0510"}
MUT = {"E0596", "E0594", "E0599", "E0277", "E0308", "E0271", "E0507"}
MOVED = {"E0382", "E0599", "E0277", "E0507", "E0505"}


def schema(end, name):
    E = K.enum_view("Kind")
    full = K.struct("Full", K.U("u8a", 8), K.U("u24a", 24), K.U("u3a", 3), K.S("s5a", 5), K.S("s16a", 16), K.F("ba", "boolean", 1), K.U("pad", 7), K.F("fa", "float", 32), K.F("da", "float", 64), K.U("ea", 8, view=E), K.U("eb", 4, view=E), K.U("pad1", 4),
                    K.F("ra", "float", 16, view={"type": "float-range", "min": -1.0, "max": 1.0}), K.F("ma", "float", 12, view={"type": "float-multiplier", "multiplier": 0.5}), K.U("pad2", 4),
                    K.U("arr8", 8, array_len=3), K.S("arr16", 16, array_len=4), K.F("arrf", "float", 32, array_len=2), K.ST("sub", "Sub"))
    return {"name": name, "endianness": end, "enums": [{"name": "Kind", "variants": {"A": 0, "B": 2, "C": 5}}],
            "structs": [K.struct("Sub", K.U("a", 8), K.U("b", 4), K.S("c", 4)), full, K.struct("Head", K.U("kind", 8, view=E), K.U("n", 8))],
            "unions": [K.union("Un", "Head.kind", K.case("Nothing", "A"), K.case("Subs", "B", "Sub"), K.case("Fulls", "C", "Full"))],
            "messages": [
                K.message("Text", K.string("z")), K.message("Vtext", K.string("v", 300)), K.message("Data", K.payload("p")), K.message("Items", K.item("s", "Sub"), K.lst("ar", "Sub", 40)),
                K.message("Opts", K.string("os", None, True), K.item("oi", "Sub", True), K.item("ot", "Text", True), K.string("ov", 90, True)),
                K.message("Inner", K.item("t", "Text"), K.item("d", "Sub"), K.item("v", "Vtext")), K.message("Lists", K.item("x", "Sub"), K.lst("li", "Text", 70)), K.message("Wraps", K.item("w", "Lists"), K.item("t", "Sub")),
                K.message("Uses", K.item("h", "Head"), K.union_f("un", "Un", "h")),
            ]}


# fields which borrow: message -> [field]
BORROWED = {"Text": ["z"], "Vtext": ["v"], "Data": ["p"], "Items": ["s", "ar"], "Opts": ["os", "oi", "ot", "ov"], "Inner": ["t", "d", "v"], "Lists": ["x", "li"], "Wraps": ["w", "t"], "Uses": ["h", "un"]}
# scalar fields of Full: name -> value of the view
SCALARS = {"u8a": "1", "u24a": "1", "u3a": "1", "s5a": "-1", "s16a": "-1", "ba": "true", "fa": "1.0", "da": "1.0", "ea": "Kind::A", "eb": "Kind::A", "ra": "0.5", "ma": "0.5"}
ARRAYS = {"arr8": "1", "arr16": "1", "arrf": "1.0"}


def witnesses():
    """[(label, proper program, misuse, codes)]; `@` is the name of the function"""
    out = []

    def body(label, good, bad, codes):
        out.append((label, "fn @() { %s }" % good, "fn @() { %s }" % bad, codes))

    def outlive(label, expr, buf="vec![0u8; 99]", mut=""):
        """`expr` of the buffer b"""
        body(label + " does not outlive its input", "let %sb = %s; let r; { r = %s; } keep(&r);" % (mut, buf, expr), "let r; { let %sb = %s; r = %s; } keep(&r);" % (mut, buf, expr), LIFE)

    def changed(label, expr, change="b[0] = 1;", buf="vec![0u8; 99]"):
        body(label + " keeps its input unchanged", "let mut b = %s; let r = %s; keep(&r); %s keep(&b);" % (buf, expr, change), "let mut b = %s; let r = %s; %s keep(&r); keep(&b);" % (buf, expr, change), SHARED)

    def longer(label, ty, expr, arg="b: &'a [u8]"):
        """the result is bound to the input for every lifetime"""
        out.append((label + " is bound to the lifetime of its input", "fn @<'a, 'l>(%s, _x: &'l u8) -> %s { %s }" % (arg, ty.replace("'?", "'a"), expr), "fn @<'a, 'l>(%s, _x: &'l u8) -> %s { %s }" % (arg, ty.replace("'?", "'l"), expr), LIFE))

    def both(label, expr, ty=None):
        outlive(label, expr)
        changed(label, expr)
        if ty:
            longer(label, ty, expr.replace("&b[..]", "b"))

    # decoders of the runtime
    strs = ["NullTerminatedString"] + ["VarcharString<Value%s<u%d>>" % (e, w) for e in ("LE", "BE") for w in (8, 16, 32)]
    for t in strs:
        both("the string of " + t, "<%s>::from_slice(&b[..]).ok().map(|m| m.into_inner())" % t, "Option<&'? str>")
        both("the optional string of " + t, "<Optional<%s>>::from_slice(&b[..]).ok().map(|m| m.into_inner())" % t, "Option<Option<&'? str>>")
    both("the payload of Buffer", "Buffer::from_slice(&b[..]).ok().map(|m| m.into_inner())", "Option<&'? [u8]>")
    both("the optional payload of Buffer", "<Optional<Buffer>>::from_slice(&b[..]).ok().map(|m| m.into_inner())", "Option<Option<&'? [u8]>>")
    for e in ("LE", "BE"):
        for w in (8, 32):
            p = "Value%s<u%d>" % (e, w)
            both("the array of " + p, "<Array<&[u8], %s, Sub<&[u8]>>>::from_slice(&b[..]).ok().map(|m| m.into_inner())" % p, "Option<Array<&'? [u8], %s, Sub<&'? [u8]>>>" % p)
            both("the list of " + p, "<List<&[u8], %s, Text>>::from_slice(&b[..]).ok().map(|m| m.into_inner())" % p, "Option<List<&'? [u8], %s, Text<'?>>>" % p)
            both("the trailing list of " + p, "<list::Unsized<%s, Text>>::from_slice(&b[..]).ok().map(|m| m.into_inner())" % p, "Option<List<&'? [u8], %s, Text<'?>>>" % p)
            for c, item in (("Array", "Sub<&[u8]>"), ("List", "Text")):
                ty = "%s<Vec<u8>, %s, %s>" % (c, p, item)
                mk = "unsafe { %s::<Vec<u8>, %s, %s>::from_raw_parts(vec![0; 30], 3) }" % (c, p, item)
                for how, ex in [("iterator", "b.iter()" if c == "List" else "b.iter::<Sub<&[u8]>>()"), ("item", "b.iter().next()" if c == "List" else "b.iter::<Sub<&[u8]>>().next()"), ("reference", "b.to_ref::<Sub<&[u8]>>()")] + \
                        ([("indexed item", "b.get::<Sub<&[u8]>>(0)")] if c == "Array" else [("offsets iterator", "b.iter_offsets()"), ("item with offsets", "b.iter_offsets().next()")]):
                    outlive("the %s of an owning %s of %s" % (how, c, p), ex, mk)
                    changed("the %s of an owning %s of %s" % (how, c, p), ex, "b = %s;" % mk, mk)
            mk = "unsafe { Array::<Vec<u8>, %s, Sub<&[u8]>>::from_raw_parts(vec![0; 30], 3) }" % p
            for how, ex in (("mutable iterator", "b.iter_mut::<Sub<&mut [u8]>>()"), ("mutable item", "b.get_mut::<Sub<&mut [u8]>>(0)"), ("iterated mutable item", "b.iter_mut::<Sub<&mut [u8]>>().next()")):
                outlive("the %s of an array of %s" % (how, p), ex, mk, "mut ")
                body("the %s of an array of %s is exclusive" % (how, p), "let mut b = %s; let r = %s; keep(&r); let q = %s; keep(&q);" % (mk, ex, ex), "let mut b = %s; let r = %s; let q = %s; keep(&q); keep(&r);" % (mk, ex, ex), SHARED)
                body("the %s of an array of %s excludes readers" % (how, p), "let mut b = %s; let r = %s; keep(&r); let q = b.get::<Sub<&[u8]>>(1); keep(&q);" % (mk, ex), "let mut b = %s; let r = %s; let q = b.get::<Sub<&[u8]>>(1); keep(&q); keep(&r);" % (mk, ex), SHARED)
                out.append(("the %s of an array of %s needs storage which can be modified" % (how, p), "fn @(b: &mut Array<&mut [u8], %s, Sub<&[u8]>>) { let r = %s; keep(&r); }" % (p, ex), "fn @(b: &mut Array<&[u8], %s, Sub<&[u8]>>) { let r = %s; keep(&r); }" % (p, ex), MUT))
                out.append(("the %s of an array of %s needs exclusive access" % (how, p), "fn @(b: &mut Array<&mut [u8], %s, Sub<&[u8]>>) { let r = %s; keep(&r); }" % (p, ex), "fn @(b: &Array<&mut [u8], %s, Sub<&[u8]>>) { let r = %s; keep(&r); }" % (p, ex), MUT))
    body("the mutable items of an array exclude readers", "let mut b = unsafe { Array::<Vec<u8>, ValueLE<u8>, Sub<&[u8]>>::from_raw_parts(vec![0; 30], 3) }; let r: Vec<Sub<&mut [u8]>> = b.iter_mut().collect(); keep(&r); b.get::<Sub<&[u8]>>(0);",
         "let mut b = unsafe { Array::<Vec<u8>, ValueLE<u8>, Sub<&[u8]>>::from_raw_parts(vec![0; 30], 3) }; let r: Vec<Sub<&mut [u8]>> = b.iter_mut().collect(); b.get::<Sub<&[u8]>>(0); keep(&r);", SHARED)

    # messages and their fields
    for m, fs in BORROWED.items():
        dec = "%s::from_slice(&b[..]).unwrap().into_inner()" % m
        both("message " + m, dec, "%s<'?>" % m)
        for f in fs:
            both("field %s of message %s" % (f, m), dec + "." + f)
    for m in ("Text", "Inner", "Opts", "Items", "Uses"):
        both("message %s decoded with offsets" % m, "%s::from_slice_with_offsets(&b[..]).unwrap().into_inner().0" % m, "%s<'?>" % m)
    both("an optional message", "<Optional<Text>>::from_slice(&b[..]).ok().map(|m| m.into_inner())", "Option<Option<Text<'?>>>")
    outlive("an item of the array of a message", "b.get::<Sub<&[u8]>>(0)", "Items::from_slice(&STORE[..]).unwrap().into_inner().ar")
    both("an item of the list of a message", "Lists::from_slice(&b[..]).unwrap().into_inner().li")
    both("a union", "Uses::from_slice(&b[..]).unwrap().into_inner().un", "Un<'?>")
    both("the content of a union", "match Uses::from_slice(&b[..]).unwrap().into_inner().un { Un::Subs(v) => Some(v), _ => None }", "Option<Sub<&'? [u8]>>")
    out.append(("the content of a union is borrowed from it", "fn @<'a>(u: &'a Un<'a>) -> Option<&'a Sub<&'a [u8]>> { u.as_subs() }", "fn @<'a>(u: &'a Un<'a>) -> Option<&'static Sub<&'static [u8]>> { u.as_subs() }", LIFE))
    # writing is impossible through what was decoded
    for label, m, get, bad in (("a string", "Text", "keep(&m.z.as_bytes()[0]);", "m.z.as_bytes()[0] = 1;"), ("a counted string", "Vtext", "keep(&m.v.as_bytes()[0]);", "m.v.as_bytes()[0] = 1;"), ("a payload", "Data", "keep(&m.p[0]);", "m.p[0] = 1;"),
                               ("a structure", "Items", "m.s.get_raw_a();", "m.s.set_raw_a(1);"), ("an optional structure", "Opts", "m.oi.as_mut().unwrap().get_raw_a();", "m.oi.as_mut().unwrap().set_raw_a(1);"), ("an array", "Items", "m.ar.get::<Sub<&[u8]>>(0);", "m.ar.get_mut::<Sub<&mut [u8]>>(0);"),
                               ("an item of an array", "Items", "m.ar.get::<Sub<&[u8]>>(0).get_raw_a();", "m.ar.get::<Sub<&[u8]>>(0).set_raw_a(1);"), ("an iterator of an array", "Items", "m.ar.iter::<Sub<&[u8]>>();", "m.ar.iter_mut::<Sub<&mut [u8]>>();"), ("a list", "Lists", "m.li.iter();", "m.li.iter_mut();"), ("a list, writing", "Lists", "m.li.len();", "m.li.write_item(&Text { z: \"\" });"),
                               ("the content of a union", "Uses", "if let Un::Subs(v) = &mut m.un { v.get_raw_a(); }", "if let Un::Subs(v) = &mut m.un { v.set_raw_a(1); }"), ("the discriminant of a message", "Uses", "m.h.get_kind();", "m.h.set_kind(Kind::A);")):
        dec = "let mut b = vec![0u8; 99]; let mut m = %s::from_slice(&b[..]).unwrap().into_inner(); " % m
        body("nothing is written through %s decoded from a buffer" % label, dec + get, dec + bad, MUT)

    # accessors of structures
    for own in ("[u8; SIZE_FULL]", "Vec<u8>"):
        init = "Full::new(%s)" % ("[0u8; SIZE_FULL]" if own[0] == "[" else "vec![0u8; SIZE_FULL]")
        for how, ex in [("reference", "b.to_ref()"), ("nested structure", "b.get_sub()")] + [("array " + a, "b.get_%s()" % a) for a in ARRAYS] + [("items of array " + a, "b.get_%s().iter_raw()" % a) for a in ()]:
            outlive("the %s of a structure on %s" % (how, own), ex, init)
            changed("the %s of a structure on %s" % (how, own), ex, "b.set_raw_u8a(0);", init)
        for how, ex in [("mutable reference", "b.to_mut()"), ("mutable nested structure", "b.get_sub_mut()")] + [("mutable array " + a, "b.get_%s_mut()" % a) for a in ARRAYS]:
            outlive("the %s of a structure on %s" % (how, own), ex, init, "mut ")
            for label, other in (("writers", "b.set_raw_u8a(0);"), ("readers", "b.get_raw_u8a();"), ("mutable views", "keep(&b.get_sub_mut());"), ("views", "keep(&b.get_sub());"), ("references", "keep(&b.to_ref());"), ("mutable references", "keep(&b.to_mut());"), ("mutable arrays", "keep(&b.get_arr8_mut());")):
                body("the %s of a structure on %s excludes %s" % (how, own, label), "let mut b = %s; let r = %s; keep(&r); %s" % (init, ex, other), "let mut b = %s; let r = %s; %s keep(&r);" % (init, ex, other), SHARED)
    for how, ex, ty in [("reference", "s.to_ref()", "Full<&'? [u8]>"), ("nested structure", "s.get_sub()", "Sub<&'? [u8]>")]:
        out.append(("the %s of a structure is bound to the lifetime of the access" % how, "fn @<'a, 'l>(s: &'a Full<Vec<u8>>, _x: &'l u8) -> %s { %s }" % (ty.replace("'?", "'a"), ex), "fn @<'a, 'l>(s: &'a Full<Vec<u8>>, _x: &'l u8) -> %s { %s }" % (ty.replace("'?", "'l"), ex), LIFE))
    for how, ex, ty in [("mutable reference", "s.to_mut()", "Full<&'? mut [u8]>"), ("mutable nested structure", "s.get_sub_mut()", "Sub<&'? mut [u8]>")]:
        for store in ("Vec<u8>", "&'x mut [u8]"):
            out.append(("the %s of a structure on %s is bound to the lifetime of the access" % (how, store.replace("'x ", "")), "fn @<'a, 'l, 'x>(s: &'a mut Full<%s>, _x: &'l u8) -> %s { %s }" % (store, ty.replace("'?", "'a"), ex), "fn @<'a, 'l, 'x>(s: &'a mut Full<%s>, _x: &'l u8) -> %s { %s }" % (store, ty.replace("'?", "'l"), ex), LIFE))
    muts = [("set_raw_" + f, "s.set_raw_%s(0);" % f, "s.get_raw_%s();" % f) for f in SCALARS] + [("set_" + f, "s.set_%s(%s);" % (f, v), "s.get_%s();" % f) for f, v in SCALARS.items()]
    muts = [(n, a, b) for n, a, b in muts]
    muts += [("to_mut", "s.to_mut();", "s.to_ref();"), ("get_sub_mut", "s.get_sub_mut();", "s.get_sub();")] + [("get_%s_mut" % a, "s.get_%s_mut();" % a, "s.get_%s();" % a) for a in ARRAYS] + [("items of " + a, "s.get_%s_mut().set_raw(0, 0);" % a, "s.get_%s().get_raw(0);" % a) for a in ("arr8",)]
    for n, w, r in muts:
        raw = n.startswith("set_raw_")
        if raw and n[8:] in ("fa", "da"):
            w = w.replace("(0)", "(0 as _)") if False else w
        for store in ("&'a [u8]", "&'a [u8; SIZE_FULL]", "&'a Vec<u8>"):
            good = store.replace("&'a ", "&'a mut ")
            out.append(("%s needs storage which can be modified, not %s" % (n, store.replace("'a ", "")), "fn @<'a>(mut s: Full<%s>) { %s }" % (good, w), "fn @<'a>(mut s: Full<%s>) { %s }" % (store, w), MUT))
        for store in ("&mut [u8]", "Vec<u8>", "[u8; SIZE_FULL]"):
            out.append(("%s on %s needs exclusive access" % (n, store), "fn @(s: &mut Full<%s>) { %s }" % (store, w), "fn @(s: &Full<%s>) { %s }" % (store, w), MUT))
    for store in ("[u8; SIZE_FULL]", "Vec<u8>"):
        out.append(("a nested structure of %s cannot be modified" % store, "fn @(s: &mut Full<%s>) { s.get_sub_mut().set_raw_a(1); }" % store, "fn @(s: &mut Full<%s>) { s.get_sub().set_raw_a(1); }" % store, MUT))
        out.append(("a reference to %s cannot be modified" % store, "fn @(s: &mut Full<%s>) { s.to_mut().set_raw_u8a(1); }" % store, "fn @(s: &mut Full<%s>) { s.to_ref().set_raw_u8a(1); }" % store, MUT))
        for a, v in ARRAYS.items():
            out.append(("an array %s of %s cannot be modified" % (a, store), "fn @(s: &mut Full<%s>) { let v = s.get_%s().get_raw(0); s.get_%s_mut().set_raw(0, v); }" % (store, a, a), "fn @(s: &mut Full<%s>) { let v = s.get_%s().get_raw(0); s.get_%s().set_raw(0, v); }" % (store, a, a), MUT))
        out.append(("the bytes of an array of %s cannot be modified" % store, "fn @(s: &mut Full<%s>) { s.get_arr8_mut().as_mut()[0] = 1; }" % store, "fn @(s: &mut Full<%s>) { s.get_arr8().as_mut()[0] = 1; }" % store, MUT))
    # a mutable view is not duplicated
    for label, ty, init in (("structure", "Full<&mut [u8]>", ""), ("nested structure", "Sub<&mut [u8]>", "")):
        out.append(("a mutable view of a %s is not copied" % label, "fn @(s: %s) { let a = s; keep(&a); }" % ty, "fn @(s: %s) { let a = s; keep(&a); keep(&s); }" % ty, MOVED))
        out.append(("a mutable view of a %s is not cloned" % label, "fn @(s: %s) { let a = s; keep(&a); }" % ty, "fn @(s: %s) { let a = s.clone(); keep(&a); keep(&s); }" % ty, MOVED))
    for label, ty in (("array", "Array<&mut [u8], ValueLE<u8>, Sub<&[u8]>>"), ("array of items", "bp3d_proto::codec::ArrayCodec<&mut [u8], u16, bp3d_proto::codec::ByteCodecLE, 16>"), ("mutable iterator", "array::IterMut<'_, Sub<&mut [u8]>>")):
        out.append(("a mutable %s is not copied" % label, "fn @(s: %s) { let a = s; keep(&a); }" % ty, "fn @(s: %s) { let a = s; keep(&a); keep(&s); }" % ty, MOVED))
        out.append(("a mutable %s is not cloned" % label, "fn @(s: %s) { let a = s; keep(&a); }" % ty, "fn @(s: %s) { let a = s.clone(); let _: &%s = &a; keep(&s); }" % (ty, ty), MOVED | {"E0308"}))
    # discriminants
    for store, good in (("&'a [u8]", "&'a mut [u8]"), ("&'a Vec<u8>", "&'a mut Vec<u8>")):
        out.append(("setting the discriminant needs storage which can be modified, not %s" % store.replace("'a ", ""), "fn @<'a>(u: Un, mut h: Head<%s>) { u.set_discriminant(&mut h); }" % good, "fn @<'a>(u: Un, mut h: Head<%s>) { u.set_discriminant(&mut h); }" % store, MUT))
    out.append(("setting the discriminant needs exclusive access", "fn @(u: Un, h: &mut Head<Vec<u8>>) { u.set_discriminant(h); }", "fn @(u: Un, h: &Head<Vec<u8>>) { u.set_discriminant(h); }", MUT))
    # the codecs
    for c in ("LE", "BE"):
        out.append(("the byte codec %s writes to mutable slices only" % c, "fn @(b: &mut [u8]) { <bp3d_proto::codec::ByteCodec%s as bp3d_proto::codec::ByteCodec>::write::<u16>(b, 1); }" % c, "fn @(b: &[u8]) { <bp3d_proto::codec::ByteCodec%s as bp3d_proto::codec::ByteCodec>::write::<u16>(b, 1); }" % c, MUT))
        out.append(("the bit codec %s writes to mutable slices only" % c, "fn @(b: &mut [u8]) { <bp3d_proto::codec::BitCodec%s as bp3d_proto::codec::BitCodec>::write::<u16, 1, 9>(b, 1); }" % c, "fn @(b: &[u8]) { <bp3d_proto::codec::BitCodec%s as bp3d_proto::codec::BitCodec>::write::<u16, 1, 9>(b, 1); }" % c, MUT))
        for buf, good in (("&[u8]", "&mut [u8]"), ("&Vec<u8>", "Vec<u8>")):
            out.append(("an array codec %s on %s has no setter" % (c, buf), "fn @(mut a: bp3d_proto::codec::ArrayCodec<%s, u16, bp3d_proto::codec::ByteCodec%s, 16>) { a.set_raw(0, 1); }" % (good, c), "fn @(mut a: bp3d_proto::codec::ArrayCodec<%s, u16, bp3d_proto::codec::ByteCodec%s, 16>) { a.set_raw(0, 1); }" % (buf, c), MUT))
        out.append(("an array codec %s needs exclusive access" % c, "fn @(a: &mut bp3d_proto::codec::ArrayCodec<&mut [u8], u16, bp3d_proto::codec::ByteCodec%s, 16>) { a.set_raw(0, 1); }" % c, "fn @(a: &bp3d_proto::codec::ArrayCodec<&mut [u8], u16, bp3d_proto::codec::ByteCodec%s, 16>) { a.set_raw(0, 1); }" % c, MUT))
    # the generic interface: for every codec
    out.append(("what any codec decodes is bound to its input", "fn @<'a, T: FromSlice<'a>>(b: &'a [u8]) -> Option<T::Output> { T::from_slice(b).ok().map(|m| m.into_inner()) }", "fn @<'a, 'l, T: FromSlice<'l>>(b: &'a [u8], _x: &'l u8) -> Option<T::Output> { T::from_slice(b).ok().map(|m| m.into_inner()) }", LIFE))
    out.append(("what any codec decodes with offsets is bound to its input", "fn @<'a, T: FromSliceWithOffsets<'a>>(b: &'a [u8]) -> Option<T::Output> { T::from_slice_with_offsets(b).ok().map(|m| m.into_inner().0) }", "fn @<'a, 'l, T: FromSliceWithOffsets<'l>>(b: &'a [u8], _x: &'l u8) -> Option<T::Output> { T::from_slice_with_offsets(b).ok().map(|m| m.into_inner().0) }", LIFE))
    return out


HEAD = """#![allow(unused, mismatched_lifetime_syntaxes)]
include!("%s");
use %s::*;
use bp3d_proto::message::util::*;
use bp3d_proto::message::{FromSlice, FromSliceWithOffsets, WriteTo};
fn keep<T: ?Sized>(_: &T) {}
static STORE: [u8; 99] = [0; 99];
"""


def compile_(b, d, name, head, progs):
    """{number: {code}} of the programs with errors, and whether it compiled"""
    lines = head.count("\n")
    at, src = {}, head
    for n, p in progs:
        lines += 1
        at[lines] = n
        src += p.replace("@", "w%d" % n) + "\n"
    f = os.path.join(d, name + ".rs")
    with open(f, "w") as h:
        h.write(src)
    rc, errs, raw = checks_types.rustc(b, name, f, os.path.join(d, name + ".rmeta"))
    bad, other = collections.defaultdict(dict), []
    for path, line, code, msg, text in errs:
        if path == f and line in at:
            bad[at[line]].setdefault(code, msg)
        elif msg.startswith("aborting due") or path:
            if path:
                other.append((path, line, code, msg))
    return rc, bad, other


def job(b, end):
    rows, tot = [], collections.defaultdict(int)
    d = tempfile.mkdtemp(prefix="borrow.", dir=b.dir)
    try:
        s = schema(end, "w" + end[0])
        res = checks_types.generate(b, d, [("", s, {})])
        st = res.get(s["name"], ("MISSING", ""))
        if st[0] != "OK" or not st[1].endswith(".rs"):
            return [("the witness schema", "code is generated for it", "unknown", "", "%s %s" % st, 1)], tot
        head = HEAD % (st[1], s["name"])
        ws = witnesses()
        # the proper programs
        left, bad_good = list(range(len(ws))), {}
        for _ in range(8):
            rc, bad, other = compile_(b, d, "good", head, [(n, ws[n][1]) for n in left])
            if rc == 0:
                break
            bad_good.update(bad)
            left = [n for n in left if n not in bad]
            if not bad:
                bad_good.update({n: {"": "; ".join(o[3] for o in other)[:200]} for n in left})
                left = []
                break
        ok = set(left)
        # the misuses: errors of an early phase may hide those of a later one
        errs, left = {}, sorted(ok)
        accepted = False
        for _ in range(12):
            if not left:
                break
            rc, bad, other = compile_(b, d, "bad", head, [(n, ws[n][2]) for n in left])
            if rc == 0:
                accepted = True
                break
            if not bad:
                break
            errs.update(bad)
            left = [n for n in left if n not in bad]
        for n, (label, good, misuse, codes) in enumerate(ws):
            lab = "%s, %s" % (label, end)
            tot["units"] += 1
            if n not in ok:
                rows.append((lab, "the misuse is refused", "unknown", "", "the proper program is not accepted: %s" % list(bad_good.get(n, {}).items())[:1], 1))
            elif n in errs:
                hit = [c for c in errs[n] if c in codes and (c or "lifetime" in errs[n][c])]
                rows.append((lab, "the misuse is refused", "proved" if hit else "unknown", "", "" if hit else "refused for another reason: %s" % list(errs[n].items())[:1], 1))
            elif n in left and accepted:
                rows.append((lab, "the misuse is refused", "refuted", "", "rustc accepts `%s`" % misuse.replace("@", "f"), 1))
            else:
                rows.append((lab, "the misuse is refused", "unknown", "", "not decided", 1))
    finally:
        subprocess.run(["rm", "-rf", d])
    return rows, tot


# ------------------------------------------------------------------ decoders copy nothing

NAME = "what is decoded refers to the input"


def slices(I, st, v, depth=0):
    """the slices and pointers in a decoded value"""
    if isinstance(v, (SliceV, Ptr)):
        yield v
    elif isinstance(v, (Tup, Arr)):
        for x in v.f:
            yield from slices(I, st, x, depth)
    elif isinstance(v, Adt) and depth < 8:
        for x in v.f:
            yield from slices(I, st, x, depth + 1)


def rule_borrow(root):
    def rule(env, outs):
        for st, v in outs:
            if rules.variant(env.I, st, v) != "Ok":
                continue
            for s in slices(env.I, st, rules.payload(env.I, st, v)):
                if s.root[0] == "R" and "#" not in s.root[1] and (root is None or s.root == root):
                    env.put(NAME, "proved")
                elif isinstance(s, SliceV) and s.root[0] in ("S", "C") and st.truth(("eq", st.norm(s.len))) is True:
                    env.put(NAME, "proved")
                elif s.root[0] == "R" and re.search(r"::leak$", s.root[1]):
                    # memory which was allocated and is never freed
                    if env.mode == "exact" and not st.bad() and rules.instance(st) is not None:
                        env.put(NAME, "refuted", "", "refers to leaked memory: %r" % (s,))
                    else:
                        env.put(NAME, "unknown", "", repr(s))
                elif s.root[0] in ("H", "S", "C", "L"):
                    env.that(st, False, NAME, "", "refers to other memory: %r" % (s,))
                else:
                    env.put(NAME, "unknown", "", repr(s))
    return rule


def runtime_job(b):
    import checks_runtime
    import registry
    prog = registry.prog(b, "harness")
    rows, tot = [], collections.defaultdict(int)
    tot["unknown"], tot["fns"] = set(), set()
    for n, key in sorted(R.roots(prog).items()):
        if R.decoder(n):
            take(rows, tot, rules.decide(prog, key, checks_runtime.hook(), rule_borrow(R.S), None, n))
    return rows, tot


def take(rows, tot, r):
    obs, st = r
    rows += [o.row() for o in obs if o.detail != "no outcome"]
    for k in ("steps", "calls", "loops", "outs"):
        tot[k] += st[k]
    tot["unknown"] |= st["unknown"]
    tot["fns"] |= st["fns"]
    tot["units"] += 1


def message_job(b, name):
    import checks_gen
    import checks_msg
    import registry
    rows, tot = [], collections.defaultdict(int)
    tot["unknown"], tot["fns"] = set(), set()
    if registry.witness(b, name) is not None:
        return rows, tot
    prog, pr = registry.prog(b, name), checks_gen.proto(name)
    hook, _ = M.gen_hook(pr)
    for k in prog.roots:
        m = checks_msg.KEY.match(k)
        if m and m.group(1).split("::")[0] == pr.name and m.group(2).startswith("FromSlice"):
            take(rows, tot, rules.decide(prog, k, hook, rule_borrow(None), None, m.group(1) + "." + m.group(2).split("::")[-1]))
    return rows, tot
