"""Writes src/lib.rs: concrete entry points instantiating every runtime codec.
(Run by hand when the list changes; the result is committed.)"""
ints = ["u8", "u16", "u32", "u64"]
alls = ints + ["i8", "i16", "i32", "i64", "f32", "f64"]
o = []
o.append('''//! Analysis roots for the runtime crate.  Nothing here is ever executed: the MIR
//! exporter instantiates each function and the analyser interprets it
//! abstractly.  Types in `stub` stand for "any codec" / "any output"; the
//! analyser replaces their methods by the contract of the trait.
#![allow(dead_code, unused_variables, mismatched_lifetime_syntaxes)]
use bp3d_proto::message::util::*;
use bp3d_proto::message::*;
use bp3d_proto::util::*;

pub mod stub {
    use bp3d_proto::message::{FromSlice, FromSliceWithOffsets, Message, Result, WriteTo};
    use bp3d_proto::util::FixedSize;
    use std::io::Write;
    use std::marker::PhantomData;

    pub struct OpaqueW;
    impl Write for OpaqueW {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { loop {} }
        fn flush(&mut self) -> std::io::Result<()> { loop {} }
    }

    /// any codec whose values are of its own type
    #[derive(Copy, Clone)]
    pub struct Opq<'a>(PhantomData<&'a [u8]>);
    impl<'a> FromSlice<'a> for Opq<'a> {
        type Output = Opq<'a>;
        fn from_slice(slice: &'a [u8]) -> Result<Message<Self>> { loop {} }
    }
    pub struct Offs(u8);
    impl<'a> FromSliceWithOffsets<'a> for Opq<'a> {
        type Offsets = Offs;
        fn from_slice_with_offsets(slice: &'a [u8]) -> Result<Message<(Self, Offs)>> { loop {} }
    }
    impl<'a> WriteTo for Opq<'a> {
        type Input = Opq<'a>;
        fn write_to<W: Write>(input: &Self, out: W) -> Result<()> { loop {} }
    }
    impl<'a> FixedSize for Opq<'a> { const SIZE: usize = 1592590337; }
    impl<'a> From<&'a [u8]> for Opq<'a> { fn from(s: &'a [u8]) -> Self { loop {} } }
    pub struct OpqM<'a>(PhantomData<&'a [u8]>);
    impl<'a> FixedSize for OpqM<'a> { const SIZE: usize = 1592590337; }
    impl<'a> From<&'a mut [u8]> for OpqM<'a> { fn from(s: &'a mut [u8]) -> Self { loop {} } }

    /// any codec whose values are of another type
    pub struct Codec;
    pub struct Val(u8);
    impl<'a> FromSlice<'a> for Codec {
        type Output = Val;
        fn from_slice(slice: &'a [u8]) -> Result<Message<Val>> { loop {} }
    }
    impl WriteTo for Codec {
        type Input = Val;
        fn write_to<W: Write>(input: &Val, out: W) -> Result<()> { loop {} }
    }

    /// any length prefix
    pub struct Prefix;
    impl<'a> FromSlice<'a> for Prefix {
        type Output = u64;
        fn from_slice(slice: &'a [u8]) -> Result<Message<u64>> { loop {} }
    }
    impl WriteTo for Prefix {
        type Input = u64;
        fn write_to<W: Write>(input: &u64, out: W) -> Result<()> { loop {} }
    }

    #[derive(Copy, Clone)]
    pub struct Fix<T>(pub T);
    impl<T> FixedSize for Fix<T> { const SIZE: usize = 1592590337; }
    impl<'a> FromSlice<'a> for Fix<&'a [u8]> {
        type Output = Fix<&'a [u8]>;
        fn from_slice(slice: &'a [u8]) -> Result<Message<Self>> { loop {} }
    }
    impl<T> From<T> for Fix<T> { fn from(s: T) -> Self { Fix(s) } }
    impl<'a> WriteTo for Fix<&'a [u8]> {
        type Input = Self;
        fn write_to<W: Write>(input: &Self, out: W) -> Result<()> { loop {} }
    }
}
use stub::*;
type Res<T> = Result<Message<T>>;
''')
for e in ("LE", "BE"):
    for t in alls:
        o.append(f"pub fn dec_value_{e.lower()}_{t}(s: &[u8]) -> Res<{t}> {{ Value{e}::<{t}>::from_slice(s) }}")
        o.append(f"pub fn enc_value_{e.lower()}_{t}(v: &{t}, out: OpaqueW) -> Result<()> {{ Value{e}::<{t}>::write_to(v, out) }}")
o.append("pub fn dec_nts(s: &[u8]) -> Res<&str> { NullTerminatedString::from_slice(s) }")
o.append("pub fn enc_nts(v: &str, out: OpaqueW) -> Result<()> { NullTerminatedString::write_to(v, out) }")
o.append("pub fn dec_buffer(s: &[u8]) -> Res<&[u8]> { Buffer::from_slice(s) }")
o.append("pub fn enc_buffer(v: &[u8], out: OpaqueW) -> Result<()> { Buffer::write_to(v, out) }")
o.append("pub fn dec_optional_any<'a>(s: &'a [u8]) -> Res<Option<Opq<'a>>> { Optional::<Opq>::from_slice(s) }")
o.append("pub fn enc_optional_any<'a>(v: &Option<Opq<'a>>, out: OpaqueW) -> Result<()> { Optional::<Opq>::write_to(v, out) }")
o.append("pub fn dec_optional_codec(s: &[u8]) -> Res<Option<Val>> { Optional::<Codec>::from_slice(s) }")
o.append("pub fn enc_optional_codec(v: &Option<Val>, out: OpaqueW) -> Result<()> { Optional::<Codec>::write_to(v, out) }")
o.append("pub fn dec_optional_offsets<'a>(s: &'a [u8]) -> Res<(Option<Opq<'a>>, Option<Offs>)> { Optional::<Opq>::from_slice_with_offsets(s) }")
for e in ("LE", "BE"):
    for t in ("u8", "u32", "f64"):
        o.append(f"pub fn dec_optional_{e.lower()}_{t}(s: &[u8]) -> Res<Option<{t}>> {{ Optional::<Value{e}<{t}>>::from_slice(s) }}")
        o.append(f"pub fn enc_optional_{e.lower()}_{t}(v: &Option<{t}>, out: OpaqueW) -> Result<()> {{ Optional::<Value{e}<{t}>>::write_to(v, out) }}")
pref = [("any", "Prefix")] + [(f"{e.lower()}_{t}", f"Value{e}<{t}>") for e in ("LE", "BE") for t in ints]
for n, p in pref:
    o.append(f"pub fn dec_varchar_{n}(s: &[u8]) -> Res<&str> {{ VarcharString::<{p}>::from_slice(s) }}")
    o.append(f"pub fn enc_varchar_{n}(v: &str, out: OpaqueW) -> Result<()> {{ VarcharString::<{p}>::write_to(v, out) }}")
    o.append(f"pub fn dec_array_{n}<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], {p}, Fix<&'a [u8]>>> {{ Array::<&'a [u8], {p}, Fix<&'a [u8]>>::from_slice(s) }}")
    o.append(f"pub fn enc_array_{n}<'a>(v: &Array<&'a [u8], {p}, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> {{ Array::<&'a [u8], {p}, Fix<&'a [u8]>>::write_to(v, out) }}")
    o.append(f"pub fn dec_list_{n}<'a>(s: &'a [u8]) -> Res<List<&'a [u8], {p}, Opq<'a>>> {{ List::<&'a [u8], {p}, Opq<'a>>::from_slice(s) }}")
    o.append(f"pub fn enc_list_{n}<'a>(v: &List<&'a [u8], {p}, Opq<'a>>, out: OpaqueW) -> Result<()> {{ List::<&'a [u8], {p}, Opq<'a>>::write_to(v, out) }}")
    o.append(f"pub fn dec_unsized_{n}<'a>(s: &'a [u8]) -> Res<List<&'a [u8], {p}, Opq<'a>>> {{ list::Unsized::<{p}, Opq<'a>>::from_slice(s) }}")
o.append("pub fn dec_ref_any<'a>(s: &'a [u8]) -> Res<Opq<'a>> { Ref::<Opq>::from_slice(s) }")
o.append("pub fn enc_ref_any<'a>(v: &&'a Opq<'a>, out: OpaqueW) -> Result<()> { Ref::<'a, Opq<'a>>::write_to(v, out) }")
o.append("pub fn enc_opq<'a>(v: &Opq<'a>, out: OpaqueW) -> Result<()> { Opq::write_to(v, out) }")
for k in ("Array", "List"):
    l = k.lower()
    item = "Fix<&'a [u8]>" if k == "Array" else "Opq<'a>"
    o.append(f"pub fn {l}_write_item<'a>(l: &mut {k}<OpaqueW, Prefix, {item}>, i: &{item}) -> Result<()> {{ l.write_item(i) }}")
    o.append(f"pub fn {l}_write_items<'a>(l: &mut {k}<OpaqueW, Prefix, {item}>, i: &[{item}]) -> Result<()> {{ l.write_items(i) }}")
    o.append(f"pub fn {l}_new<'a>(b: OpaqueW) -> {k}<OpaqueW, Prefix, {item}> {{ {k}::new(b) }}")
    o.append(f"pub unsafe fn {l}_from_raw_parts<'a>(b: &'a [u8], len: usize) -> {k}<&'a [u8], Prefix, {item}> {{ {k}::from_raw_parts(b, len) }}")
    o.append(f"pub fn {l}_len<'a>(l: &{k}<&'a [u8], Prefix, {item}>) -> usize {{ l.len() }}")
    o.append(f"pub fn {l}_to_ref<'a>(l: &'a {k}<&'a [u8], Prefix, {item}>) -> {k}<&'a [u8], Prefix, {item}> {{ l.to_ref() }}")
o.append('''pub fn array_from_parts<'a>(b: &'a [u8], len: usize) -> Option<Array<&'a [u8], Prefix, Fix<&'a [u8]>>> { Array::from_parts(b, len) }
pub fn array_get<'a>(l: &'a Array<&'a [u8], Prefix, Fix<&'a [u8]>>, i: usize) -> Fix<&'a [u8]> { l.get(i) }
pub fn array_iter<'a>(l: &'a Array<&'a [u8], Prefix, Fix<&'a [u8]>>) -> array::Iter<'a, Fix<&'a [u8]>> { l.iter() }
pub fn array_iter_next<'a>(l: &mut array::Iter<'a, Fix<&'a [u8]>>) -> Option<Fix<&'a [u8]>> { l.next() }
pub fn array_iter3<'a>(l: &'a Array<&'a [u8], Prefix, Fix<&'a [u8]>>) -> (Option<Fix<&'a [u8]>>, Option<Fix<&'a [u8]>>, Option<Fix<&'a [u8]>>) {
    let mut i = l.iter();
    let a = i.next();
    let b = i.next();
    let c = i.next();
    (a, b, c)
}
pub fn array_get_mut<'a>(l: &'a mut Array<&'a mut [u8], Prefix, Fix<&'a [u8]>>, i: usize) -> Fix<&'a mut [u8]> { l.get_mut(i) }
pub fn array_iter_mut<'a>(l: &'a mut Array<&'a mut [u8], Prefix, Fix<&'a [u8]>>) -> array::IterMut<'a, Fix<&'a mut [u8]>> { l.iter_mut() }
pub fn array_iter_mut3<'a>(l: &'a mut Array<&'a mut [u8], Prefix, Fix<&'a [u8]>>) -> (Option<Fix<&'a mut [u8]>>, Option<Fix<&'a mut [u8]>>, Option<Fix<&'a mut [u8]>>) {
    let mut i = l.iter_mut();
    let a = i.next();
    let b = i.next();
    let c = i.next();
    (a, b, c)
}
pub fn list_iter<'a>(l: &'a List<&'a [u8], Prefix, Opq<'a>>) -> list::Iter<'a, Opq<'a>> { l.iter() }
pub fn list_iter_next<'a>(l: &mut list::Iter<'a, Opq<'a>>) -> Option<Result<Opq<'a>>> { l.next() }
pub fn list_iter3<'a>(l: &'a List<&'a [u8], Prefix, Opq<'a>>) -> (Option<Result<Opq<'a>>>, Option<Result<Opq<'a>>>, Option<Result<Opq<'a>>>) {
    let mut i = l.iter();
    let a = i.next();
    let b = i.next();
    let c = i.next();
    (a, b, c)
}
pub fn list_iter_offsets<'a>(l: &'a List<&'a [u8], Prefix, Opq<'a>>) -> list::IterOffsets<'a, Opq<'a>> { l.iter_offsets() }
pub fn list_iter_offsets_next<'a>(l: &mut list::IterOffsets<'a, Opq<'a>>) -> Option<Result<(Opq<'a>, Offs)>> { l.next() }
pub fn list_iter_offsets3<'a>(l: &'a List<&'a [u8], Prefix, Opq<'a>>) -> (Option<Result<(Opq<'a>, Offs)>>, Option<Result<(Opq<'a>, Offs)>>, Option<Result<(Opq<'a>, Offs)>>) {
    let mut i = l.iter_offsets();
    let a = i.next();
    let b = i.next();
    let c = i.next();
    (a, b, c)
}
pub fn measure_array<'a>(m: &Array<&'a [u8], ValueLE<u32>, Fix<&'a [u8]>>) -> Result<usize> { bp3d_proto::message::util::size_of(m) }
pub fn measure_list<'a>(m: &List<&'a [u8], ValueBE<u16>, Opq<'a>>) -> Result<usize> { bp3d_proto::message::util::size_of(m) }
pub fn measure<'a>(m: &Opq<'a>) -> Result<usize> { bp3d_proto::message::util::size_of(m) }
pub fn message_new(size: usize, v: Val) -> Message<Val> { Message::new(size, v) }
pub fn message_size(m: &Message<Val>) -> usize { m.size() }
pub fn message_into_inner(m: Message<Val>) -> Val { m.into_inner() }
pub fn message_map(m: Message<Val>) -> Message<(Val, u8)> { m.map(|v| (v, 1u8)) }
pub fn offset_size(o: FieldOffset) -> usize { o.size() }
pub fn fixed_size(o: &Fix<u8>) -> usize { Size::size(o) }
pub fn to_single(o: (Option<Val>, Option<Offs>)) -> Option<(Val, Offs)> { o.to_single() }
CODECS
bp3d_proto::generate_array_wrapper!(Wrapped, Fix, Prefix);
pub fn wrapper_get<'a>(l: &'a Wrapped<'a, &'a [u8]>, i: usize) -> Fix<&'a [u8]> { l.get(i) }
pub fn wrapper_len<'a>(l: &'a Wrapped<'a, &'a [u8]>) -> usize { l.len() }
pub fn wrapper_from_parts<'a>(b: &'a [u8], len: usize) -> Option<Wrapped<'a, &'a [u8]>> { Wrapped::from_parts(b, len) }
pub fn wrapper_get_mut<'a>(l: &'a mut Wrapped<'a, &'a mut [u8]>, i: usize) -> Fix<&'a mut [u8]> { l.get_mut(i) }
pub fn wrapper_iter<'a>(l: &'a Wrapped<'a, &'a [u8]>) -> array::Iter<'a, Fix<&'a [u8]>> { l.iter() }
pub fn wrapper_iter_mut<'a>(l: &'a mut Wrapped<'a, &'a mut [u8]>) -> array::IterMut<'a, Fix<&'a mut [u8]>> { l.iter_mut() }
pub fn wrapper_to_ref<'a>(l: &'a Wrapped<'a, &'a [u8]>) -> Array<&'a [u8], Prefix, Fix<&'a [u8]>> { l.to_ref() }
pub fn wrapper_write_item<'a>(l: &mut Wrapped<'a, OpaqueW>, i: &Fix<&[u8]>) -> Result<()> { l.write_item(i) }
pub fn wrapper_write_items<'a>(l: &mut Wrapped<'a, OpaqueW>, i: &[Fix<&[u8]>]) -> Result<()> { l.write_items(i) }
pub fn wrapper_new<'a>(b: OpaqueW) -> Wrapped<'a, OpaqueW> { Wrapped::new(b) }
''')
c = ["pub mod codecs {", "    use bp3d_proto::codec::*;"]
def smallest(bits):
    return [w for w in (8, 16, 32, 64) if bits <= w][0]
for e in ("LE", "BE"):
    for n in range(1, 9):
        w = smallest(8 * n)
        for t in ["u%d" % w] + (["i%d" % w] if n in (1, 2, 4, 8) else []) + (["f%d" % w] if n in (4, 8) else []) + (["u64"] if w < 64 else []):
            a = (e.lower(), t, n)
            c.append("    pub fn byte_read_%s_%s_%d(b: &[u8]) -> %s { ByteCodec%s::read::<%s>(b) }" % (a + (t, e, t)))
            c.append("    pub fn byte_write_%s_%s_%d(b: &mut [u8], v: %s) { ByteCodec%s::write::<%s>(b, v) }" % (a + (t, e, t)))
    for bits in (1, 3, 7, 9, 12, 15, 17, 20, 23, 25, 28, 31, 33, 37, 39, 41, 44, 47, 49, 52, 55, 57, 60, 63):
        n = (bits + 7) // 8
        t = "u%d" % smallest(bits)
        for off in sorted({0, (8 * n - bits) // 2, 8 * n - bits}):
            a = (e.lower(), bits, off)
            c.append("    pub fn bit_read_%s_%d_%d(b: &[u8]) -> %s { BitCodec%s::read::<%s, %d, %d>(b) }" % (a + (t, e, t, off, bits)))
            c.append("    pub fn bit_write_%s_%d_%d(b: &mut [u8], v: %s) { BitCodec%s::write::<%s, %d, %d>(b, v) }" % (a + (t, e, t, off, bits)))
c.append("}")
open("src/lib.rs", "w").write("\n".join(o).replace("CODECS", "\n".join(c)) + "\n")
