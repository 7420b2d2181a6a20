//! Analysis roots for the runtime crate.  Nothing here is ever executed: the MIR
//! exporter instantiates each function and the analyser interprets it
//! abstractly.  Types in `stub` stand for "any codec" / "any output"; the
//! analyser replaces their methods by the contract of the trait.
#![allow(dead_code, unused_variables, mismatched_lifetime_syntaxes)]
use bp3d_proto::message::util::*;
use bp3d_proto::message::*;
use bp3d_proto::util::*;

pub mod stub {
    use bp3d_proto::message::{FromSlice, FromSliceWithOffsets, Message, Result, WriteTo};
    use bp3d_proto::util::FixedSize;
    use std::io::Write;
    use std::marker::PhantomData;

    pub struct OpaqueW;
    impl Write for OpaqueW {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { loop {} }
        fn flush(&mut self) -> std::io::Result<()> { loop {} }
    }

    /// any codec whose values are of its own type
    #[derive(Copy, Clone)]
    pub struct Opq<'a>(PhantomData<&'a [u8]>);
    impl<'a> FromSlice<'a> for Opq<'a> {
        type Output = Opq<'a>;
        fn from_slice(slice: &'a [u8]) -> Result<Message<Self>> { loop {} }
    }
    pub struct Offs(u8);
    impl<'a> FromSliceWithOffsets<'a> for Opq<'a> {
        type Offsets = Offs;
        fn from_slice_with_offsets(slice: &'a [u8]) -> Result<Message<(Self, Offs)>> { loop {} }
    }
    impl<'a> WriteTo for Opq<'a> {
        type Input = Opq<'a>;
        fn write_to<W: Write>(input: &Self, out: W) -> Result<()> { loop {} }
    }
    impl<'a> FixedSize for Opq<'a> { const SIZE: usize = 1592590337; }
    impl<'a> From<&'a [u8]> for Opq<'a> { fn from(s: &'a [u8]) -> Self { loop {} } }
    pub struct OpqM<'a>(PhantomData<&'a [u8]>);
    impl<'a> FixedSize for OpqM<'a> { const SIZE: usize = 1592590337; }
    impl<'a> From<&'a mut [u8]> for OpqM<'a> { fn from(s: &'a mut [u8]) -> Self { loop {} } }

    /// any codec whose values are of another type
    pub struct Codec;
    pub struct Val(u8);
    impl<'a> FromSlice<'a> for Codec {
        type Output = Val;
        fn from_slice(slice: &'a [u8]) -> Result<Message<Val>> { loop {} }
    }
    impl WriteTo for Codec {
        type Input = Val;
        fn write_to<W: Write>(input: &Val, out: W) -> Result<()> { loop {} }
    }

    /// any length prefix
    pub struct Prefix;
    impl<'a> FromSlice<'a> for Prefix {
        type Output = u64;
        fn from_slice(slice: &'a [u8]) -> Result<Message<u64>> { loop {} }
    }
    impl WriteTo for Prefix {
        type Input = u64;
        fn write_to<W: Write>(input: &u64, out: W) -> Result<()> { loop {} }
    }

    #[derive(Copy, Clone)]
    pub struct Fix<T>(pub T);
    impl<T> FixedSize for Fix<T> { const SIZE: usize = 1592590337; }
    impl<'a> FromSlice<'a> for Fix<&'a [u8]> {
        type Output = Fix<&'a [u8]>;
        fn from_slice(slice: &'a [u8]) -> Result<Message<Self>> { loop {} }
    }
    impl<T> From<T> for Fix<T> { fn from(s: T) -> Self { Fix(s) } }
    impl<'a> WriteTo for Fix<&'a [u8]> {
        type Input = Self;
        fn write_to<W: Write>(input: &Self, out: W) -> Result<()> { loop {} }
    }
}
use stub::*;
type Res<T> = Result<Message<T>>;

pub fn dec_value_le_u8(s: &[u8]) -> Res<u8> { ValueLE::<u8>::from_slice(s) }
pub fn enc_value_le_u8(v: &u8, out: OpaqueW) -> Result<()> { ValueLE::<u8>::write_to(v, out) }
pub fn dec_value_le_u16(s: &[u8]) -> Res<u16> { ValueLE::<u16>::from_slice(s) }
pub fn enc_value_le_u16(v: &u16, out: OpaqueW) -> Result<()> { ValueLE::<u16>::write_to(v, out) }
pub fn dec_value_le_u32(s: &[u8]) -> Res<u32> { ValueLE::<u32>::from_slice(s) }
pub fn enc_value_le_u32(v: &u32, out: OpaqueW) -> Result<()> { ValueLE::<u32>::write_to(v, out) }
pub fn dec_value_le_u64(s: &[u8]) -> Res<u64> { ValueLE::<u64>::from_slice(s) }
pub fn enc_value_le_u64(v: &u64, out: OpaqueW) -> Result<()> { ValueLE::<u64>::write_to(v, out) }
pub fn dec_value_le_i8(s: &[u8]) -> Res<i8> { ValueLE::<i8>::from_slice(s) }
pub fn enc_value_le_i8(v: &i8, out: OpaqueW) -> Result<()> { ValueLE::<i8>::write_to(v, out) }
pub fn dec_value_le_i16(s: &[u8]) -> Res<i16> { ValueLE::<i16>::from_slice(s) }
pub fn enc_value_le_i16(v: &i16, out: OpaqueW) -> Result<()> { ValueLE::<i16>::write_to(v, out) }
pub fn dec_value_le_i32(s: &[u8]) -> Res<i32> { ValueLE::<i32>::from_slice(s) }
pub fn enc_value_le_i32(v: &i32, out: OpaqueW) -> Result<()> { ValueLE::<i32>::write_to(v, out) }
pub fn dec_value_le_i64(s: &[u8]) -> Res<i64> { ValueLE::<i64>::from_slice(s) }
pub fn enc_value_le_i64(v: &i64, out: OpaqueW) -> Result<()> { ValueLE::<i64>::write_to(v, out) }
pub fn dec_value_le_f32(s: &[u8]) -> Res<f32> { ValueLE::<f32>::from_slice(s) }
pub fn enc_value_le_f32(v: &f32, out: OpaqueW) -> Result<()> { ValueLE::<f32>::write_to(v, out) }
pub fn dec_value_le_f64(s: &[u8]) -> Res<f64> { ValueLE::<f64>::from_slice(s) }
pub fn enc_value_le_f64(v: &f64, out: OpaqueW) -> Result<()> { ValueLE::<f64>::write_to(v, out) }
pub fn dec_value_be_u8(s: &[u8]) -> Res<u8> { ValueBE::<u8>::from_slice(s) }
pub fn enc_value_be_u8(v: &u8, out: OpaqueW) -> Result<()> { ValueBE::<u8>::write_to(v, out) }
pub fn dec_value_be_u16(s: &[u8]) -> Res<u16> { ValueBE::<u16>::from_slice(s) }
pub fn enc_value_be_u16(v: &u16, out: OpaqueW) -> Result<()> { ValueBE::<u16>::write_to(v, out) }
pub fn dec_value_be_u32(s: &[u8]) -> Res<u32> { ValueBE::<u32>::from_slice(s) }
pub fn enc_value_be_u32(v: &u32, out: OpaqueW) -> Result<()> { ValueBE::<u32>::write_to(v, out) }
pub fn dec_value_be_u64(s: &[u8]) -> Res<u64> { ValueBE::<u64>::from_slice(s) }
pub fn enc_value_be_u64(v: &u64, out: OpaqueW) -> Result<()> { ValueBE::<u64>::write_to(v, out) }
pub fn dec_value_be_i8(s: &[u8]) -> Res<i8> { ValueBE::<i8>::from_slice(s) }
pub fn enc_value_be_i8(v: &i8, out: OpaqueW) -> Result<()> { ValueBE::<i8>::write_to(v, out) }
pub fn dec_value_be_i16(s: &[u8]) -> Res<i16> { ValueBE::<i16>::from_slice(s) }
pub fn enc_value_be_i16(v: &i16, out: OpaqueW) -> Result<()> { ValueBE::<i16>::write_to(v, out) }
pub fn dec_value_be_i32(s: &[u8]) -> Res<i32> { ValueBE::<i32>::from_slice(s) }
pub fn enc_value_be_i32(v: &i32, out: OpaqueW) -> Result<()> { ValueBE::<i32>::write_to(v, out) }
pub fn dec_value_be_i64(s: &[u8]) -> Res<i64> { ValueBE::<i64>::from_slice(s) }
pub fn enc_value_be_i64(v: &i64, out: OpaqueW) -> Result<()> { ValueBE::<i64>::write_to(v, out) }
pub fn dec_value_be_f32(s: &[u8]) -> Res<f32> { ValueBE::<f32>::from_slice(s) }
pub fn enc_value_be_f32(v: &f32, out: OpaqueW) -> Result<()> { ValueBE::<f32>::write_to(v, out) }
pub fn dec_value_be_f64(s: &[u8]) -> Res<f64> { ValueBE::<f64>::from_slice(s) }
pub fn enc_value_be_f64(v: &f64, out: OpaqueW) -> Result<()> { ValueBE::<f64>::write_to(v, out) }
pub fn dec_nts(s: &[u8]) -> Res<&str> { NullTerminatedString::from_slice(s) }
pub fn enc_nts(v: &str, out: OpaqueW) -> Result<()> { NullTerminatedString::write_to(v, out) }
pub fn dec_buffer(s: &[u8]) -> Res<&[u8]> { Buffer::from_slice(s) }
pub fn enc_buffer(v: &[u8], out: OpaqueW) -> Result<()> { Buffer::write_to(v, out) }
pub fn dec_optional_any<'a>(s: &'a [u8]) -> Res<Option<Opq<'a>>> { Optional::<Opq>::from_slice(s) }
pub fn enc_optional_any<'a>(v: &Option<Opq<'a>>, out: OpaqueW) -> Result<()> { Optional::<Opq>::write_to(v, out) }
pub fn dec_optional_codec(s: &[u8]) -> Res<Option<Val>> { Optional::<Codec>::from_slice(s) }
pub fn enc_optional_codec(v: &Option<Val>, out: OpaqueW) -> Result<()> { Optional::<Codec>::write_to(v, out) }
pub fn dec_optional_offsets<'a>(s: &'a [u8]) -> Res<(Option<Opq<'a>>, Option<Offs>)> { Optional::<Opq>::from_slice_with_offsets(s) }
pub fn dec_optional_le_u8(s: &[u8]) -> Res<Option<u8>> { Optional::<ValueLE<u8>>::from_slice(s) }
pub fn enc_optional_le_u8(v: &Option<u8>, out: OpaqueW) -> Result<()> { Optional::<ValueLE<u8>>::write_to(v, out) }
pub fn dec_optional_le_u32(s: &[u8]) -> Res<Option<u32>> { Optional::<ValueLE<u32>>::from_slice(s) }
pub fn enc_optional_le_u32(v: &Option<u32>, out: OpaqueW) -> Result<()> { Optional::<ValueLE<u32>>::write_to(v, out) }
pub fn dec_optional_le_f64(s: &[u8]) -> Res<Option<f64>> { Optional::<ValueLE<f64>>::from_slice(s) }
pub fn enc_optional_le_f64(v: &Option<f64>, out: OpaqueW) -> Result<()> { Optional::<ValueLE<f64>>::write_to(v, out) }
pub fn dec_optional_be_u8(s: &[u8]) -> Res<Option<u8>> { Optional::<ValueBE<u8>>::from_slice(s) }
pub fn enc_optional_be_u8(v: &Option<u8>, out: OpaqueW) -> Result<()> { Optional::<ValueBE<u8>>::write_to(v, out) }
pub fn dec_optional_be_u32(s: &[u8]) -> Res<Option<u32>> { Optional::<ValueBE<u32>>::from_slice(s) }
pub fn enc_optional_be_u32(v: &Option<u32>, out: OpaqueW) -> Result<()> { Optional::<ValueBE<u32>>::write_to(v, out) }
pub fn dec_optional_be_f64(s: &[u8]) -> Res<Option<f64>> { Optional::<ValueBE<f64>>::from_slice(s) }
pub fn enc_optional_be_f64(v: &Option<f64>, out: OpaqueW) -> Result<()> { Optional::<ValueBE<f64>>::write_to(v, out) }
pub fn dec_varchar_any(s: &[u8]) -> Res<&str> { VarcharString::<Prefix>::from_slice(s) }
pub fn enc_varchar_any(v: &str, out: OpaqueW) -> Result<()> { VarcharString::<Prefix>::write_to(v, out) }
pub fn dec_array_any<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], Prefix, Fix<&'a [u8]>>> { Array::<&'a [u8], Prefix, Fix<&'a [u8]>>::from_slice(s) }
pub fn enc_array_any<'a>(v: &Array<&'a [u8], Prefix, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> { Array::<&'a [u8], Prefix, Fix<&'a [u8]>>::write_to(v, out) }
pub fn dec_list_any<'a>(s: &'a [u8]) -> Res<List<&'a [u8], Prefix, Opq<'a>>> { List::<&'a [u8], Prefix, Opq<'a>>::from_slice(s) }
pub fn enc_list_any<'a>(v: &List<&'a [u8], Prefix, Opq<'a>>, out: OpaqueW) -> Result<()> { List::<&'a [u8], Prefix, Opq<'a>>::write_to(v, out) }
pub fn dec_unsized_any<'a>(s: &'a [u8]) -> Res<List<&'a [u8], Prefix, Opq<'a>>> { list::Unsized::<Prefix, Opq<'a>>::from_slice(s) }
pub fn dec_varchar_le_u8(s: &[u8]) -> Res<&str> { VarcharString::<ValueLE<u8>>::from_slice(s) }
pub fn enc_varchar_le_u8(v: &str, out: OpaqueW) -> Result<()> { VarcharString::<ValueLE<u8>>::write_to(v, out) }
pub fn dec_array_le_u8<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], ValueLE<u8>, Fix<&'a [u8]>>> { Array::<&'a [u8], ValueLE<u8>, Fix<&'a [u8]>>::from_slice(s) }
pub fn enc_array_le_u8<'a>(v: &Array<&'a [u8], ValueLE<u8>, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> { Array::<&'a [u8], ValueLE<u8>, Fix<&'a [u8]>>::write_to(v, out) }
pub fn dec_list_le_u8<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueLE<u8>, Opq<'a>>> { List::<&'a [u8], ValueLE<u8>, Opq<'a>>::from_slice(s) }
pub fn enc_list_le_u8<'a>(v: &List<&'a [u8], ValueLE<u8>, Opq<'a>>, out: OpaqueW) -> Result<()> { List::<&'a [u8], ValueLE<u8>, Opq<'a>>::write_to(v, out) }
pub fn dec_unsized_le_u8<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueLE<u8>, Opq<'a>>> { list::Unsized::<ValueLE<u8>, Opq<'a>>::from_slice(s) }
pub fn dec_varchar_le_u16(s: &[u8]) -> Res<&str> { VarcharString::<ValueLE<u16>>::from_slice(s) }
pub fn enc_varchar_le_u16(v: &str, out: OpaqueW) -> Result<()> { VarcharString::<ValueLE<u16>>::write_to(v, out) }
pub fn dec_array_le_u16<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], ValueLE<u16>, Fix<&'a [u8]>>> { Array::<&'a [u8], ValueLE<u16>, Fix<&'a [u8]>>::from_slice(s) }
pub fn enc_array_le_u16<'a>(v: &Array<&'a [u8], ValueLE<u16>, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> { Array::<&'a [u8], ValueLE<u16>, Fix<&'a [u8]>>::write_to(v, out) }
pub fn dec_list_le_u16<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueLE<u16>, Opq<'a>>> { List::<&'a [u8], ValueLE<u16>, Opq<'a>>::from_slice(s) }
pub fn enc_list_le_u16<'a>(v: &List<&'a [u8], ValueLE<u16>, Opq<'a>>, out: OpaqueW) -> Result<()> { List::<&'a [u8], ValueLE<u16>, Opq<'a>>::write_to(v, out) }
pub fn dec_unsized_le_u16<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueLE<u16>, Opq<'a>>> { list::Unsized::<ValueLE<u16>, Opq<'a>>::from_slice(s) }
pub fn dec_varchar_le_u32(s: &[u8]) -> Res<&str> { VarcharString::<ValueLE<u32>>::from_slice(s) }
pub fn enc_varchar_le_u32(v: &str, out: OpaqueW) -> Result<()> { VarcharString::<ValueLE<u32>>::write_to(v, out) }
pub fn dec_array_le_u32<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], ValueLE<u32>, Fix<&'a [u8]>>> { Array::<&'a [u8], ValueLE<u32>, Fix<&'a [u8]>>::from_slice(s) }
pub fn enc_array_le_u32<'a>(v: &Array<&'a [u8], ValueLE<u32>, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> { Array::<&'a [u8], ValueLE<u32>, Fix<&'a [u8]>>::write_to(v, out) }
pub fn dec_list_le_u32<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueLE<u32>, Opq<'a>>> { List::<&'a [u8], ValueLE<u32>, Opq<'a>>::from_slice(s) }
pub fn enc_list_le_u32<'a>(v: &List<&'a [u8], ValueLE<u32>, Opq<'a>>, out: OpaqueW) -> Result<()> { List::<&'a [u8], ValueLE<u32>, Opq<'a>>::write_to(v, out) }
pub fn dec_unsized_le_u32<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueLE<u32>, Opq<'a>>> { list::Unsized::<ValueLE<u32>, Opq<'a>>::from_slice(s) }
pub fn dec_varchar_le_u64(s: &[u8]) -> Res<&str> { VarcharString::<ValueLE<u64>>::from_slice(s) }
pub fn enc_varchar_le_u64(v: &str, out: OpaqueW) -> Result<()> { VarcharString::<ValueLE<u64>>::write_to(v, out) }
pub fn dec_array_le_u64<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], ValueLE<u64>, Fix<&'a [u8]>>> { Array::<&'a [u8], ValueLE<u64>, Fix<&'a [u8]>>::from_slice(s) }
pub fn enc_array_le_u64<'a>(v: &Array<&'a [u8], ValueLE<u64>, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> { Array::<&'a [u8], ValueLE<u64>, Fix<&'a [u8]>>::write_to(v, out) }
pub fn dec_list_le_u64<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueLE<u64>, Opq<'a>>> { List::<&'a [u8], ValueLE<u64>, Opq<'a>>::from_slice(s) }
pub fn enc_list_le_u64<'a>(v: &List<&'a [u8], ValueLE<u64>, Opq<'a>>, out: OpaqueW) -> Result<()> { List::<&'a [u8], ValueLE<u64>, Opq<'a>>::write_to(v, out) }
pub fn dec_unsized_le_u64<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueLE<u64>, Opq<'a>>> { list::Unsized::<ValueLE<u64>, Opq<'a>>::from_slice(s) }
pub fn dec_varchar_be_u8(s: &[u8]) -> Res<&str> { VarcharString::<ValueBE<u8>>::from_slice(s) }
pub fn enc_varchar_be_u8(v: &str, out: OpaqueW) -> Result<()> { VarcharString::<ValueBE<u8>>::write_to(v, out) }
pub fn dec_array_be_u8<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], ValueBE<u8>, Fix<&'a [u8]>>> { Array::<&'a [u8], ValueBE<u8>, Fix<&'a [u8]>>::from_slice(s) }
pub fn enc_array_be_u8<'a>(v: &Array<&'a [u8], ValueBE<u8>, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> { Array::<&'a [u8], ValueBE<u8>, Fix<&'a [u8]>>::write_to(v, out) }
pub fn dec_list_be_u8<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueBE<u8>, Opq<'a>>> { List::<&'a [u8], ValueBE<u8>, Opq<'a>>::from_slice(s) }
pub fn enc_list_be_u8<'a>(v: &List<&'a [u8], ValueBE<u8>, Opq<'a>>, out: OpaqueW) -> Result<()> { List::<&'a [u8], ValueBE<u8>, Opq<'a>>::write_to(v, out) }
pub fn dec_unsized_be_u8<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueBE<u8>, Opq<'a>>> { list::Unsized::<ValueBE<u8>, Opq<'a>>::from_slice(s) }
pub fn dec_varchar_be_u16(s: &[u8]) -> Res<&str> { VarcharString::<ValueBE<u16>>::from_slice(s) }
pub fn enc_varchar_be_u16(v: &str, out: OpaqueW) -> Result<()> { VarcharString::<ValueBE<u16>>::write_to(v, out) }
pub fn dec_array_be_u16<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], ValueBE<u16>, Fix<&'a [u8]>>> { Array::<&'a [u8], ValueBE<u16>, Fix<&'a [u8]>>::from_slice(s) }
pub fn enc_array_be_u16<'a>(v: &Array<&'a [u8], ValueBE<u16>, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> { Array::<&'a [u8], ValueBE<u16>, Fix<&'a [u8]>>::write_to(v, out) }
pub fn dec_list_be_u16<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueBE<u16>, Opq<'a>>> { List::<&'a [u8], ValueBE<u16>, Opq<'a>>::from_slice(s) }
pub fn enc_list_be_u16<'a>(v: &List<&'a [u8], ValueBE<u16>, Opq<'a>>, out: OpaqueW) -> Result<()> { List::<&'a [u8], ValueBE<u16>, Opq<'a>>::write_to(v, out) }
pub fn dec_unsized_be_u16<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueBE<u16>, Opq<'a>>> { list::Unsized::<ValueBE<u16>, Opq<'a>>::from_slice(s) }
pub fn dec_varchar_be_u32(s: &[u8]) -> Res<&str> { VarcharString::<ValueBE<u32>>::from_slice(s) }
pub fn enc_varchar_be_u32(v: &str, out: OpaqueW) -> Result<()> { VarcharString::<ValueBE<u32>>::write_to(v, out) }
pub fn dec_array_be_u32<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], ValueBE<u32>, Fix<&'a [u8]>>> { Array::<&'a [u8], ValueBE<u32>, Fix<&'a [u8]>>::from_slice(s) }
pub fn enc_array_be_u32<'a>(v: &Array<&'a [u8], ValueBE<u32>, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> { Array::<&'a [u8], ValueBE<u32>, Fix<&'a [u8]>>::write_to(v, out) }
pub fn dec_list_be_u32<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueBE<u32>, Opq<'a>>> { List::<&'a [u8], ValueBE<u32>, Opq<'a>>::from_slice(s) }
pub fn enc_list_be_u32<'a>(v: &List<&'a [u8], ValueBE<u32>, Opq<'a>>, out: OpaqueW) -> Result<()> { List::<&'a [u8], ValueBE<u32>, Opq<'a>>::write_to(v, out) }
pub fn dec_unsized_be_u32<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueBE<u32>, Opq<'a>>> { list::Unsized::<ValueBE<u32>, Opq<'a>>::from_slice(s) }
pub fn dec_varchar_be_u64(s: &[u8]) -> Res<&str> { VarcharString::<ValueBE<u64>>::from_slice(s) }
pub fn enc_varchar_be_u64(v: &str, out: OpaqueW) -> Result<()> { VarcharString::<ValueBE<u64>>::write_to(v, out) }
pub fn dec_array_be_u64<'a>(s: &'a [u8]) -> Res<Array<&'a [u8], ValueBE<u64>, Fix<&'a [u8]>>> { Array::<&'a [u8], ValueBE<u64>, Fix<&'a [u8]>>::from_slice(s) }
pub fn enc_array_be_u64<'a>(v: &Array<&'a [u8], ValueBE<u64>, Fix<&'a [u8]>>, out: OpaqueW) -> Result<()> { Array::<&'a [u8], ValueBE<u64>, Fix<&'a [u8]>>::write_to(v, out) }
pub fn dec_list_be_u64<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueBE<u64>, Opq<'a>>> { List::<&'a [u8], ValueBE<u64>, Opq<'a>>::from_slice(s) }
pub fn enc_list_be_u64<'a>(v: &List<&'a [u8], ValueBE<u64>, Opq<'a>>, out: OpaqueW) -> Result<()> { List::<&'a [u8], ValueBE<u64>, Opq<'a>>::write_to(v, out) }
pub fn dec_unsized_be_u64<'a>(s: &'a [u8]) -> Res<List<&'a [u8], ValueBE<u64>, Opq<'a>>> { list::Unsized::<ValueBE<u64>, Opq<'a>>::from_slice(s) }
pub fn dec_ref_any<'a>(s: &'a [u8]) -> Res<Opq<'a>> { Ref::<Opq>::from_slice(s) }
pub fn enc_ref_any<'a>(v: &&'a Opq<'a>, out: OpaqueW) -> Result<()> { Ref::<'a, Opq<'a>>::write_to(v, out) }
pub fn enc_opq<'a>(v: &Opq<'a>, out: OpaqueW) -> Result<()> { Opq::write_to(v, out) }
pub fn array_write_item<'a>(l: &mut Array<OpaqueW, Prefix, Fix<&'a [u8]>>, i: &Fix<&'a [u8]>) -> Result<()> { l.write_item(i) }
pub fn array_write_items<'a>(l: &mut Array<OpaqueW, Prefix, Fix<&'a [u8]>>, i: &[Fix<&'a [u8]>]) -> Result<()> { l.write_items(i) }
pub fn array_new<'a>(b: OpaqueW) -> Array<OpaqueW, Prefix, Fix<&'a [u8]>> { Array::new(b) }
pub unsafe fn array_from_raw_parts<'a>(b: &'a [u8], len: usize) -> Array<&'a [u8], Prefix, Fix<&'a [u8]>> { Array::from_raw_parts(b, len) }
pub fn array_len<'a>(l: &Array<&'a [u8], Prefix, Fix<&'a [u8]>>) -> usize { l.len() }
pub fn array_to_ref<'a>(l: &'a Array<&'a [u8], Prefix, Fix<&'a [u8]>>) -> Array<&'a [u8], Prefix, Fix<&'a [u8]>> { l.to_ref() }
pub fn list_write_item<'a>(l: &mut List<OpaqueW, Prefix, Opq<'a>>, i: &Opq<'a>) -> Result<()> { l.write_item(i) }
pub fn list_write_items<'a>(l: &mut List<OpaqueW, Prefix, Opq<'a>>, i: &[Opq<'a>]) -> Result<()> { l.write_items(i) }
pub fn list_new<'a>(b: OpaqueW) -> List<OpaqueW, Prefix, Opq<'a>> { List::new(b) }
pub unsafe fn list_from_raw_parts<'a>(b: &'a [u8], len: usize) -> List<&'a [u8], Prefix, Opq<'a>> { List::from_raw_parts(b, len) }
pub fn list_len<'a>(l: &List<&'a [u8], Prefix, Opq<'a>>) -> usize { l.len() }
pub fn list_to_ref<'a>(l: &'a List<&'a [u8], Prefix, Opq<'a>>) -> List<&'a [u8], Prefix, Opq<'a>> { l.to_ref() }
pub fn array_from_parts<'a>(b: &'a [u8], len: usize) -> Option<Array<&'a [u8], Prefix, Fix<&'a [u8]>>> { Array::from_parts(b, len) }
pub fn array_get<'a>(l: &'a Array<&'a [u8], Prefix, Fix<&'a [u8]>>, i: usize) -> Fix<&'a [u8]> { l.get(i) }
pub fn array_iter<'a>(l: &'a Array<&'a [u8], Prefix, Fix<&'a [u8]>>) -> array::Iter<'a, Fix<&'a [u8]>> { l.iter() }
pub fn array_iter_next<'a>(l: &mut array::Iter<'a, Fix<&'a [u8]>>) -> Option<Fix<&'a [u8]>> { l.next() }
pub fn array_iter3<'a>(l: &'a Array<&'a [u8], Prefix, Fix<&'a [u8]>>) -> (Option<Fix<&'a [u8]>>, Option<Fix<&'a [u8]>>, Option<Fix<&'a [u8]>>) {
    let mut i = l.iter();
    let a = i.next();
    let b = i.next();
    let c = i.next();
    (a, b, c)
}
pub fn array_get_mut<'a>(l: &'a mut Array<&'a mut [u8], Prefix, Fix<&'a [u8]>>, i: usize) -> Fix<&'a mut [u8]> { l.get_mut(i) }
pub fn array_iter_mut<'a>(l: &'a mut Array<&'a mut [u8], Prefix, Fix<&'a [u8]>>) -> array::IterMut<'a, Fix<&'a mut [u8]>> { l.iter_mut() }
pub fn array_iter_mut3<'a>(l: &'a mut Array<&'a mut [u8], Prefix, Fix<&'a [u8]>>) -> (Option<Fix<&'a mut [u8]>>, Option<Fix<&'a mut [u8]>>, Option<Fix<&'a mut [u8]>>) {
    let mut i = l.iter_mut();
    let a = i.next();
    let b = i.next();
    let c = i.next();
    (a, b, c)
}
pub fn list_iter<'a>(l: &'a List<&'a [u8], Prefix, Opq<'a>>) -> list::Iter<'a, Opq<'a>> { l.iter() }
pub fn list_iter_next<'a>(l: &mut list::Iter<'a, Opq<'a>>) -> Option<Result<Opq<'a>>> { l.next() }
pub fn list_iter3<'a>(l: &'a List<&'a [u8], Prefix, Opq<'a>>) -> (Option<Result<Opq<'a>>>, Option<Result<Opq<'a>>>, Option<Result<Opq<'a>>>) {
    let mut i = l.iter();
    let a = i.next();
    let b = i.next();
    let c = i.next();
    (a, b, c)
}
pub fn list_iter_offsets<'a>(l: &'a List<&'a [u8], Prefix, Opq<'a>>) -> list::IterOffsets<'a, Opq<'a>> { l.iter_offsets() }
pub fn list_iter_offsets_next<'a>(l: &mut list::IterOffsets<'a, Opq<'a>>) -> Option<Result<(Opq<'a>, Offs)>> { l.next() }
pub fn list_iter_offsets3<'a>(l: &'a List<&'a [u8], Prefix, Opq<'a>>) -> (Option<Result<(Opq<'a>, Offs)>>, Option<Result<(Opq<'a>, Offs)>>, Option<Result<(Opq<'a>, Offs)>>) {
    let mut i = l.iter_offsets();
    let a = i.next();
    let b = i.next();
    let c = i.next();
    (a, b, c)
}
pub fn measure_array<'a>(m: &Array<&'a [u8], ValueLE<u32>, Fix<&'a [u8]>>) -> Result<usize> { bp3d_proto::message::util::size_of(m) }
pub fn measure_list<'a>(m: &List<&'a [u8], ValueBE<u16>, Opq<'a>>) -> Result<usize> { bp3d_proto::message::util::size_of(m) }
pub fn measure<'a>(m: &Opq<'a>) -> Result<usize> { bp3d_proto::message::util::size_of(m) }
pub fn message_new(size: usize, v: Val) -> Message<Val> { Message::new(size, v) }
pub fn message_size(m: &Message<Val>) -> usize { m.size() }
pub fn message_into_inner(m: Message<Val>) -> Val { m.into_inner() }
pub fn message_map(m: Message<Val>) -> Message<(Val, u8)> { m.map(|v| (v, 1u8)) }
pub fn offset_size(o: FieldOffset) -> usize { o.size() }
pub fn fixed_size(o: &Fix<u8>) -> usize { Size::size(o) }
pub fn to_single(o: (Option<Val>, Option<Offs>)) -> Option<(Val, Offs)> { o.to_single() }
pub mod codecs {
    use bp3d_proto::codec::*;
    pub fn byte_read_le_u8_1(b: &[u8]) -> u8 { ByteCodecLE::read::<u8>(b) }
    pub fn byte_write_le_u8_1(b: &mut [u8], v: u8) { ByteCodecLE::write::<u8>(b, v) }
    pub fn byte_read_le_i8_1(b: &[u8]) -> i8 { ByteCodecLE::read::<i8>(b) }
    pub fn byte_write_le_i8_1(b: &mut [u8], v: i8) { ByteCodecLE::write::<i8>(b, v) }
    pub fn byte_read_le_u64_1(b: &[u8]) -> u64 { ByteCodecLE::read::<u64>(b) }
    pub fn byte_write_le_u64_1(b: &mut [u8], v: u64) { ByteCodecLE::write::<u64>(b, v) }
    pub fn byte_read_le_u16_2(b: &[u8]) -> u16 { ByteCodecLE::read::<u16>(b) }
    pub fn byte_write_le_u16_2(b: &mut [u8], v: u16) { ByteCodecLE::write::<u16>(b, v) }
    pub fn byte_read_le_i16_2(b: &[u8]) -> i16 { ByteCodecLE::read::<i16>(b) }
    pub fn byte_write_le_i16_2(b: &mut [u8], v: i16) { ByteCodecLE::write::<i16>(b, v) }
    pub fn byte_read_le_u64_2(b: &[u8]) -> u64 { ByteCodecLE::read::<u64>(b) }
    pub fn byte_write_le_u64_2(b: &mut [u8], v: u64) { ByteCodecLE::write::<u64>(b, v) }
    pub fn byte_read_le_u32_3(b: &[u8]) -> u32 { ByteCodecLE::read::<u32>(b) }
    pub fn byte_write_le_u32_3(b: &mut [u8], v: u32) { ByteCodecLE::write::<u32>(b, v) }
    pub fn byte_read_le_u64_3(b: &[u8]) -> u64 { ByteCodecLE::read::<u64>(b) }
    pub fn byte_write_le_u64_3(b: &mut [u8], v: u64) { ByteCodecLE::write::<u64>(b, v) }
    pub fn byte_read_le_u32_4(b: &[u8]) -> u32 { ByteCodecLE::read::<u32>(b) }
    pub fn byte_write_le_u32_4(b: &mut [u8], v: u32) { ByteCodecLE::write::<u32>(b, v) }
    pub fn byte_read_le_i32_4(b: &[u8]) -> i32 { ByteCodecLE::read::<i32>(b) }
    pub fn byte_write_le_i32_4(b: &mut [u8], v: i32) { ByteCodecLE::write::<i32>(b, v) }
    pub fn byte_read_le_f32_4(b: &[u8]) -> f32 { ByteCodecLE::read::<f32>(b) }
    pub fn byte_write_le_f32_4(b: &mut [u8], v: f32) { ByteCodecLE::write::<f32>(b, v) }
    pub fn byte_read_le_u64_4(b: &[u8]) -> u64 { ByteCodecLE::read::<u64>(b) }
    pub fn byte_write_le_u64_4(b: &mut [u8], v: u64) { ByteCodecLE::write::<u64>(b, v) }
    pub fn byte_read_le_u64_5(b: &[u8]) -> u64 { ByteCodecLE::read::<u64>(b) }
    pub fn byte_write_le_u64_5(b: &mut [u8], v: u64) { ByteCodecLE::write::<u64>(b, v) }
    pub fn byte_read_le_u64_6(b: &[u8]) -> u64 { ByteCodecLE::read::<u64>(b) }
    pub fn byte_write_le_u64_6(b: &mut [u8], v: u64) { ByteCodecLE::write::<u64>(b, v) }
    pub fn byte_read_le_u64_7(b: &[u8]) -> u64 { ByteCodecLE::read::<u64>(b) }
    pub fn byte_write_le_u64_7(b: &mut [u8], v: u64) { ByteCodecLE::write::<u64>(b, v) }
    pub fn byte_read_le_u64_8(b: &[u8]) -> u64 { ByteCodecLE::read::<u64>(b) }
    pub fn byte_write_le_u64_8(b: &mut [u8], v: u64) { ByteCodecLE::write::<u64>(b, v) }
    pub fn byte_read_le_i64_8(b: &[u8]) -> i64 { ByteCodecLE::read::<i64>(b) }
    pub fn byte_write_le_i64_8(b: &mut [u8], v: i64) { ByteCodecLE::write::<i64>(b, v) }
    pub fn byte_read_le_f64_8(b: &[u8]) -> f64 { ByteCodecLE::read::<f64>(b) }
    pub fn byte_write_le_f64_8(b: &mut [u8], v: f64) { ByteCodecLE::write::<f64>(b, v) }
    pub fn bit_read_le_1_0(b: &[u8]) -> u8 { BitCodecLE::read::<u8, 0, 1>(b) }
    pub fn bit_write_le_1_0(b: &mut [u8], v: u8) { BitCodecLE::write::<u8, 0, 1>(b, v) }
    pub fn bit_read_le_1_3(b: &[u8]) -> u8 { BitCodecLE::read::<u8, 3, 1>(b) }
    pub fn bit_write_le_1_3(b: &mut [u8], v: u8) { BitCodecLE::write::<u8, 3, 1>(b, v) }
    pub fn bit_read_le_1_7(b: &[u8]) -> u8 { BitCodecLE::read::<u8, 7, 1>(b) }
    pub fn bit_write_le_1_7(b: &mut [u8], v: u8) { BitCodecLE::write::<u8, 7, 1>(b, v) }
    pub fn bit_read_le_3_0(b: &[u8]) -> u8 { BitCodecLE::read::<u8, 0, 3>(b) }
    pub fn bit_write_le_3_0(b: &mut [u8], v: u8) { BitCodecLE::write::<u8, 0, 3>(b, v) }
    pub fn bit_read_le_3_2(b: &[u8]) -> u8 { BitCodecLE::read::<u8, 2, 3>(b) }
    pub fn bit_write_le_3_2(b: &mut [u8], v: u8) { BitCodecLE::write::<u8, 2, 3>(b, v) }
    pub fn bit_read_le_3_5(b: &[u8]) -> u8 { BitCodecLE::read::<u8, 5, 3>(b) }
    pub fn bit_write_le_3_5(b: &mut [u8], v: u8) { BitCodecLE::write::<u8, 5, 3>(b, v) }
    pub fn bit_read_le_7_0(b: &[u8]) -> u8 { BitCodecLE::read::<u8, 0, 7>(b) }
    pub fn bit_write_le_7_0(b: &mut [u8], v: u8) { BitCodecLE::write::<u8, 0, 7>(b, v) }
    pub fn bit_read_le_7_1(b: &[u8]) -> u8 { BitCodecLE::read::<u8, 1, 7>(b) }
    pub fn bit_write_le_7_1(b: &mut [u8], v: u8) { BitCodecLE::write::<u8, 1, 7>(b, v) }
    pub fn bit_read_le_9_0(b: &[u8]) -> u16 { BitCodecLE::read::<u16, 0, 9>(b) }
    pub fn bit_write_le_9_0(b: &mut [u8], v: u16) { BitCodecLE::write::<u16, 0, 9>(b, v) }
    pub fn bit_read_le_9_3(b: &[u8]) -> u16 { BitCodecLE::read::<u16, 3, 9>(b) }
    pub fn bit_write_le_9_3(b: &mut [u8], v: u16) { BitCodecLE::write::<u16, 3, 9>(b, v) }
    pub fn bit_read_le_9_7(b: &[u8]) -> u16 { BitCodecLE::read::<u16, 7, 9>(b) }
    pub fn bit_write_le_9_7(b: &mut [u8], v: u16) { BitCodecLE::write::<u16, 7, 9>(b, v) }
    pub fn bit_read_le_12_0(b: &[u8]) -> u16 { BitCodecLE::read::<u16, 0, 12>(b) }
    pub fn bit_write_le_12_0(b: &mut [u8], v: u16) { BitCodecLE::write::<u16, 0, 12>(b, v) }
    pub fn bit_read_le_12_2(b: &[u8]) -> u16 { BitCodecLE::read::<u16, 2, 12>(b) }
    pub fn bit_write_le_12_2(b: &mut [u8], v: u16) { BitCodecLE::write::<u16, 2, 12>(b, v) }
    pub fn bit_read_le_12_4(b: &[u8]) -> u16 { BitCodecLE::read::<u16, 4, 12>(b) }
    pub fn bit_write_le_12_4(b: &mut [u8], v: u16) { BitCodecLE::write::<u16, 4, 12>(b, v) }
    pub fn bit_read_le_15_0(b: &[u8]) -> u16 { BitCodecLE::read::<u16, 0, 15>(b) }
    pub fn bit_write_le_15_0(b: &mut [u8], v: u16) { BitCodecLE::write::<u16, 0, 15>(b, v) }
    pub fn bit_read_le_15_1(b: &[u8]) -> u16 { BitCodecLE::read::<u16, 1, 15>(b) }
    pub fn bit_write_le_15_1(b: &mut [u8], v: u16) { BitCodecLE::write::<u16, 1, 15>(b, v) }
    pub fn bit_read_le_17_0(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 0, 17>(b) }
    pub fn bit_write_le_17_0(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 0, 17>(b, v) }
    pub fn bit_read_le_17_3(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 3, 17>(b) }
    pub fn bit_write_le_17_3(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 3, 17>(b, v) }
    pub fn bit_read_le_17_7(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 7, 17>(b) }
    pub fn bit_write_le_17_7(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 7, 17>(b, v) }
    pub fn bit_read_le_20_0(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 0, 20>(b) }
    pub fn bit_write_le_20_0(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 0, 20>(b, v) }
    pub fn bit_read_le_20_2(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 2, 20>(b) }
    pub fn bit_write_le_20_2(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 2, 20>(b, v) }
    pub fn bit_read_le_20_4(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 4, 20>(b) }
    pub fn bit_write_le_20_4(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 4, 20>(b, v) }
    pub fn bit_read_le_23_0(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 0, 23>(b) }
    pub fn bit_write_le_23_0(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 0, 23>(b, v) }
    pub fn bit_read_le_23_1(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 1, 23>(b) }
    pub fn bit_write_le_23_1(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 1, 23>(b, v) }
    pub fn bit_read_le_25_0(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 0, 25>(b) }
    pub fn bit_write_le_25_0(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 0, 25>(b, v) }
    pub fn bit_read_le_25_3(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 3, 25>(b) }
    pub fn bit_write_le_25_3(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 3, 25>(b, v) }
    pub fn bit_read_le_25_7(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 7, 25>(b) }
    pub fn bit_write_le_25_7(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 7, 25>(b, v) }
    pub fn bit_read_le_28_0(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 0, 28>(b) }
    pub fn bit_write_le_28_0(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 0, 28>(b, v) }
    pub fn bit_read_le_28_2(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 2, 28>(b) }
    pub fn bit_write_le_28_2(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 2, 28>(b, v) }
    pub fn bit_read_le_28_4(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 4, 28>(b) }
    pub fn bit_write_le_28_4(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 4, 28>(b, v) }
    pub fn bit_read_le_31_0(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 0, 31>(b) }
    pub fn bit_write_le_31_0(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 0, 31>(b, v) }
    pub fn bit_read_le_31_1(b: &[u8]) -> u32 { BitCodecLE::read::<u32, 1, 31>(b) }
    pub fn bit_write_le_31_1(b: &mut [u8], v: u32) { BitCodecLE::write::<u32, 1, 31>(b, v) }
    pub fn bit_read_le_33_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 33>(b) }
    pub fn bit_write_le_33_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 33>(b, v) }
    pub fn bit_read_le_33_3(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 3, 33>(b) }
    pub fn bit_write_le_33_3(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 3, 33>(b, v) }
    pub fn bit_read_le_33_7(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 7, 33>(b) }
    pub fn bit_write_le_33_7(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 7, 33>(b, v) }
    pub fn bit_read_le_37_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 37>(b) }
    pub fn bit_write_le_37_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 37>(b, v) }
    pub fn bit_read_le_37_1(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 1, 37>(b) }
    pub fn bit_write_le_37_1(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 1, 37>(b, v) }
    pub fn bit_read_le_37_3(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 3, 37>(b) }
    pub fn bit_write_le_37_3(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 3, 37>(b, v) }
    pub fn bit_read_le_39_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 39>(b) }
    pub fn bit_write_le_39_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 39>(b, v) }
    pub fn bit_read_le_39_1(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 1, 39>(b) }
    pub fn bit_write_le_39_1(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 1, 39>(b, v) }
    pub fn bit_read_le_41_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 41>(b) }
    pub fn bit_write_le_41_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 41>(b, v) }
    pub fn bit_read_le_41_3(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 3, 41>(b) }
    pub fn bit_write_le_41_3(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 3, 41>(b, v) }
    pub fn bit_read_le_41_7(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 7, 41>(b) }
    pub fn bit_write_le_41_7(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 7, 41>(b, v) }
    pub fn bit_read_le_44_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 44>(b) }
    pub fn bit_write_le_44_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 44>(b, v) }
    pub fn bit_read_le_44_2(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 2, 44>(b) }
    pub fn bit_write_le_44_2(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 2, 44>(b, v) }
    pub fn bit_read_le_44_4(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 4, 44>(b) }
    pub fn bit_write_le_44_4(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 4, 44>(b, v) }
    pub fn bit_read_le_47_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 47>(b) }
    pub fn bit_write_le_47_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 47>(b, v) }
    pub fn bit_read_le_47_1(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 1, 47>(b) }
    pub fn bit_write_le_47_1(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 1, 47>(b, v) }
    pub fn bit_read_le_49_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 49>(b) }
    pub fn bit_write_le_49_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 49>(b, v) }
    pub fn bit_read_le_49_3(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 3, 49>(b) }
    pub fn bit_write_le_49_3(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 3, 49>(b, v) }
    pub fn bit_read_le_49_7(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 7, 49>(b) }
    pub fn bit_write_le_49_7(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 7, 49>(b, v) }
    pub fn bit_read_le_52_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 52>(b) }
    pub fn bit_write_le_52_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 52>(b, v) }
    pub fn bit_read_le_52_2(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 2, 52>(b) }
    pub fn bit_write_le_52_2(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 2, 52>(b, v) }
    pub fn bit_read_le_52_4(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 4, 52>(b) }
    pub fn bit_write_le_52_4(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 4, 52>(b, v) }
    pub fn bit_read_le_55_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 55>(b) }
    pub fn bit_write_le_55_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 55>(b, v) }
    pub fn bit_read_le_55_1(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 1, 55>(b) }
    pub fn bit_write_le_55_1(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 1, 55>(b, v) }
    pub fn bit_read_le_57_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 57>(b) }
    pub fn bit_write_le_57_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 57>(b, v) }
    pub fn bit_read_le_57_3(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 3, 57>(b) }
    pub fn bit_write_le_57_3(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 3, 57>(b, v) }
    pub fn bit_read_le_57_7(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 7, 57>(b) }
    pub fn bit_write_le_57_7(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 7, 57>(b, v) }
    pub fn bit_read_le_60_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 60>(b) }
    pub fn bit_write_le_60_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 60>(b, v) }
    pub fn bit_read_le_60_2(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 2, 60>(b) }
    pub fn bit_write_le_60_2(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 2, 60>(b, v) }
    pub fn bit_read_le_60_4(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 4, 60>(b) }
    pub fn bit_write_le_60_4(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 4, 60>(b, v) }
    pub fn bit_read_le_63_0(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 0, 63>(b) }
    pub fn bit_write_le_63_0(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 0, 63>(b, v) }
    pub fn bit_read_le_63_1(b: &[u8]) -> u64 { BitCodecLE::read::<u64, 1, 63>(b) }
    pub fn bit_write_le_63_1(b: &mut [u8], v: u64) { BitCodecLE::write::<u64, 1, 63>(b, v) }
    pub fn byte_read_be_u8_1(b: &[u8]) -> u8 { ByteCodecBE::read::<u8>(b) }
    pub fn byte_write_be_u8_1(b: &mut [u8], v: u8) { ByteCodecBE::write::<u8>(b, v) }
    pub fn byte_read_be_i8_1(b: &[u8]) -> i8 { ByteCodecBE::read::<i8>(b) }
    pub fn byte_write_be_i8_1(b: &mut [u8], v: i8) { ByteCodecBE::write::<i8>(b, v) }
    pub fn byte_read_be_u64_1(b: &[u8]) -> u64 { ByteCodecBE::read::<u64>(b) }
    pub fn byte_write_be_u64_1(b: &mut [u8], v: u64) { ByteCodecBE::write::<u64>(b, v) }
    pub fn byte_read_be_u16_2(b: &[u8]) -> u16 { ByteCodecBE::read::<u16>(b) }
    pub fn byte_write_be_u16_2(b: &mut [u8], v: u16) { ByteCodecBE::write::<u16>(b, v) }
    pub fn byte_read_be_i16_2(b: &[u8]) -> i16 { ByteCodecBE::read::<i16>(b) }
    pub fn byte_write_be_i16_2(b: &mut [u8], v: i16) { ByteCodecBE::write::<i16>(b, v) }
    pub fn byte_read_be_u64_2(b: &[u8]) -> u64 { ByteCodecBE::read::<u64>(b) }
    pub fn byte_write_be_u64_2(b: &mut [u8], v: u64) { ByteCodecBE::write::<u64>(b, v) }
    pub fn byte_read_be_u32_3(b: &[u8]) -> u32 { ByteCodecBE::read::<u32>(b) }
    pub fn byte_write_be_u32_3(b: &mut [u8], v: u32) { ByteCodecBE::write::<u32>(b, v) }
    pub fn byte_read_be_u64_3(b: &[u8]) -> u64 { ByteCodecBE::read::<u64>(b) }
    pub fn byte_write_be_u64_3(b: &mut [u8], v: u64) { ByteCodecBE::write::<u64>(b, v) }
    pub fn byte_read_be_u32_4(b: &[u8]) -> u32 { ByteCodecBE::read::<u32>(b) }
    pub fn byte_write_be_u32_4(b: &mut [u8], v: u32) { ByteCodecBE::write::<u32>(b, v) }
    pub fn byte_read_be_i32_4(b: &[u8]) -> i32 { ByteCodecBE::read::<i32>(b) }
    pub fn byte_write_be_i32_4(b: &mut [u8], v: i32) { ByteCodecBE::write::<i32>(b, v) }
    pub fn byte_read_be_f32_4(b: &[u8]) -> f32 { ByteCodecBE::read::<f32>(b) }
    pub fn byte_write_be_f32_4(b: &mut [u8], v: f32) { ByteCodecBE::write::<f32>(b, v) }
    pub fn byte_read_be_u64_4(b: &[u8]) -> u64 { ByteCodecBE::read::<u64>(b) }
    pub fn byte_write_be_u64_4(b: &mut [u8], v: u64) { ByteCodecBE::write::<u64>(b, v) }
    pub fn byte_read_be_u64_5(b: &[u8]) -> u64 { ByteCodecBE::read::<u64>(b) }
    pub fn byte_write_be_u64_5(b: &mut [u8], v: u64) { ByteCodecBE::write::<u64>(b, v) }
    pub fn byte_read_be_u64_6(b: &[u8]) -> u64 { ByteCodecBE::read::<u64>(b) }
    pub fn byte_write_be_u64_6(b: &mut [u8], v: u64) { ByteCodecBE::write::<u64>(b, v) }
    pub fn byte_read_be_u64_7(b: &[u8]) -> u64 { ByteCodecBE::read::<u64>(b) }
    pub fn byte_write_be_u64_7(b: &mut [u8], v: u64) { ByteCodecBE::write::<u64>(b, v) }
    pub fn byte_read_be_u64_8(b: &[u8]) -> u64 { ByteCodecBE::read::<u64>(b) }
    pub fn byte_write_be_u64_8(b: &mut [u8], v: u64) { ByteCodecBE::write::<u64>(b, v) }
    pub fn byte_read_be_i64_8(b: &[u8]) -> i64 { ByteCodecBE::read::<i64>(b) }
    pub fn byte_write_be_i64_8(b: &mut [u8], v: i64) { ByteCodecBE::write::<i64>(b, v) }
    pub fn byte_read_be_f64_8(b: &[u8]) -> f64 { ByteCodecBE::read::<f64>(b) }
    pub fn byte_write_be_f64_8(b: &mut [u8], v: f64) { ByteCodecBE::write::<f64>(b, v) }
    pub fn bit_read_be_1_0(b: &[u8]) -> u8 { BitCodecBE::read::<u8, 0, 1>(b) }
    pub fn bit_write_be_1_0(b: &mut [u8], v: u8) { BitCodecBE::write::<u8, 0, 1>(b, v) }
    pub fn bit_read_be_1_3(b: &[u8]) -> u8 { BitCodecBE::read::<u8, 3, 1>(b) }
    pub fn bit_write_be_1_3(b: &mut [u8], v: u8) { BitCodecBE::write::<u8, 3, 1>(b, v) }
    pub fn bit_read_be_1_7(b: &[u8]) -> u8 { BitCodecBE::read::<u8, 7, 1>(b) }
    pub fn bit_write_be_1_7(b: &mut [u8], v: u8) { BitCodecBE::write::<u8, 7, 1>(b, v) }
    pub fn bit_read_be_3_0(b: &[u8]) -> u8 { BitCodecBE::read::<u8, 0, 3>(b) }
    pub fn bit_write_be_3_0(b: &mut [u8], v: u8) { BitCodecBE::write::<u8, 0, 3>(b, v) }
    pub fn bit_read_be_3_2(b: &[u8]) -> u8 { BitCodecBE::read::<u8, 2, 3>(b) }
    pub fn bit_write_be_3_2(b: &mut [u8], v: u8) { BitCodecBE::write::<u8, 2, 3>(b, v) }
    pub fn bit_read_be_3_5(b: &[u8]) -> u8 { BitCodecBE::read::<u8, 5, 3>(b) }
    pub fn bit_write_be_3_5(b: &mut [u8], v: u8) { BitCodecBE::write::<u8, 5, 3>(b, v) }
    pub fn bit_read_be_7_0(b: &[u8]) -> u8 { BitCodecBE::read::<u8, 0, 7>(b) }
    pub fn bit_write_be_7_0(b: &mut [u8], v: u8) { BitCodecBE::write::<u8, 0, 7>(b, v) }
    pub fn bit_read_be_7_1(b: &[u8]) -> u8 { BitCodecBE::read::<u8, 1, 7>(b) }
    pub fn bit_write_be_7_1(b: &mut [u8], v: u8) { BitCodecBE::write::<u8, 1, 7>(b, v) }
    pub fn bit_read_be_9_0(b: &[u8]) -> u16 { BitCodecBE::read::<u16, 0, 9>(b) }
    pub fn bit_write_be_9_0(b: &mut [u8], v: u16) { BitCodecBE::write::<u16, 0, 9>(b, v) }
    pub fn bit_read_be_9_3(b: &[u8]) -> u16 { BitCodecBE::read::<u16, 3, 9>(b) }
    pub fn bit_write_be_9_3(b: &mut [u8], v: u16) { BitCodecBE::write::<u16, 3, 9>(b, v) }
    pub fn bit_read_be_9_7(b: &[u8]) -> u16 { BitCodecBE::read::<u16, 7, 9>(b) }
    pub fn bit_write_be_9_7(b: &mut [u8], v: u16) { BitCodecBE::write::<u16, 7, 9>(b, v) }
    pub fn bit_read_be_12_0(b: &[u8]) -> u16 { BitCodecBE::read::<u16, 0, 12>(b) }
    pub fn bit_write_be_12_0(b: &mut [u8], v: u16) { BitCodecBE::write::<u16, 0, 12>(b, v) }
    pub fn bit_read_be_12_2(b: &[u8]) -> u16 { BitCodecBE::read::<u16, 2, 12>(b) }
    pub fn bit_write_be_12_2(b: &mut [u8], v: u16) { BitCodecBE::write::<u16, 2, 12>(b, v) }
    pub fn bit_read_be_12_4(b: &[u8]) -> u16 { BitCodecBE::read::<u16, 4, 12>(b) }
    pub fn bit_write_be_12_4(b: &mut [u8], v: u16) { BitCodecBE::write::<u16, 4, 12>(b, v) }
    pub fn bit_read_be_15_0(b: &[u8]) -> u16 { BitCodecBE::read::<u16, 0, 15>(b) }
    pub fn bit_write_be_15_0(b: &mut [u8], v: u16) { BitCodecBE::write::<u16, 0, 15>(b, v) }
    pub fn bit_read_be_15_1(b: &[u8]) -> u16 { BitCodecBE::read::<u16, 1, 15>(b) }
    pub fn bit_write_be_15_1(b: &mut [u8], v: u16) { BitCodecBE::write::<u16, 1, 15>(b, v) }
    pub fn bit_read_be_17_0(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 0, 17>(b) }
    pub fn bit_write_be_17_0(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 0, 17>(b, v) }
    pub fn bit_read_be_17_3(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 3, 17>(b) }
    pub fn bit_write_be_17_3(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 3, 17>(b, v) }
    pub fn bit_read_be_17_7(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 7, 17>(b) }
    pub fn bit_write_be_17_7(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 7, 17>(b, v) }
    pub fn bit_read_be_20_0(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 0, 20>(b) }
    pub fn bit_write_be_20_0(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 0, 20>(b, v) }
    pub fn bit_read_be_20_2(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 2, 20>(b) }
    pub fn bit_write_be_20_2(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 2, 20>(b, v) }
    pub fn bit_read_be_20_4(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 4, 20>(b) }
    pub fn bit_write_be_20_4(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 4, 20>(b, v) }
    pub fn bit_read_be_23_0(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 0, 23>(b) }
    pub fn bit_write_be_23_0(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 0, 23>(b, v) }
    pub fn bit_read_be_23_1(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 1, 23>(b) }
    pub fn bit_write_be_23_1(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 1, 23>(b, v) }
    pub fn bit_read_be_25_0(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 0, 25>(b) }
    pub fn bit_write_be_25_0(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 0, 25>(b, v) }
    pub fn bit_read_be_25_3(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 3, 25>(b) }
    pub fn bit_write_be_25_3(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 3, 25>(b, v) }
    pub fn bit_read_be_25_7(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 7, 25>(b) }
    pub fn bit_write_be_25_7(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 7, 25>(b, v) }
    pub fn bit_read_be_28_0(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 0, 28>(b) }
    pub fn bit_write_be_28_0(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 0, 28>(b, v) }
    pub fn bit_read_be_28_2(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 2, 28>(b) }
    pub fn bit_write_be_28_2(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 2, 28>(b, v) }
    pub fn bit_read_be_28_4(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 4, 28>(b) }
    pub fn bit_write_be_28_4(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 4, 28>(b, v) }
    pub fn bit_read_be_31_0(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 0, 31>(b) }
    pub fn bit_write_be_31_0(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 0, 31>(b, v) }
    pub fn bit_read_be_31_1(b: &[u8]) -> u32 { BitCodecBE::read::<u32, 1, 31>(b) }
    pub fn bit_write_be_31_1(b: &mut [u8], v: u32) { BitCodecBE::write::<u32, 1, 31>(b, v) }
    pub fn bit_read_be_33_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 33>(b) }
    pub fn bit_write_be_33_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 33>(b, v) }
    pub fn bit_read_be_33_3(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 3, 33>(b) }
    pub fn bit_write_be_33_3(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 3, 33>(b, v) }
    pub fn bit_read_be_33_7(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 7, 33>(b) }
    pub fn bit_write_be_33_7(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 7, 33>(b, v) }
    pub fn bit_read_be_37_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 37>(b) }
    pub fn bit_write_be_37_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 37>(b, v) }
    pub fn bit_read_be_37_1(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 1, 37>(b) }
    pub fn bit_write_be_37_1(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 1, 37>(b, v) }
    pub fn bit_read_be_37_3(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 3, 37>(b) }
    pub fn bit_write_be_37_3(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 3, 37>(b, v) }
    pub fn bit_read_be_39_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 39>(b) }
    pub fn bit_write_be_39_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 39>(b, v) }
    pub fn bit_read_be_39_1(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 1, 39>(b) }
    pub fn bit_write_be_39_1(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 1, 39>(b, v) }
    pub fn bit_read_be_41_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 41>(b) }
    pub fn bit_write_be_41_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 41>(b, v) }
    pub fn bit_read_be_41_3(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 3, 41>(b) }
    pub fn bit_write_be_41_3(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 3, 41>(b, v) }
    pub fn bit_read_be_41_7(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 7, 41>(b) }
    pub fn bit_write_be_41_7(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 7, 41>(b, v) }
    pub fn bit_read_be_44_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 44>(b) }
    pub fn bit_write_be_44_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 44>(b, v) }
    pub fn bit_read_be_44_2(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 2, 44>(b) }
    pub fn bit_write_be_44_2(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 2, 44>(b, v) }
    pub fn bit_read_be_44_4(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 4, 44>(b) }
    pub fn bit_write_be_44_4(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 4, 44>(b, v) }
    pub fn bit_read_be_47_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 47>(b) }
    pub fn bit_write_be_47_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 47>(b, v) }
    pub fn bit_read_be_47_1(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 1, 47>(b) }
    pub fn bit_write_be_47_1(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 1, 47>(b, v) }
    pub fn bit_read_be_49_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 49>(b) }
    pub fn bit_write_be_49_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 49>(b, v) }
    pub fn bit_read_be_49_3(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 3, 49>(b) }
    pub fn bit_write_be_49_3(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 3, 49>(b, v) }
    pub fn bit_read_be_49_7(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 7, 49>(b) }
    pub fn bit_write_be_49_7(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 7, 49>(b, v) }
    pub fn bit_read_be_52_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 52>(b) }
    pub fn bit_write_be_52_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 52>(b, v) }
    pub fn bit_read_be_52_2(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 2, 52>(b) }
    pub fn bit_write_be_52_2(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 2, 52>(b, v) }
    pub fn bit_read_be_52_4(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 4, 52>(b) }
    pub fn bit_write_be_52_4(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 4, 52>(b, v) }
    pub fn bit_read_be_55_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 55>(b) }
    pub fn bit_write_be_55_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 55>(b, v) }
    pub fn bit_read_be_55_1(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 1, 55>(b) }
    pub fn bit_write_be_55_1(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 1, 55>(b, v) }
    pub fn bit_read_be_57_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 57>(b) }
    pub fn bit_write_be_57_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 57>(b, v) }
    pub fn bit_read_be_57_3(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 3, 57>(b) }
    pub fn bit_write_be_57_3(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 3, 57>(b, v) }
    pub fn bit_read_be_57_7(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 7, 57>(b) }
    pub fn bit_write_be_57_7(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 7, 57>(b, v) }
    pub fn bit_read_be_60_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 60>(b) }
    pub fn bit_write_be_60_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 60>(b, v) }
    pub fn bit_read_be_60_2(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 2, 60>(b) }
    pub fn bit_write_be_60_2(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 2, 60>(b, v) }
    pub fn bit_read_be_60_4(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 4, 60>(b) }
    pub fn bit_write_be_60_4(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 4, 60>(b, v) }
    pub fn bit_read_be_63_0(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 0, 63>(b) }
    pub fn bit_write_be_63_0(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 0, 63>(b, v) }
    pub fn bit_read_be_63_1(b: &[u8]) -> u64 { BitCodecBE::read::<u64, 1, 63>(b) }
    pub fn bit_write_be_63_1(b: &mut [u8], v: u64) { BitCodecBE::write::<u64, 1, 63>(b, v) }
}
bp3d_proto::generate_array_wrapper!(Wrapped, Fix, Prefix);
pub fn wrapper_get<'a>(l: &'a Wrapped<'a, &'a [u8]>, i: usize) -> Fix<&'a [u8]> { l.get(i) }
pub fn wrapper_len<'a>(l: &'a Wrapped<'a, &'a [u8]>) -> usize { l.len() }
pub fn wrapper_from_parts<'a>(b: &'a [u8], len: usize) -> Option<Wrapped<'a, &'a [u8]>> { Wrapped::from_parts(b, len) }
pub fn wrapper_get_mut<'a>(l: &'a mut Wrapped<'a, &'a mut [u8]>, i: usize) -> Fix<&'a mut [u8]> { l.get_mut(i) }
pub fn wrapper_iter<'a>(l: &'a Wrapped<'a, &'a [u8]>) -> array::Iter<'a, Fix<&'a [u8]>> { l.iter() }
pub fn wrapper_iter_mut<'a>(l: &'a mut Wrapped<'a, &'a mut [u8]>) -> array::IterMut<'a, Fix<&'a mut [u8]>> { l.iter_mut() }
pub fn wrapper_to_ref<'a>(l: &'a Wrapped<'a, &'a [u8]>) -> Array<&'a [u8], Prefix, Fix<&'a [u8]>> { l.to_ref() }
pub fn wrapper_write_item<'a>(l: &mut Wrapped<'a, OpaqueW>, i: &Fix<&[u8]>) -> Result<()> { l.write_item(i) }
pub fn wrapper_write_items<'a>(l: &mut Wrapped<'a, OpaqueW>, i: &[Fix<&[u8]>]) -> Result<()> { l.write_items(i) }
pub fn wrapper_new<'a>(b: OpaqueW) -> Wrapped<'a, OpaqueW> { Wrapped::new(b) }

