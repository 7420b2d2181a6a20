From a52420109fa0061c0e15981e91370dc1135a137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 01/42] fix: reject truncated varchar strings instead of
 panicking

---
 runtime/src/message/util/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 3a5fe43..435e585 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -64,7 +64,7 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>> FromSlice<'a> for VarcharString<T> {
     fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         let msg = T::from_slice(slice)?;
         let size = msg.size();
-        let subslice = &slice[size..size + msg.into_inner().to_usize()];
+        let subslice = slice[size..].get(..msg.into_inner().to_usize()).ok_or(Error::Truncated)?;
         let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
         Ok(Message::new(size + string.len(), string))
     }
-- 
2.43.0


From d93193c57939265fee0fd37bae028ef835031550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 02/42] fix: check for overflow in the total size of an array

---
 runtime/src/message/util/array.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 99e2ccb..02610b2 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -72,7 +72,7 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
 
 impl<B: AsRef<[u8]>, T, Item: FixedSize> Array<B, T, Item> {
     pub fn from_parts(data: B, len: usize) -> Option<Array<B, T, Item>> {
-        match data.as_ref().len() == len * Item::SIZE {
+        match Some(data.as_ref().len()) == len.checked_mul(Item::SIZE) {
             true => Some(unsafe { Array::from_raw_parts(data, len) }),
             false => None
         }
@@ -116,7 +116,9 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FixedSize + FromSlice<'a, Outp
         let msg = T::from_slice(slice)?;
         let control_size = msg.size();
         let len = msg.into_inner().to_usize();
-        let total_size = control_size + (len * Item::SIZE);
+        let total_size = len.checked_mul(Item::SIZE)
+            .and_then(|size| size.checked_add(control_size))
+            .ok_or(Error::Truncated)?;
         if slice.len() < total_size {
             Err(Error::Truncated)
         } else {
-- 
2.43.0


From fe2442bd0d5d9a45493cfe7637dac88cb41af448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 03/42] fix: refuse to write null-terminated strings containing
 a null character

---
 runtime/src/message/interface.rs   | 6 ++++++
 runtime/src/message/util/string.rs | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/runtime/src/message/interface.rs b/runtime/src/message/interface.rs
index cf7c115..2b857cc 100644
--- a/runtime/src/message/interface.rs
+++ b/runtime/src/message/interface.rs
@@ -37,6 +37,12 @@ simple_error! {
     }
 }
 
+impl Error {
+    pub(crate) fn invalid_input(msg: &str) -> Self {
+        Error::Io(std::io::Error::new(std::io::ErrorKind::InvalidInput, msg))
+    }
+}
+
 pub type Result<T> = std::result::Result<T, Error>;
 
 #[derive(Default, Copy, Clone, Debug)]
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 435e585..89832f9 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -50,6 +50,9 @@ impl WriteTo for NullTerminatedString {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        if input.as_bytes().contains(&0x0) {
+            return Err(Error::invalid_input("null character in null-terminated string"));
+        }
         out.write_all(input.as_bytes())?;
         out.write_all(&[0x0])?;
         Ok(())
-- 
2.43.0


From 5d81ce115506370a1e03d430a78de2acfca203a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 04/42] fix: refuse to write lengths which do not fit in the
 length prefix

---
 runtime/src/message/util/common.rs    | 9 +++++++++
 runtime/src/message/util/list_base.rs | 1 +
 runtime/src/message/util/string.rs    | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index ed58874..8297cdb 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -30,6 +30,15 @@ use std::io::Write;
 use std::marker::PhantomData;
 use bytesutil::ReadBytes;
 use crate::message::{Error, FromSlice, FromSliceWithOffsets, Message, WriteTo};
+use crate::util::ToUsize;
+
+/// Checks that the given length can be represented by the integer type of its length prefix.
+pub(crate) fn check_len<T: ToUsize>(len: usize) -> Result<(), Error> {
+    match T::from_usize(len).to_usize() == len {
+        true => Ok(()),
+        false => Err(Error::invalid_input("length does not fit in the length prefix"))
+    }
+}
 
 pub struct Optional<T>(PhantomData<T>);
 
diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 4a0f801..6d9a29f 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -51,6 +51,7 @@ macro_rules! impl_list_base {
             type Input = $t<B, T, Item>;
 
             fn write_to<W: std::io::Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+                $crate::message::util::common::check_len::<T::Input>(input.len)?;
                 T::write_to(&T::Input::from_usize(input.len), &mut out)?;
                 out.write_all(input.data.as_ref())?;
                 Ok(())
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 89832f9..2c7a678 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -29,6 +29,7 @@
 use std::io::Write;
 use std::marker::PhantomData;
 use crate::message::{Error, FromSlice, Message, WriteTo};
+use crate::message::util::common::check_len;
 use crate::util::ToUsize;
 
 pub struct NullTerminatedString;
@@ -77,6 +78,7 @@ impl<T: WriteTo<Input: ToUsize + Sized>> WriteTo for VarcharString<T> {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        check_len::<T::Input>(input.len())?;
         T::write_to(&T::Input::from_usize(input.len()), &mut out)?;
         out.write_all(input.as_bytes())?;
         Ok(())
-- 
2.43.0


From 729b4dbe84691e574774e0b355062202273f2638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 05/42] fix: stop iterating a list after a malformed item

---
 runtime/src/message/util/list.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index 23164cd..e8e6ce0 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -73,7 +73,10 @@ impl<'a, Item: FromSlice<'a, Output = Item>> Iterator for Iter<'a, Item> {
             return None;
         }
         let msg = match Item::from_slice(self.data) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
@@ -96,7 +99,10 @@ impl<'a, Item: FromSlice<'a, Output = Item> + FromSliceWithOffsets<'a>> Iterator
             return None;
         }
         let msg = match Item::from_slice_with_offsets(&self.data[..]) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
-- 
2.43.0


From 9fef935dcff98ae43971c5fef2523dcd092ac92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 06/42] fix: allow optional fields whose codec does not output
 itself

---
 runtime/src/message/util/common.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index 8297cdb..e8d182b 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -42,10 +42,10 @@ pub(crate) fn check_len<T: ToUsize>(len: usize) -> Result<(), Error> {
 
 pub struct Optional<T>(PhantomData<T>);
 
-impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
-    type Output = Option<T>;
+impl<'a, T: FromSlice<'a>> FromSlice<'a> for Optional<T> {
+    type Output = Option<T::Output>;
 
-    fn from_slice(slice: &'a [u8]) -> Result<Message<Option<T>>, Error> {
+    fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         if slice.len() < 1 {
             Err(Error::Truncated)
         } else {
@@ -60,7 +60,7 @@ impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
     }
 }
 
-impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
+impl<'a, T: FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
     type Offsets = Option<T::Offsets>;
 
     fn from_slice_with_offsets(slice: &'a [u8]) -> crate::message::Result<Message<(Self::Output, Self::Offsets)>> {
@@ -80,8 +80,8 @@ impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithO
     }
 }
 
-impl<T: WriteTo<Input = T>> WriteTo for Optional<T> {
-    type Input = Option<T>;
+impl<T: WriteTo<Input: Sized>> WriteTo for Optional<T> {
+    type Input = Option<T::Input>;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
         match input {
-- 
2.43.0


From 8a4225382401f1ddbf7ca2b77137544a0abe1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 07/42] fix: right-align big-endian values narrower than their
 integer type

---
 runtime/src/codec/bits.rs  | 16 ++++++++++++++++
 runtime/src/codec/bytes.rs | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index fb992a3..6004fb5 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -87,12 +87,28 @@ impl BitCodec for BitCodecLE {
 }
 
 impl BitCodec for BitCodecBE {
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let mut data = [0; 8];
+        let start = size_of::<T>().saturating_sub(buffer.len());
+        data[start..start + buffer.len()].copy_from_slice(buffer);
+        Self::read_aligned::<T, BIT_OFFSET, BIT_SIZE>(&data)
+    }
+
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         let mask: usize = (1 << BIT_SIZE) - 1;
         let value = T::read_bytes_be(buffer);
         (value >> T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET)) & T::from_usize(mask)
     }
 
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let mut data = [0; 8];
+        let start = size_of::<T>().saturating_sub(buffer.len());
+        let end = start + buffer.len();
+        data[start..end].copy_from_slice(buffer);
+        Self::write_aligned::<T, BIT_OFFSET, BIT_SIZE>(&mut data, value);
+        buffer.copy_from_slice(&data[start..end]);
+    }
+
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = (1 << BIT_SIZE) - 1;
         let reset_mask = !(mask << BIT_OFFSET);
diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index 2143e4c..444acfd 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -78,10 +78,26 @@ impl ByteCodec for ByteCodecLE {
 }
 
 impl ByteCodec for ByteCodecBE {
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        let mut data = [0; 8];
+        let start = size_of::<T>().saturating_sub(buffer.len());
+        data[start..start + buffer.len()].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data)
+    }
+
     unsafe fn read_aligned<T: ReadBytes>(buffer: &[u8]) -> T {
         T::read_bytes_be(buffer)
     }
 
+    unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        let mut data = [0; 8];
+        let start = size_of::<T>().saturating_sub(buffer.len());
+        let end = start + buffer.len();
+        data[start..end].copy_from_slice(buffer);
+        Self::write_aligned::<T>(&mut data, value);
+        buffer.copy_from_slice(&data[start..end]);
+    }
+
     unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
         value.write_bytes_be(buffer);
     }
-- 
2.43.0


From b367ad584167742b35c5d4d580595f20ccf1ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 08/42] fix: preserve neighbouring bits when writing big-endian
 bit fields

---
 runtime/src/codec/bits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index 6004fb5..85308c0 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -111,7 +111,7 @@ impl BitCodec for BitCodecBE {
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = (1 << BIT_SIZE) - 1;
-        let reset_mask = !(mask << BIT_OFFSET);
+        let reset_mask = !(mask << (8 - (BIT_SIZE % 8) - BIT_OFFSET));
         let original = T::read_bytes_be(buffer);
         let clean = original & T::from_usize(reset_mask);
         let value = (value & T::from_usize(mask)) << T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET);
-- 
2.43.0


From affb14d93c1df5f189d5ee284869292c050eab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 09/42] fix: honour the endianness declared by a protocol

---
 compiler/src/compiler/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index cc0dccc..e53245a 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -55,7 +55,7 @@ impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
-            endianness: Endianness::Little,
+            endianness: value.endianness.unwrap_or(Endianness::Little),
             type_path_by_name: TypePathMap::new(),
             structs_by_name: HashMap::new(),
             messages_by_name: HashMap::new(),
-- 
2.43.0


From 48d6e3b0a3b02cde3e45091400e3cb8bb41af948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 10/42] fix: reject unsupported bit sizes before computing
 views

---
 compiler/src/compiler/structure.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 3517776..a93a18d 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -298,6 +298,9 @@ impl Field {
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
                 let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
+                if bit_size == 0 || bit_size > 64 {
+                    return Err(Error::UnsupportedBitSize(bit_size));
+                }
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
                 bit_size *= array_len;
                 let ty = FixedFieldType::from_model(value.info)?;
-- 
2.43.0


From b9cbf8f132cfbbfa1cb2e9e9353c531f38083872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 11/42] fix: make float range views map the whole range and be
 invertible

---
 compiler/src/compiler/error.rs     |  1 +
 compiler/src/compiler/structure.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 5c77b70..a4c38c0 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -36,6 +36,7 @@ simple_error! {
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
         UnsupportedViewType(SimpleType) => "unsupported view for type: {:?}",
+        InvalidFloatView => "float view cannot be inverted",
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index a93a18d..a282419 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -189,11 +189,14 @@ impl FieldView {
                 if ty != SimpleType::Float {
                     return Err(Error::UnsupportedViewType(ty));
                 }
-                let raw_max: usize = (1 << bit_size) - 1;
-                let a = max / (raw_max as f64);
+                let raw_max = u64::MAX >> (64 - bit_size);
+                let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
-                let b_inv = -b;
+                let b_inv = -b / a;
+                if ![a, b, a_inv, b_inv].iter().all(|v| v.is_finite()) {
+                    return Err(Error::InvalidFloatView);
+                }
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
@@ -204,6 +207,9 @@ impl FieldView {
                 let b = 0.0;
                 let a_inv = 1.0 / a;
                 let b_inv = 0.0;
+                if !a.is_finite() || !a_inv.is_finite() {
+                    return Err(Error::InvalidFloatView);
+                }
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
             }
             None => {
-- 
2.43.0


From afce6674fbf2e5442babfa3a752d695fecfa2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 12/42] fix: require array items to be aligned on bytes

---
 compiler/src/compiler/structure.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index a282419..b93c71f 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -308,13 +308,13 @@ impl Field {
                     return Err(Error::UnsupportedBitSize(bit_size));
                 }
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
-                bit_size *= array_len;
+                if array_len == 0 || (array_len > 1 && (bit_size % 8 != 0 || last_bit_offset % 8 != 0)) {
+                    return Err(Error::UnalignedArrayCodec);
+                }
+                bit_size = bit_size.checked_mul(array_len).ok_or(Error::UnsupportedBitSize(bit_size))?;
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 {
-                        return Err(Error::UnalignedArrayCodec);
-                    }
                     Ok((Self::Array(FixedArrayField {
                         name: value.name,
                         endianness: proto.endianness,
-- 
2.43.0


From 150575a318f2b53a472f4171743644ae391262f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 13/42] fix: reject array items whose view cannot be applied

---
 compiler/src/compiler/structure.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index b93c71f..ac2e80a 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -307,7 +307,8 @@ impl Field {
                 if bit_size == 0 || bit_size > 64 {
                     return Err(Error::UnsupportedBitSize(bit_size));
                 }
-                let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
+                let simple_type = value.info.get_simple_type();
+                let view = FieldView::from_model(proto, simple_type.clone(), bit_size, value.view)?;
                 if array_len == 0 || (array_len > 1 && (bit_size % 8 != 0 || last_bit_offset % 8 != 0)) {
                     return Err(Error::UnalignedArrayCodec);
                 }
@@ -315,6 +316,15 @@ impl Field {
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
+                    // Array items are read and written as is: views which need a conversion are not possible.
+                    let is_raw = match view {
+                        FieldView::Enum(_) | FieldView::None => true,
+                        FieldView::Transmute => bit_size == ty.get_byte_size() * 8 * array_len,
+                        _ => false
+                    };
+                    if !is_raw {
+                        return Err(Error::UnsupportedViewType(simple_type));
+                    }
                     Ok((Self::Array(FixedArrayField {
                         name: value.name,
                         endianness: proto.endianness,
-- 
2.43.0


From 17709b3e10ec0a91227278a69f783d76cadb7c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 14/42] fix: check for overflow in the total size of a
 structure

---
 compiler/src/compiler/structure.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index ac2e80a..9d7a670 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -295,11 +295,12 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                let next_bit_offset = last_bit_offset.checked_add(r.bit_size).ok_or(Error::UnsupportedBitSize(r.bit_size))?;
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
                     loc: Location::from_model(r.bit_size, last_bit_offset)
-                }), last_bit_offset + r.bit_size))
+                }), next_bit_offset))
             },
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
@@ -313,6 +314,7 @@ impl Field {
                     return Err(Error::UnalignedArrayCodec);
                 }
                 bit_size = bit_size.checked_mul(array_len).ok_or(Error::UnsupportedBitSize(bit_size))?;
+                let next_bit_offset = last_bit_offset.checked_add(bit_size).ok_or(Error::UnsupportedBitSize(bit_size))?;
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
@@ -331,7 +333,7 @@ impl Field {
                         array_len,
                         ty,
                         loc
-                    }), last_bit_offset + bit_size))
+                    }), next_bit_offset))
                 } else {
                     Ok((Self::Fixed(FixedField {
                         name: value.name,
@@ -339,7 +341,7 @@ impl Field {
                         ty,
                         loc,
                         view
-                    }), last_bit_offset + bit_size))
+                    }), next_bit_offset))
                 }
             }
         }
-- 
2.43.0


From 88f200ea7589bb28ce24cb015f50b4c18475a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 15/42] fix: reject fields which cannot be accessed at their
 bit offset

---
 compiler/src/compiler/error.rs     | 1 +
 compiler/src/compiler/structure.rs | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index a4c38c0..109855c 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,7 @@ simple_error! {
         InvalidFloatView => "float view cannot be inverted",
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
+        UnalignedField => "structure field crosses a byte boundary it cannot be accessed across",
         UnalignedArrayCodec => "unaligned array in structure",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 9d7a670..355abb9 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -296,6 +296,9 @@ impl Field {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
                 let next_bit_offset = last_bit_offset.checked_add(r.bit_size).ok_or(Error::UnsupportedBitSize(r.bit_size))?;
+                if last_bit_offset % 8 != 0 {
+                    return Err(Error::UnalignedField);
+                }
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
@@ -335,6 +338,9 @@ impl Field {
                         loc
                     }), next_bit_offset))
                 } else {
+                    if loc.bit_offset + loc.bit_size > loc.byte_size * 8 {
+                        return Err(Error::UnalignedField);
+                    }
                     Ok((Self::Fixed(FixedField {
                         name: value.name,
                         endianness: proto.endianness,
-- 
2.43.0


From e4d4a00a3ddf44702645713b7d0736c2cac9025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 16/42] fix: only inline single field structures whose type has
 the size of the field

---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ad2a248..ba9639c 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -133,7 +133,7 @@ impl Field {
                     Referenced::Struct(r) => {
                         if r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
                             && r.fields[0].as_fixed().map(|v| v.view.is_transmute()).unwrap_or_default()
-                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size % 8 == 0).unwrap_or_default() {
+                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size == v.ty.get_byte_size() * 8).unwrap_or_default() {
                             let fixed = unsafe { r.fields[0].as_fixed().unwrap_unchecked() };
                             Ok(Field {
                                 name: value.name,
-- 
2.43.0


From 5e95e8ac20813921a3156e64e19d2c1a96e17b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 17/42] fix: do not panic when capitalizing a non-ASCII name

---
 compiler/src/gen/template.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index b1afce5..89dc321 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -138,7 +138,8 @@ fn capitalize(value: &str) -> Cow<str> {
     if value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z' {
         value.into()
     } else {
-        (value[..1].to_ascii_uppercase() + &value[1..]).into()
+        let mut chars = value.chars();
+        chars.next().into_iter().map(|c| c.to_ascii_uppercase()).chain(chars).collect::<String>().into()
     }
 }
 
-- 
2.43.0


From 67a4709ed74a28c2661c0b4658a65bec1e29e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 18/42] fix: reject enum views on fields too small for their
 values

---
 compiler/src/compiler/structure.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 355abb9..bc6837d 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -183,6 +183,9 @@ impl FieldView {
                     return Err(Error::UnsupportedViewType(ty));
                 }
                 let r = proto.enums_by_name.get(&name).ok_or_else(|| Error::UndefinedReference(name))?;
+                if r.largest as u64 > u64::MAX >> (64 - bit_size) {
+                    return Err(Error::UnsupportedViewType(ty));
+                }
                 Ok(FieldView::Enum(r.clone()))
             }
             Some(StructFieldView::FloatRange { min, max }) => {
-- 
2.43.0


From ca75894022248a9760b9770eb1c4967036feb4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 19/42] fix: never build enum values which are not declared

---
 compiler/src/gen/base/structure.rs              |  8 ++++++--
 compiler/src/gen/rust/structure.field.template  | 11 ++++++-----
 compiler/src/gen/swift/structure.field.template |  2 ++
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 4041308..ae58138 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -111,8 +111,12 @@ fn gen_field_view_getter<U: Utilities>(field: &FixedField, scope: &Scope, type_p
         FieldView::Float { a, b, .. } => scope.var("view_type", U::get_field_type(field.ty))
             .var("a", format!("{:?}", a)).var("b", format!("{:?}", b))
             .render("getters", &["view_float"]).unwrap(),
-        FieldView::Enum(e) => scope.var("view_type", type_path_by_name.get(&e.name))
-            .var_d("enum_largest", e.largest).render("getters", &["view_enum"]).unwrap(),
+        FieldView::Enum(e) => {
+            scope.var("view_type", type_path_by_name.get(&e.name));
+            let cases = e.variants.iter().map(|(k, v)| scope.clone().var("key", k).var_d("value", v)
+                .render("getters.view_enum", &["case"]).unwrap()).join("");
+            scope.var("enum_cases", cases).var_d("enum_largest", e.largest).render("getters", &["view_enum"]).unwrap()
+        },
         FieldView::Transmute => {
             let field_type = U::get_field_type(field.ty);
             scope.var("view_type", field_type);
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index e4b51f7..b2f9c63 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -30,11 +30,12 @@ impl<T: AsRef<[u8]>> {struct_name}<T> {{
 #fragment pop
 #fragment push view_enum
     pub fn get_{name}(&self) -> Option<{view_type}> {{
-        let raw_value = self.get_raw_{name}();
-        if raw_value > {enum_largest} {{
-            None
-        }} else {{
-            Some(unsafe {{ std::mem::transmute::<{raw_type}, {view_type}>(raw_value) }})
+        match self.get_raw_{name}() {{
+{enum_cases}
+#fragment push case
+            {value} => Some({view_type}::{key}),
+#fragment pop
+            _ => None
         }}
     }}
 #fragment pop
diff --git a/compiler/src/gen/swift/structure.field.template b/compiler/src/gen/swift/structure.field.template
index 74fccbe..c4ee1e1 100644
--- a/compiler/src/gen/swift/structure.field.template
+++ b/compiler/src/gen/swift/structure.field.template
@@ -33,6 +33,8 @@ extension {struct_name} where T: BP3DProto.Buffer {{
         let raw_value = self.raw_{name};
         return {view_type}(raw: raw_value);
     }}
+#fragment push case
+#fragment pop
 #fragment pop
 #fragment push view_transmute
     public {name}: {view_type} {{
-- 
2.43.0


From 6695f4f4dbf330082ab594bd724b945a4e05fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 20/42] fix: check the discriminant when writing union cases
 without an item

---
 compiler/src/gen/rust/union.rs       | 13 ++++++++-----
 compiler/src/gen/rust/union.template | 17 +++++++++++++++--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index cbbf563..4794b07 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -83,18 +83,21 @@ fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &T
     let generics = get_generics(u);
     let mut scope = template.scope();
     if generics != "" {
-        let cases = u.cases.iter().filter_map(|case| {
+        let cases = u.cases.iter().map(|case| {
             let mut scope = template.scope();
             scope.var("name", &case.name).var_d("case", case.case);
             match &case.item_type {
-                None => None,
-                Some(item_type) => Some(scope.var("type_name", type_path_by_name.get(item_type.name()))
-                    .render("write_to.generics", &["case"]).unwrap())
+                None => scope.render("write_to.generics", &["case_none"]).unwrap(),
+                Some(item_type) => scope.var("type_name", type_path_by_name.get(item_type.name()))
+                    .render("write_to.generics", &["case"]).unwrap()
             }
         }).join("");
         scope.var("cases", cases).render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
-        scope.render_to_var("write_to", &["none"], "fragment").unwrap();
+        let cases = u.cases.iter().map(|case| template.scope()
+            .var("name", &case.name).var_d("case", case.case)
+            .render("write_to.none", &["case"]).unwrap()).join("");
+        scope.var("cases", cases).render_to_var("write_to", &["none"], "fragment").unwrap();
     }
     scope.render("", &["write_to"]).unwrap()
 }
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index e20da4c..6871bf8 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -77,13 +77,26 @@ impl<'a> {union_name}{generics} {{
                 return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
             }},
 #fragment pop
-            _ => ()
+#fragment push case_none
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
         }};
         Ok(())
     }}
 #fragment pop
 #fragment push none
-    pub fn write_to<W: std::io::Write>(_: &Self, _: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+    pub fn write_to<W: std::io::Write>(input: &Self, discriminant: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+        let discriminant = discriminant.{discriminant_path};
+        match input {{
+{cases}
+#fragment push case
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
+        }};
         Ok(())
     }}
 #fragment pop
-- 
2.43.0


From f6d001ad09242941c75063ac7af6ac5cbd4a1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 21/42] fix: reject union discriminant paths which do not end
 on a fixed field

---
 compiler/src/compiler/union.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b81a205..089c9c4 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -108,13 +108,17 @@ impl DiscriminantField {
         let mut leaf = proto.structs_by_name.get(name).ok_or_else(|| Error::UndefinedReference(name.into()))?;
         let root = leaf;
         let mut index_list = Vec::new();
+        let mut leaf_index = None;
         for sub in parts {
+            if leaf_index.is_some() {
+                return Err(Error::InvalidUnionDiscriminant);
+            }
             let (index, field) = leaf.fields.iter().enumerate()
                 .find(|(_, v)| v.name() == sub)
                 .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
             index_list.push(index);
             match field {
-                Field::Fixed(_) => break,
+                Field::Fixed(_) => leaf_index = Some(index),
                 Field::Struct(v) => leaf = &v.r,
                 Field::Array(_) => return Err(Error::InvalidUnionDiscriminant)
             }
@@ -122,7 +126,7 @@ impl DiscriminantField {
         Ok(DiscriminantField {
             root: root.clone(),
             leaf: leaf.clone(),
-            leaf_index: index_list.last().map(|v| *v).unwrap(),
+            leaf_index: leaf_index.ok_or(Error::InvalidUnionDiscriminant)?,
             index_list
         })
     }
-- 
2.43.0


From c5e5dde6179546b7f66b2b660b3304cd97ab32ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 22/42] fix: reject union cases which the discriminant cannot
 hold

---
 compiler/src/compiler/structure.rs |  4 ++++
 compiler/src/compiler/union.rs     | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index bc6837d..af7c8c9 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -74,6 +74,10 @@ impl FixedFieldType {
         }
     }
 
+    pub fn is_float(&self) -> bool {
+        matches!(self, FixedFieldType::Float32 | FixedFieldType::Float64)
+    }
+
     pub fn from_max_value(max_value: usize) -> Result<Self, Error> {
         let bit_size = if max_value > u32::MAX as usize {
             64
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 089c9c4..518c255 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -29,7 +29,7 @@
 use std::rc::Rc;
 use crate::compiler::message::{Referenced, SizeInfo};
 use crate::compiler::{Error, Protocol};
-use crate::compiler::structure::{Field, FieldView, FixedField, Structure};
+use crate::compiler::structure::{Field, FieldView, FixedField, FixedFieldType, Structure};
 
 #[derive(Clone, Debug)]
 pub struct UnionField {
@@ -38,16 +38,28 @@ pub struct UnionField {
     pub item_type: Option<Referenced>
 }
 
+/// Parses a union case into the raw value of its discriminant.
+fn parse_case(case: &str, bit_size: usize, signed: bool) -> Option<usize> {
+    let value: i128 = case.parse().ok()?;
+    let max = (1i128 << bit_size) - 1;
+    let min = if signed { -(1i128 << (bit_size - 1)) } else { 0 };
+    match value >= min && value <= max {
+        true => Some((value & max) as usize),
+        false => None
+    }
+}
+
 impl UnionField {
     pub fn from_model(proto: &Protocol, discriminant: &FixedField, value: crate::model::union::UnionField) -> Result<Self, Error> {
         let case: usize = match &discriminant.view {
             FieldView::Float { .. } => return Err(Error::FloatInUnionDiscriminant),
             FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case))?,
+            FieldView::Transmute if discriminant.ty.is_float() => return Err(Error::FloatInUnionDiscriminant),
             FieldView::Transmute | FieldView::SignedCast { .. } => {
-                let value: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?;
-                value as usize
+                let signed = discriminant.ty != FixedFieldType::Bool;
+                parse_case(&value.case, discriminant.loc.bit_size, signed).ok_or(Error::InvalidUnionCase(value.case))?
             }
-            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?
+            FieldView::None => parse_case(&value.case, discriminant.loc.bit_size, false).ok_or(Error::InvalidUnionCase(value.case))?
         };
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
-- 
2.43.0


From 52b0a9064cbe92bb42ff6457519ab509d4f5a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 23/42] fix: reject union cases sharing a discriminant value

---
 compiler/src/compiler/union.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 518c255..005e26b 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -157,6 +157,9 @@ impl Union {
         let discriminant = DiscriminantField::from_model(proto, value.discriminant)?;
         let cases = value.cases.into_iter().map(|v| UnionField::from_model(proto, discriminant.get_leaf(), v))
             .collect::<Result<Vec<UnionField>, Error>>()?;
+        if let Some(v) = cases.iter().enumerate().find_map(|(k, v)| cases[..k].iter().find(|v1| v1.case == v.case).map(|_| v)) {
+            return Err(Error::InvalidUnionCase(v.name.clone()));
+        }
         let is_element_dyn_sized = cases.iter().any(|v| v.item_type.as_ref().map(|v| match v {
             Referenced::Struct(_) => false,
             Referenced::Message(v) => v.size.is_element_dyn_sized
-- 
2.43.0


From e05ddb6983ed7cbabeb301b2b74f0c5740001158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 24/42] fix: reject types defined more than once

---
 compiler/src/compiler/error.rs    |  1 +
 compiler/src/compiler/protocol.rs | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 109855c..43017fd 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -38,6 +38,7 @@ simple_error! {
         UnsupportedViewType(SimpleType) => "unsupported view for type: {:?}",
         InvalidFloatView => "float view cannot be inverted",
         MissingBitSize => "missing bits specifier on a structure field",
+        DuplicateType(String) => "type '{}' is defined more than once",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedField => "structure field crosses a byte boundary it cannot be accessed across",
         UnalignedArrayCodec => "unaligned array in structure",
diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index e53245a..ba6dfc0 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -52,6 +52,14 @@ pub struct Protocol {
 }
 
 impl Protocol {
+    fn check_undefined(&self, name: &str) -> Result<(), Error> {
+        match self.structs_by_name.contains_key(name) || self.messages_by_name.contains_key(name)
+            || self.enums_by_name.contains_key(name) || self.unions_by_name.contains_key(name) {
+            true => Err(Error::DuplicateType(name.into())),
+            false => Ok(())
+        }
+    }
+
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
@@ -73,6 +81,9 @@ impl Protocol {
                     Some(r) => r,
                     None => return Err(Error::UndefinedReference(v.protocol))
                 };
+                if solver.get_full_type_path(&v.protocol, &v.type_name).as_deref() != Some(proto.type_path_by_name.get(&v.type_name)) {
+                    proto.check_undefined(&v.type_name)?;
+                }
                 match r.structs_by_name.get(&v.type_name) {
                     None => {
                         match r.enums_by_name.get(&v.type_name) {
@@ -109,6 +120,7 @@ impl Protocol {
         if let Some(enums) = value.enums {
             for v in enums {
                 let v = Rc::new(Enum::from_model(v)?);
+                proto.check_undefined(&v.name)?;
                 proto.enums_by_name.insert(v.name.clone(), v.clone());
                 proto.enums.push(v);
             }
@@ -116,6 +128,7 @@ impl Protocol {
         if let Some(structs) = value.structs {
             for v in structs {
                 let v = Rc::new(Structure::from_model(&proto, v)?);
+                proto.check_undefined(&v.name)?;
                 proto.structs_by_name.insert(v.name.clone(), v.clone());
                 proto.structs.push(v);
             }
@@ -123,6 +136,7 @@ impl Protocol {
         if let Some(unions) = value.unions {
             for v in unions {
                 let v = Rc::new(Union::from_model(&proto, v)?);
+                proto.check_undefined(&v.name)?;
                 proto.unions_by_name.insert(v.name.clone(), v.clone());
                 proto.unions.push(v);
             }
@@ -130,6 +144,7 @@ impl Protocol {
         if let Some(messages) = value.messages {
             for v in messages {
                 let v = Rc::new(Message::from_model(&proto, v)?);
+                proto.check_undefined(&v.name)?;
                 proto.messages_by_name.insert(v.name.clone(), v.clone());
                 proto.messages.push(v);
             }
-- 
2.43.0


From 964f616004fbb7a4a3cb2f5b397b193db666aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 25/42] fix: never read a list past its end in messages used by
 other messages or unions

---
 compiler/src/compiler/message.rs | 5 +++++
 compiler/src/compiler/union.rs   | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ba9639c..accef19 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -161,6 +161,7 @@ impl Field {
                         }
                     },
                     Referenced::Message(r) => {
+                        r.set_embedded();
                         Ok(Field {
                             name: value.name,
                             optional: value.optional.unwrap_or_default(),
@@ -296,6 +297,10 @@ pub struct Message {
 }
 
 impl Message {
+    pub(crate) fn set_embedded(&self) {
+        self.embedded.set(true);
+    }
+
     pub fn is_embedded(&self) -> bool {
         self.embedded.get()
     }
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 005e26b..ecdc761 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -63,6 +63,9 @@ impl UnionField {
         };
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
+        if let Some(Referenced::Message(v)) = &item_type {
+            v.set_embedded();
+        }
         Ok(UnionField {
             name: value.name,
             case,
-- 
2.43.0


From a82965e0273086b1ae5ac4a1aa165e794b2da2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 26/42] fix: never read a list past its end when it is followed
 by other fields

---
 compiler/src/gen/base/message_from_slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index c7bd322..e9d7ceb 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -61,7 +61,8 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
             gen_optional::<U>(field.optional, type_path_by_name.get(&v.r.name))
         },
         FieldType::List(v) => {
-            match msg.is_embedded() {
+            let is_last = msg.fields.last().map(|v| std::ptr::eq(v, field)).unwrap_or_default();
+            match msg.is_embedded() || !is_last {
                 false => gen_optional::<U>(field.optional, template.scope()
                     .var("codec", U::get_value_type(field.endianness, v.ty))
                     .var("type_name", type_path_by_name.get(&v.item_type.name))
-- 
2.43.0


From 74d5fd34e6aca7bc6eadeb78e2f6c4cc0c76feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 27/42] fix: reject payloads which are not at the end of the
 message

---
 compiler/src/compiler/error.rs   |  1 +
 compiler/src/compiler/message.rs | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 43017fd..44cf975 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -32,6 +32,7 @@ use crate::model::structure::{SimpleType, StructFieldType};
 simple_error! {
     pub Error {
         MultiPayload => "message has more than 1 payload",
+        PayloadNotLast => "payload must be at the end of the message and cannot be part of a list",
         VarsizeAfterPayload => "message has 1 or more variable sized fields after the payload",
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index accef19..a5a28fb 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -107,6 +107,19 @@ impl FieldType {
             _ => false
         }
     }
+
+    /// Returns true if this field ends with a payload, which reads everything up to the end of the input.
+    fn has_payload(&self) -> bool {
+        match self {
+            FieldType::Payload => true,
+            FieldType::Ref(Referenced::Message(v)) => v.has_payload(),
+            FieldType::Union(v) => v.r.cases.iter().any(|v| match &v.item_type {
+                Some(Referenced::Message(v)) => v.has_payload(),
+                _ => false
+            }),
+            _ => false
+        }
+    }
 }
 
 #[derive(Copy, Clone, Debug)]
@@ -192,6 +205,9 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
+                        if item_type.has_payload() {
+                            return Err(Error::PayloadNotLast);
+                        }
                         item_type.embedded.set(true);
                         Ok(Field {
                             name: value.name,
@@ -297,6 +313,10 @@ pub struct Message {
 }
 
 impl Message {
+    fn has_payload(&self) -> bool {
+        self.fields.iter().any(|v| v.ty.has_payload())
+    }
+
     pub(crate) fn set_embedded(&self) {
         self.embedded.set(true);
     }
@@ -310,6 +330,9 @@ impl Message {
         let mut dyn_sized_elem_count = 0;
         let mut is_dyn_sized = false;
         for v in value.fields {
+            if fields.last().map(|v: &Field| v.ty.has_payload()).unwrap_or_default() {
+                return Err(Error::PayloadNotLast);
+            }
             let field = Field::from_model(proto, &fields, v)?;
             if field.size.is_dyn_sized {
                 is_dyn_sized = true;
-- 
2.43.0


From abb0c6cf87daabc3f532ae6b750a5f5e401ad163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 28/42] fix: generate valid code for optional structures in
 messages

---
 compiler/src/gen/base/message_from_slice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index e9d7ceb..4427f5c 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -46,6 +46,7 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
     let msg_type = match &field.ty {
         FieldType::Fixed(ty) => gen_optional::<U>(field.optional, U::get_value_type_inline(field.endianness, ty.ty)),
         FieldType::Ref(v) => match v {
+            Referenced::Struct(v) if field.optional => gen_optional::<U>(true, U::gen_struct_ref_type(type_path_by_name.get(&v.name))),
             Referenced::Struct(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name)),
             Referenced::Message(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name))
         }
-- 
2.43.0


From efd52c42976021b50054cb76d86ca6416737d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 29/42] fix: allow imported item types in array wrappers

---
 runtime/src/message/macros.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/runtime/src/message/macros.rs b/runtime/src/message/macros.rs
index 247157a..5a0c025 100644
--- a/runtime/src/message/macros.rs
+++ b/runtime/src/message/macros.rs
@@ -28,19 +28,19 @@
 
 #[macro_export]
 macro_rules! generate_array_wrapper {
-    ($name: ident, $inner: ident, $t: ty) => {
-        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $inner<&'a [u8]>>);
+    ($name: ident, $($inner: ident)::+, $t: ty) => {
+        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>);
 
         impl<'a, B> $name<'a, B> {
             pub unsafe fn from_raw_parts(data: B, len: usize) -> $name<'a, B> {
-                Self($crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_raw_parts(data, len))
+                Self($crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_raw_parts(data, len))
             }
 
             pub fn new(data: B) -> $name<'a, B> {
                 unsafe { Self::from_raw_parts(data, 0) }
             }
 
-            pub fn from_array(inner: $crate::message::util::Array<B, $t, $inner<&'a [u8]>>) -> Self {
+            pub fn from_array(inner: $crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>) -> Self {
                 Self(inner)
             }
 
@@ -50,39 +50,39 @@ macro_rules! generate_array_wrapper {
         }
 
         impl<'a, B: std::io::Write> $name<'a, B> {
-            pub fn write_item(&mut self, item: &$inner<&[u8]>) -> $crate::message::Result<()> {
+            pub fn write_item(&mut self, item: &$($inner)::+<&[u8]>) -> $crate::message::Result<()> {
                 self.0.write_item(item)
             }
 
-            pub fn write_items(&mut self, items: &[$inner<&[u8]>]) -> $crate::message::Result<()> {
+            pub fn write_items(&mut self, items: &[$($inner)::+<&[u8]>]) -> $crate::message::Result<()> {
                 self.0.write_items(items)
             }
         }
 
         impl<'a, B: AsRef<[u8]>> $name<'a, B> {
-            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $inner<&[u8]>> {
+            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $($inner)::+<&[u8]>> {
                 self.0.to_ref()
             }
 
             pub fn from_parts(data: B, len: usize) -> Option<Self> {
-                $crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_parts(data, len).map(Self)
+                $crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_parts(data, len).map(Self)
             }
 
-            pub fn get(&self, index: usize) -> $inner<&[u8]> {
+            pub fn get(&self, index: usize) -> $($inner)::+<&[u8]> {
                 self.0.get(index)
             }
 
-            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $inner<&[u8]>> {
+            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $($inner)::+<&[u8]>> {
                 self.0.iter()
             }
         }
 
         impl<'a, B: AsMut<[u8]>> $name<'a, B> {
-            pub fn get_mut(&mut self, index: usize) -> $inner<&mut [u8]> {
+            pub fn get_mut(&mut self, index: usize) -> $($inner)::+<&mut [u8]> {
                 self.0.get_mut(index)
             }
 
-            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $inner<&mut [u8]>> {
+            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $($inner)::+<&mut [u8]>> {
                 self.0.iter_mut()
             }
         }
-- 
2.43.0


From f766e649147613c735a991df86138addae78fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 30/42] fix: generate valid code for messages and unions which
 do not borrow the input

---
 compiler/src/gen/base/message.rs           | 11 ++++----
 compiler/src/gen/rust/message.ext.template |  2 +-
 compiler/src/gen/rust/message.rs           |  5 ++--
 compiler/src/gen/rust/message.template     |  2 +-
 compiler/src/gen/rust/union.rs             | 22 ++++++---------
 compiler/src/gen/rust/union.template       |  4 +--
 compiler/src/gen/rust/util.rs              | 32 ++++++++++++++++------
 7 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/compiler/src/gen/base/message.rs b/compiler/src/gen/base/message.rs
index afcfcc3..3aef480 100644
--- a/compiler/src/gen/base/message.rs
+++ b/compiler/src/gen/base/message.rs
@@ -29,6 +29,7 @@
 use itertools::Itertools;
 use crate::compiler::message::{Field, FieldType, Message, Referenced};
 use crate::compiler::structure::FixedFieldType;
+use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
 use crate::gen::template::Template;
 use crate::model::protocol::Endianness;
@@ -49,8 +50,8 @@ pub trait Utilities: crate::gen::base::structure::Utilities {
     fn get_payload_type() -> &'static str;
     fn get_payload_type_inline() -> &'static str;
     fn gen_struct_ref_type(type_name: &str) -> String;
-    fn gen_message_ref_type(type_name: &str) -> String;
-    fn gen_union_ref_type(type_name: &str) -> String;
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String;
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String;
 }
 
 fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by_name: &TypePathMap) -> String {
@@ -58,7 +59,7 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
         FieldType::Fixed(ty) => U::get_field_type(ty.ty).into(),
         FieldType::Ref(v) => match v {
             Referenced::Struct(v) => U::gen_struct_ref_type(type_path_by_name.get(&v.name)),
-            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name)),
+            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name), v),
         },
         FieldType::NullTerminatedString => U::get_string_type(StringType::NullTerminated).into(),
         FieldType::VarcharString(_) => U::get_string_type(StringType::Varchar).into(),
@@ -66,10 +67,10 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
             .var("codec", U::get_value_type(field.endianness, v.ty))
             .var("type_name", type_path_by_name.get(&v.item_type.name))
             .render("", &["array"]).unwrap(),
-        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name)),
+        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name), &v.r),
         FieldType::List(v) => template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty))
-            .var("type_name", type_path_by_name.get(&v.item_type.name))
+            .var("type_name", U::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
             .render("", &["list"]).unwrap(),
         FieldType::Payload => U::get_payload_type().into()
     };
diff --git a/compiler/src/gen/rust/message.ext.template b/compiler/src/gen/rust/message.ext.template
index 2cb28fe..d317eb9 100644
--- a/compiler/src/gen/rust/message.ext.template
+++ b/compiler/src/gen/rust/message.ext.template
@@ -3,5 +3,5 @@ bp3d_proto::generate_array_wrapper!({msg_name}{name:capitalize}, {item_type}, {c
 #fragment pop
 
 #fragment push decl_list
-pub type {msg_name}{name:capitalize}<'a, T> = bp3d_proto::message::util::List<T, {codec}, {item_type}<'a>>;
+pub type {msg_name}{name:capitalize}<{generics}T> = bp3d_proto::message::util::List<T, {codec}, {item_type}>;
 #fragment pop
diff --git a/compiler/src/gen/rust/message.rs b/compiler/src/gen/rust/message.rs
index aa78ddc..8819f7b 100644
--- a/compiler/src/gen/rust/message.rs
+++ b/compiler/src/gen/rust/message.rs
@@ -30,7 +30,7 @@ use itertools::Itertools;
 use crate::compiler::message::{FieldType, Message};
 use crate::compiler::util::TypePathMap;
 use crate::gen::base::message::{generate, Utilities};
-use crate::gen::rust::util::RustUtils;
+use crate::gen::rust::util::{Generics, RustUtils};
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./message.template");
@@ -45,7 +45,8 @@ fn gen_message_array_type_decls(msg: &Message, type_path_by_name: &TypePathMap)
             FieldType::Array(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_array"]).unwrap()),
-            FieldType::List(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
+            FieldType::List(v) => Some(template.var("item_type", RustUtils::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
+                .var("generics", if Generics::from_message(&v.item_type).has_lifetime { "'a, " } else { "" })
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_list"]).unwrap()),
             _ => None
diff --git a/compiler/src/gen/rust/message.template b/compiler/src/gen/rust/message.template
index cfd510c..34d6512 100644
--- a/compiler/src/gen/rust/message.template
+++ b/compiler/src/gen/rust/message.template
@@ -13,5 +13,5 @@ bp3d_proto::message::util::Array::<&'a [u8], {codec}, {type_name}<&'a [u8]>>
 #fragment pop
 
 #fragment push list
-bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}<'a>>
+bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}>
 #fragment pop
diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index 4794b07..e4af186 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -30,16 +30,14 @@ use itertools::Itertools;
 use crate::compiler::message::Referenced;
 use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
+use crate::gen::base::message::Utilities;
+use crate::gen::rust::util::{Generics, RustUtils};
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./union.template");
 
-fn get_generics(u: &Union) -> &str {
-    if u.cases.iter().any(|v| v.item_type.is_some()) {
-        "<'a>"
-    } else {
-        ""
-    }
+fn has_items(u: &Union) -> bool {
+    u.cases.iter().any(|v| v.item_type.is_some())
 }
 
 fn get_discriminant_path(u: &Union) -> String {
@@ -70,8 +68,7 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
     }).join("");
     let mut scope = template.scope();
     scope.var("cases", cases);
-    let generics = get_generics(u);
-    if generics != "" {
+    if has_items(u) {
         scope.render_to_var("from_slice", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("from_slice", &["none"], "fragment").unwrap();
@@ -80,9 +77,8 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
 }
 
 fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &TypePathMap) -> String {
-    let generics = get_generics(u);
     let mut scope = template.scope();
-    if generics != "" {
+    if has_items(u) {
         let cases = u.cases.iter().map(|case| {
             let mut scope = template.scope();
             scope.var("name", &case.name).var_d("case", case.case);
@@ -121,7 +117,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
         match &case.item_type {
             Some(Referenced::Struct(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
                 .render("getters", &["struct"]).unwrap(),
-            Some(Referenced::Message(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
+            Some(Referenced::Message(v)) => scope.var("type_name", RustUtils::gen_message_ref_type(type_path_by_name.get(&v.name), v))
                 .render("getters", &["message"]).unwrap(),
             None => scope.render("getters", &["none"]).unwrap()
         }
@@ -131,7 +127,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
 
 pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
     let mut template = Template::compile(TEMPLATE).unwrap();
-    let generics = get_generics(u);
+    let generics = Generics::from_union(u).to_code();
     template.var("union_name", &u.name).var("generics", generics)
         .var("discriminant_path_mut", get_discriminant_path_mut(u))
         .var("discriminant_path", get_discriminant_path(u))
@@ -142,7 +138,7 @@ pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
             .var("name", &case.name).var("type_name", type_path_by_name.get(&v.name))
             .render("decl", &["struct"]).unwrap(),
         Some(Referenced::Message(v)) => template.scope()
-            .var("name", &case.name).var("type_name", type_path_by_name.get(&v.name))
+            .var("name", &case.name).var("type_name", RustUtils::gen_message_ref_type(type_path_by_name.get(&v.name), v))
             .render("decl", &["message"]).unwrap()
     }).join("");
     let mut code = template.scope().var("cases", cases).render("", &["decl"]).unwrap();
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index 6871bf8..b252e0d 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -6,7 +6,7 @@ pub enum {union_name}{generics} {{
     {name}({type_name}<&'a [u8]>),
 #fragment pop
 #fragment push message
-    {name}({type_name}<'a>),
+    {name}({type_name}),
 #fragment pop
 #fragment push none
     {name},
@@ -26,7 +26,7 @@ impl{generics} {union_name}{generics} {{
     }}
 #fragment pop
 #fragment push message
-    pub fn as_{name_lower}(&self) -> Option<&{type_name}<'a>> {{
+    pub fn as_{name_lower}(&self) -> Option<&{type_name}> {{
         match self {{
             Self::{name}(v) => Some(v),
             _ => None
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 89dddd4..e4eb5ad 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -26,8 +26,9 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-use crate::compiler::message::{FieldType, Message};
+use crate::compiler::message::{FieldType, Message, Referenced};
 use crate::compiler::structure::{FixedField, FixedFieldType};
+use crate::compiler::union::Union;
 use crate::gen::base::message::StringType;
 use crate::model::protocol::Endianness;
 
@@ -37,12 +38,12 @@ pub struct Generics {
 
 impl Generics {
     pub fn from_message(msg: &Message) -> Self {
-        let has_lifetime = msg.fields.iter().any(|v| match v.ty {
-            FieldType::Ref(_) => true,
+        let has_lifetime = msg.fields.iter().any(|v| match &v.ty {
+            FieldType::Ref(v) => Self::from_referenced(v).has_lifetime,
             FieldType::NullTerminatedString => true,
             FieldType::VarcharString(_) => true,
             FieldType::Array(_) => true,
-            FieldType::Union(_) => true,
+            FieldType::Union(v) => Self::from_union(&v.r).has_lifetime,
             FieldType::List(_) => true,
             FieldType::Payload => true,
             _ => false
@@ -52,6 +53,21 @@ impl Generics {
         }
     }
 
+    fn from_referenced(r: &Referenced) -> Self {
+        match r {
+            Referenced::Struct(_) => Generics { has_lifetime: true },
+            Referenced::Message(v) => Self::from_message(v)
+        }
+    }
+
+    pub fn from_union(u: &Union) -> Self {
+        let has_lifetime = u.cases.iter().filter_map(|v| v.item_type.as_ref())
+            .any(|v| Self::from_referenced(v).has_lifetime);
+        Generics {
+            has_lifetime
+        }
+    }
+
     pub fn to_vec(&self) -> Vec<&'static str> {
         let mut generics = Vec::new();
         if self.has_lifetime {
@@ -185,11 +201,11 @@ impl crate::gen::base::message::Utilities for RustUtils {
         format!("{}<&'a [u8]>", type_name)
     }
 
-    fn gen_message_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String {
+        format!("{}{}", type_name, Generics::from_message(msg).to_code())
     }
 
-    fn gen_union_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String {
+        format!("{}{}", type_name, Generics::from_union(u).to_code())
     }
 }
-- 
2.43.0


From 97687db9d452c2387d9f4c1219c007bec403700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 31/42] fix: generate valid code for optional strings and
 payloads

---
 compiler/src/gen/base/message.rs            |  1 +
 compiler/src/gen/base/message_from_slice.rs | 14 +++++++++++---
 compiler/src/gen/rust/util.rs               |  4 ++++
 runtime/src/message/util/common.rs          | 19 +++++++++++++++++++
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/compiler/src/gen/base/message.rs b/compiler/src/gen/base/message.rs
index 3aef480..5550973 100644
--- a/compiler/src/gen/base/message.rs
+++ b/compiler/src/gen/base/message.rs
@@ -45,6 +45,7 @@ pub trait Utilities: crate::gen::base::structure::Utilities {
     fn get_value_type_inline(endianness: Endianness, ty: FixedFieldType) -> &'static str;
     fn gen_option_type(ty: &str) -> String;
     fn gen_option_type_inline(ty: &str) -> String;
+    fn gen_borrowed_type_inline(ty: &str) -> String;
     fn get_string_type(ty: StringType) -> &'static str;
     fn get_string_type_inline(ty: StringType) -> &'static str;
     fn get_payload_type() -> &'static str;
diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index 4427f5c..40b5f55 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -41,6 +41,14 @@ fn gen_optional<'a, U: Utilities>(optional: bool, type_name: impl Into<Cow<'a, s
     }
 }
 
+fn gen_optional_ref<'a, U: Utilities>(optional: bool, type_name: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
+    if optional {
+        U::gen_option_type_inline(&U::gen_borrowed_type_inline(&*type_name.into())).into()
+    } else {
+        type_name.into()
+    }
+}
+
 pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Field, template: &Template, type_path_by_name: &'a TypePathMap) -> (Cow<'a, str>, Option<&'a str>) {
     let mut union = None;
     let msg_type = match &field.ty {
@@ -50,8 +58,8 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
             Referenced::Struct(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name)),
             Referenced::Message(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name))
         }
-        FieldType::NullTerminatedString => gen_optional::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
-        FieldType::VarcharString(v) => gen_optional::<U>(field.optional, template.scope()
+        FieldType::NullTerminatedString => gen_optional_ref::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
+        FieldType::VarcharString(v) => gen_optional_ref::<U>(field.optional, template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty)).render("", &["varchar"]).unwrap()),
         FieldType::Array(v) => gen_optional::<U>(field.optional, template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty))
@@ -74,7 +82,7 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
                     .render("", &["list"]).unwrap()),
             }
         },
-        FieldType::Payload => gen_optional::<U>(field.optional, U::get_payload_type_inline())
+        FieldType::Payload => gen_optional_ref::<U>(field.optional, U::get_payload_type_inline())
     };
     (msg_type, union)
 }
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index e4eb5ad..43d31e1 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -178,6 +178,10 @@ impl crate::gen::base::message::Utilities for RustUtils {
         format!("bp3d_proto::message::util::Optional::<{}>", ty)
     }
 
+    fn gen_borrowed_type_inline(ty: &str) -> String {
+        format!("bp3d_proto::message::util::Ref::<'a, {}>", ty)
+    }
+
     fn get_string_type(_: StringType) -> &'static str {
         "&'a str"
     }
diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index e8d182b..c1da432 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -164,3 +164,22 @@ impl WriteTo for Buffer {
         Ok(())
     }
 }
+
+/// Codec for values written through a reference, used to make borrowed fields optional.
+pub struct Ref<'a, T>(PhantomData<&'a T>);
+
+impl<'a, T: FromSlice<'a>> FromSlice<'a> for Ref<'a, T> {
+    type Output = T::Output;
+
+    fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
+        T::from_slice(slice)
+    }
+}
+
+impl<'a, T: WriteTo<Input: 'a>> WriteTo for Ref<'a, T> {
+    type Input = &'a T::Input;
+
+    fn write_to<W: Write>(input: &Self::Input, out: W) -> Result<(), Error> {
+        T::write_to(input, out)
+    }
+}
-- 
2.43.0


From 4b9b66048266814f52cbc567ab3f612aa9c65f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 32/42] fix: iterating an array of zero-sized items panicked

---
 runtime/src/message/util/array.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 02610b2..734ef0f 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -46,6 +46,7 @@ impl_list_base!(Array);
 
 pub struct IterMut<'a, Item> {
     data: ChunksMut<'a, u8>,
+    empty_items: usize,
     useless: PhantomData<Item>
 }
 
@@ -53,12 +54,17 @@ impl<'a, Item: From<&'a mut [u8]>> Iterator for IterMut<'a, Item> {
     type Item = Item;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.empty_items > 0 {
+            self.empty_items -= 1;
+            return Some(Item::from(&mut []));
+        }
         self.data.next().map(Item::from)
     }
 }
 
 pub struct Iter<'a, Item> {
     data: Chunks<'a, u8>,
+    empty_items: usize,
     useless: PhantomData<Item>
 }
 
@@ -66,6 +72,10 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
     type Item = Item;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.empty_items > 0 {
+            self.empty_items -= 1;
+            return Some(Item::from(&[]));
+        }
         self.data.next().map(Item::from)
     }
 }
@@ -88,7 +98,8 @@ impl<'a, B: AsRef<[u8]>, T, I> Array<B, T, I> {
 
     pub fn iter<Item: FixedSize + From<&'a [u8]>>(&'a self) -> Iter<'a, Item> {
         Iter {
-            data: self.data.as_ref().chunks(Item::SIZE),
+            data: self.data.as_ref().chunks(Item::SIZE.max(1)),
+            empty_items: if Item::SIZE == 0 { self.len } else { 0 },
             useless: PhantomData::default()
         }
     }
@@ -103,7 +114,8 @@ impl<'a, B: AsMut<[u8]>, T, I> Array<B, T, I> {
 
     pub fn iter_mut<Item: FixedSize + From<&'a mut [u8]>>(&'a mut self) -> IterMut<'a, Item> {
         IterMut {
-            data: self.data.as_mut().chunks_mut(Item::SIZE),
+            data: self.data.as_mut().chunks_mut(Item::SIZE.max(1)),
+            empty_items: if Item::SIZE == 0 { self.len } else { 0 },
             useless: PhantomData::default()
         }
     }
-- 
2.43.0


From 3139d370a170735f9aa3b2a64b21e50381833907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 33/42] fix: honour the endianness of imported structures
 inlined in messages

---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index a5a28fb..c93ca43 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -158,7 +158,7 @@ impl Field {
                                     is_dyn_sized: false,
                                     is_element_dyn_sized: false
                                 },
-                                endianness: proto.endianness
+                                endianness: fixed.endianness
                             })
                         } else {
                             Ok(Field {
-- 
2.43.0


From 5ecca433e3f8fb3b6fd5b851a2bbd67b68b65798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 34/42] fix: reject enumerations with several variants of the
 same value

---
 compiler/src/compiler/enum.rs  | 3 +++
 compiler/src/compiler/error.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/compiler/src/compiler/enum.rs b/compiler/src/compiler/enum.rs
index 39138f0..ee55a6b 100644
--- a/compiler/src/compiler/enum.rs
+++ b/compiler/src/compiler/enum.rs
@@ -41,6 +41,9 @@ impl Enum {
     pub fn from_model(value: crate::model::protocol::Enum) -> Result<Enum, Error> {
         let mut variants: Vec<(String, usize)> = value.variants.into_iter().collect();
         variants.sort_by(|(_, v), (_, v1)| v.cmp(v1));
+        if let Some(v) = variants.windows(2).find(|v| v[0].1 == v[1].1) {
+            return Err(Error::DuplicateEnumValue(v[1].1));
+        }
         let mut variants_map = HashMap::new();
         let largest = variants.last().map(|(_, v)| *v).ok_or(Error::ZeroEnum)?;
         for (k, v) in &variants {
diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 44cf975..09062e5 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -45,6 +45,7 @@ simple_error! {
         UnalignedArrayCodec => "unaligned array in structure",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
+        DuplicateEnumValue(usize) => "enums must not have more than 1 variant of value {}",
         InvalidUnionDiscriminant => "invalid union discriminant path",
         FloatInUnionDiscriminant => "floats are not allowed as union discriminants",
         InvalidUnionCase(String) => "invalid union case {}",
-- 
2.43.0


From 5bd203458165eb7fcf947e63f6ec6f13e9da0bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 35/42] fix: name types imported through another protocol by
 the path of their definition

---
 compiler/src/compiler/protocol.rs | 11 ++++++-----
 compiler/src/compiler/util.rs     |  4 ++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index ba6dfc0..86baae8 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -81,7 +81,12 @@ impl Protocol {
                     Some(r) => r,
                     None => return Err(Error::UndefinedReference(v.protocol))
                 };
-                if solver.get_full_type_path(&v.protocol, &v.type_name).as_deref() != Some(proto.type_path_by_name.get(&v.type_name)) {
+                // A type which is itself imported by the other protocol keeps the path of the protocol defining it.
+                let type_path = match r.type_path_by_name.get_imported(&v.type_name) {
+                    Some(v) => v.into(),
+                    None => solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?
+                };
+                if proto.type_path_by_name.get_imported(&v.type_name) != Some(&type_path) {
                     proto.check_undefined(&v.type_name)?;
                 }
                 match r.structs_by_name.get(&v.type_name) {
@@ -90,27 +95,23 @@ impl Protocol {
                             None => {
                                 match r.unions_by_name.get(&v.type_name) {
                                     Some(vv) => {
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
                                         proto.unions_by_name.insert(v.type_name, vv.clone());
                                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                                     },
                                     None => {
                                         let msg = r.messages_by_name.get(&v.type_name).ok_or(Error::UndefinedReference(format!("{}::{}", v.protocol, v.type_name)))?;
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
                                         proto.messages_by_name.insert(v.type_name, msg.clone());
                                         proto.type_path_by_name.add(msg.name.clone(), type_path);
                                     }
                                 }
                             },
                             Some(vv) => {
-                                let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
                                 proto.enums_by_name.insert(v.type_name, vv.clone());
                                 proto.type_path_by_name.add(vv.name.clone(), type_path);
                             }
                         }
                     },
                     Some(vv) => {
-                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
                         proto.structs_by_name.insert(v.type_name, vv.clone());
                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                     }
diff --git a/compiler/src/compiler/util.rs b/compiler/src/compiler/util.rs
index 87f2a14..adfd796 100644
--- a/compiler/src/compiler/util.rs
+++ b/compiler/src/compiler/util.rs
@@ -51,6 +51,10 @@ impl TypePathMap {
         self.type_path_by_name.insert(name, type_path);
     }
 
+    pub fn get_imported(&self, item_type: &str) -> Option<&str> {
+        self.type_path_by_name.get(item_type).map(|v| &**v)
+    }
+
     pub fn get<'a>(&'a self, item_type: &'a str) -> &'a str {
         match self.type_path_by_name.get(item_type) {
             None => item_type,
-- 
2.43.0


From c27341cfe8db1a0fbdde49b309ef6086708c56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:10 +0000
Subject: [PATCH 36/42] fix: refuse two protocols of the same name

The second import of a name silently replaced the first, and the files
generated for the second protocol of a name silently replaced those of the
first.
---
 compiler/src/compiler/error.rs | 1 +
 compiler/src/interface.rs      | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 09062e5..f71b304 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -40,6 +40,7 @@ simple_error! {
         InvalidFloatView => "float view cannot be inverted",
         MissingBitSize => "missing bits specifier on a structure field",
         DuplicateType(String) => "type '{}' is defined more than once",
+        DuplicateProtocol(String) => "protocol '{}' is defined more than once",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedField => "structure field crosses a byte boundary it cannot be accessed across",
         UnalignedArrayCodec => "unaligned array in structure",
diff --git a/compiler/src/interface.rs b/compiler/src/interface.rs
index 6855294..2a25ce5 100644
--- a/compiler/src/interface.rs
+++ b/compiler/src/interface.rs
@@ -65,11 +65,17 @@ impl Loader {
     pub fn compile<T: ImportResolver + ImportSolver>(self, mut solver: T) -> Result<Protoc, Error> {
         for (base_import_path, model) in self.imported_models {
             let compiled = compiler::Protocol::from_model(model, &solver).map_err(Error::Compiler)?;
+            if solver.get_protocol_by_name(&compiled.name).is_some() {
+                return Err(Error::Compiler(compiler::Error::DuplicateProtocol(compiled.name)));
+            }
             solver.register(base_import_path, compiled);
         }
         let models = self.models.into_iter()
             .map(|model| compiler::Protocol::from_model(model, &solver))
             .collect::<Result<Vec<compiler::Protocol>, compiler::Error>>().map_err(Error::Compiler)?;
+        if let Some((_, v)) = models.iter().enumerate().find(|(k, v)| models[..*k].iter().any(|v1| v1.name == v.name)) {
+            return Err(Error::Compiler(compiler::Error::DuplicateProtocol(v.name.clone())));
+        }
         Ok(Protoc::new(models))
     }
 }
-- 
2.43.0


From 718069c99e29ad4b2ffa5e244686133322f096ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:10 +0000
Subject: [PATCH 37/42] fix: refuse to export two protocols through the same
 variable

---
 compiler/src/build_script.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/build_script.rs b/compiler/src/build_script.rs
index 0e04373..a28335b 100644
--- a/compiler/src/build_script.rs
+++ b/compiler/src/build_script.rs
@@ -58,6 +58,12 @@ pub fn generate_rust<F: FnOnce(&mut Loader) -> Result<(), Error>, F1: FnOnce(Pro
         Err(e) => panic!("Failed to generate Rust code: {}", e),
         Ok(v) => v
     };
+    for (k, proto) in generated.iter().enumerate() {
+        // The name of the variable ignores the case, the name of the protocol does not.
+        if let Some(v) = generated[..k].iter().find(|v| v.name.eq_ignore_ascii_case(&proto.name)) {
+            panic!("Failed to export protocols: '{}' and '{}' have the same variable name", v.name, proto.name);
+        }
+    }
     for proto in generated {
         println!("cargo::rustc-env=BP3D_PROTOC_{}={}", proto.name.to_ascii_uppercase(), proto.path.display());
     }
-- 
2.43.0


From 5a17fd0038af8a54791c9eb24d4741ed8d18cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:10 +0000
Subject: [PATCH 38/42] fix: skip the empty lines of templates with CRLF line
 ends

An empty line outside of a fragment made the whole template fail and one
inside of a fragment was rendered.
---
 compiler/src/gen/template.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index 89dc321..599fc7d 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -189,14 +189,10 @@ impl<'fragment, 'variable> Template<'fragment, 'variable> {
         let mut frag_stack = Vec::new();
         let lines = data.split(|v| *v == b'\n');
         for line in lines {
+            let line = line.strip_suffix(b"\r").unwrap_or(line);
             if line.is_empty() {
                 continue;
             }
-            let line = if line[line.len() - 1] == b'\r' {
-                &line[..line.len() - 1]
-            } else {
-                line
-            };
             if line.starts_with(b"#fragment push ") {
                 let name = std::str::from_utf8(&line[15..]).map_err(|_| Error::InvalidUTF8)?;
                 frag_stack.push(Fragment {
-- 
2.43.0


From 47fc7724c08e24418b2f775910e49c6d1308e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 39/42] fix: render a variable which is followed by a closing
 brace

The closing brace of a variable followed by an escaped closing brace was
taken for an escaped brace, so that the name was rendered instead.
---
 compiler/src/gen/template.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index 599fc7d..842c72d 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -210,21 +210,25 @@ impl<'fragment, 'variable> Template<'fragment, 'variable> {
             } else {
                 let cur_fragment = frag_stack.last_mut().ok_or(Error::NoFragment)?;
                 let mut token = Token::new(line);
+                let mut is_variable = false;
                 while token.has_next() {
                     if token.cur() == b'{' {
                         if token.next() == Some(b'{') {
                             token.inc();
+                        } else {
+                            is_variable = true;
                         }
                         if let Some(component) = token.pop()?.map(Component::Constant) {
                             cur_fragment.content.push(component);
                         }
                     } else if token.cur() == b'}' {
-                        if token.next() == Some(b'}') {
+                        if !is_variable && token.next() == Some(b'}') {
                             token.inc();
                             if let Some(component) = token.pop()?.map(Component::Constant) {
                                 cur_fragment.content.push(component);
                             }
                         } else {
+                            is_variable = false;
                             if let Some(component) = token.pop()?.map(|v| Component::parse_variable(&function_map, v)) {
                                 cur_fragment.content.push(component?);
                             }
-- 
2.43.0


From 87e22f52c4edb7a1b159cd7239eba7c027f1ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 40/42] fix: let message fields have the names of the generated
 variables

A message with a field called slice, byte_offset or offsets, or with the fields
a_msg and a in this order, generated code which did not compile.
---
 .../src/gen/rust/message.from_slice.template  | 26 ++++++------
 .../src/gen/rust/message.offsets.template     | 42 +++++++++----------
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/compiler/src/gen/rust/message.from_slice.template b/compiler/src/gen/rust/message.from_slice.template
index e085f32..da43f36 100644
--- a/compiler/src/gen/rust/message.from_slice.template
+++ b/compiler/src/gen/rust/message.from_slice.template
@@ -2,31 +2,31 @@
 impl<'a> bp3d_proto::message::FromSlice<'a> for {msg_name}{generics} {{
     type Output = Self;
 
-    fn from_slice(slice: &'a [u8]) -> bp3d_proto::message::Result<bp3d_proto::message::Message<Self>> {{
-        let mut byte_offset: usize = 0;
+    fn from_slice(__slice: &'a [u8]) -> bp3d_proto::message::Result<bp3d_proto::message::Message<Self>> {{
+        let mut __byte_offset: usize = 0;
 {fields}
 #fragment push field
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
-        byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let {name} = {type}::from_slice(&__slice[__byte_offset..])?;
+        __byte_offset += {name}.size();
+        let {name} = {name}.into_inner();
 #fragment pop
 #fragment push field_msg
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
-        byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let {name} = {type}::from_slice(&__slice[__byte_offset..])?;
+        __byte_offset += {name}.size();
+        let {name} = {name}.into_inner();
 #fragment pop
 #fragment push field_union
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
-        byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let {name} = {type}::from_slice(&__slice[__byte_offset..], &{on_name})?;
+        __byte_offset += {name}.size();
+        let {name} = {name}.into_inner();
 #fragment pop
-        let data = {msg_name} {{
+        let __data = {msg_name} {{
 {field_names}
 #fragment push field_name
             {name},
 #fragment pop
         }};
-        Ok(bp3d_proto::message::Message::new(byte_offset, data))
+        Ok(bp3d_proto::message::Message::new(__byte_offset, __data))
     }}
 }}
 #fragment pop
diff --git a/compiler/src/gen/rust/message.offsets.template b/compiler/src/gen/rust/message.offsets.template
index 9075d38..9895c23 100644
--- a/compiler/src/gen/rust/message.offsets.template
+++ b/compiler/src/gen/rust/message.offsets.template
@@ -18,40 +18,40 @@ pub struct {msg_name}Offsets {{
 impl<'a> bp3d_proto::message::FromSliceWithOffsets<'a> for {msg_name}{generics} {{
     type Offsets = {msg_name}Offsets;
 
-    fn from_slice_with_offsets(slice: &'a [u8]) -> bp3d_proto::message::Result<bp3d_proto::message::Message<(Self, Self::Offsets)>> {{
+    fn from_slice_with_offsets(__slice: &'a [u8]) -> bp3d_proto::message::Result<bp3d_proto::message::Message<(Self, Self::Offsets)>> {{
         use bp3d_proto::message::FromSlice;
-        let mut offsets = Self::Offsets::default();
-        let mut byte_offset: usize = 0;
+        let mut __offsets = Self::Offsets::default();
+        let mut __byte_offset: usize = 0;
 {fields}
 #fragment push field
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
-        offsets.{name}.start = byte_offset;
-        byte_offset += {name}_msg.size();
-        offsets.{name}.end = byte_offset;
-        let {name} = {name}_msg.into_inner();
+        let {name} = {type}::from_slice(&__slice[__byte_offset..])?;
+        __offsets.{name}.start = __byte_offset;
+        __byte_offset += {name}.size();
+        __offsets.{name}.end = __byte_offset;
+        let {name} = {name}.into_inner();
 #fragment pop
 #fragment push field_msg
-        let {name}_msg = {type}::from_slice_with_offsets(&slice[byte_offset..])?;
-        offsets.{name}.start = byte_offset;
-        byte_offset += {name}_msg.size();
-        offsets.{name}.end = byte_offset;
-        let ({name}, {name}_offsets) = {name}_msg.into_inner();
-        offsets.{name}_offsets = {name}_offsets;
+        let {name} = {type}::from_slice_with_offsets(&__slice[__byte_offset..])?;
+        __offsets.{name}.start = __byte_offset;
+        __byte_offset += {name}.size();
+        __offsets.{name}.end = __byte_offset;
+        let ({name}, __field_offsets) = {name}.into_inner();
+        __offsets.{name}_offsets = __field_offsets;
 #fragment pop
 #fragment push field_union
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
-        offsets.{name}.start = byte_offset;
-        byte_offset += {name}_msg.size();
-        offsets.{name}.end = byte_offset;
-        let {name} = {name}_msg.into_inner();
+        let {name} = {type}::from_slice(&__slice[__byte_offset..], &{on_name})?;
+        __offsets.{name}.start = __byte_offset;
+        __byte_offset += {name}.size();
+        __offsets.{name}.end = __byte_offset;
+        let {name} = {name}.into_inner();
 #fragment pop
-        let data = {msg_name} {{
+        let __data = {msg_name} {{
 {field_names}
 #fragment push field_name
             {name},
 #fragment pop
         }};
-        Ok(bp3d_proto::message::Message::new(byte_offset, (data, offsets)))
+        Ok(bp3d_proto::message::Message::new(__byte_offset, (__data, __offsets)))
     }}
 }}
 #fragment pop
-- 
2.43.0


From 06838c95b4ec38d1fcfb71bbeee2cd72697650ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:59 +0000
Subject: [PATCH 41/42] fix: reject float views whose coefficients do not fit
 the type of the field

---
 compiler/src/compiler/structure.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index af7c8c9..ffb9e29 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -181,6 +181,9 @@ impl FieldView {
     }
 
     fn from_model(proto: &Protocol, ty: SimpleType, bit_size: usize, value: Option<StructFieldView>) -> Result<Self, Error> {
+        // The view is computed with f32 if the field is, see FixedFieldType::from_model.
+        let is_f32 = bit_size <= 16 || bit_size == 32;
+        let is_valid = |v: &f64| v.is_finite() && (!is_f32 || (*v as f32).is_finite());
         match value {
             Some(StructFieldView::Enum { name }) => {
                 if ty != SimpleType::Unsigned {
@@ -201,7 +204,7 @@ impl FieldView {
                 let b = min;
                 let a_inv = 1.0 / a;
                 let b_inv = -b / a;
-                if ![a, b, a_inv, b_inv].iter().all(|v| v.is_finite()) {
+                if ![a, b, a_inv, b_inv].iter().all(is_valid) {
                     return Err(Error::InvalidFloatView);
                 }
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
@@ -214,7 +217,7 @@ impl FieldView {
                 let b = 0.0;
                 let a_inv = 1.0 / a;
                 let b_inv = 0.0;
-                if !a.is_finite() || !a_inv.is_finite() {
+                if !is_valid(&a) || !is_valid(&a_inv) {
                     return Err(Error::InvalidFloatView);
                 }
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
-- 
2.43.0


From b31d178966d4d65f92a4af12ab2c2b1392b77e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:59 +0000
Subject: [PATCH 42/42] fix: let enumerations have values that do not fit an
 isize

---
 compiler/src/gen/rust/enum.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/rust/enum.rs b/compiler/src/gen/rust/enum.rs
index 7cbb2d8..aef2a39 100644
--- a/compiler/src/gen/rust/enum.rs
+++ b/compiler/src/gen/rust/enum.rs
@@ -38,5 +38,11 @@ pub fn gen_enum_decl(e: &Enum) -> String {
     let mut code = e.variants.iter().map(|(k, v)|
         template.scope().var("key", k).var_d("value", v)
             .render("enum", &["variant"]).unwrap());
-    template.var("variants", code.join("")).render("", &["enum"]).unwrap()
+    let code = template.var("variants", code.join("")).render("", &["enum"]).unwrap();
+    if e.largest > i32::MAX as usize {
+        // The discriminants may not fit an isize, which is the default.
+        format!("#[repr(u64)]\n{}", code)
+    } else {
+        code
+    }
 }
-- 
2.43.0

