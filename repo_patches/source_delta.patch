From 644fa14888b9396ca822b88d61010fb8c23031e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 01/22] fix: keep the compact flag when decoding through
 transparent wrapper visitors

Box/Arc/Rc/Cow/Compact/Duration/Range/one-tuples/Hxxx and VisitorWithCrateError
delegate in unchecked_decode_as_type, where they could not know that the value
is compact encoded, so a boxed number in a compact single-field struct was read
in fixed-width form (or rejected).
---
 scale-decode/src/impls/mod.rs             | 54 ++++++++++++++++++++---
 scale-decode/src/impls/primitive_types.rs | 18 +++++++-
 scale-decode/src/visitor/decode.rs        |  7 ++-
 scale-decode/src/visitor/mod.rs           | 26 ++++++++++-
 4 files changed, 96 insertions(+), 9 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 16ec900..8b053c9 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -19,7 +19,8 @@ mod primitive_types;
 use crate::{
     error::{Error, ErrorKind},
     visitor::{
-        self, decode_with_visitor, types::*, DecodeAsTypeResult, DecodeItemIterator, Visitor,
+        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeItemIterator,
+        Visitor,
     },
     DecodeAsFields, FieldIter, IntoVisitor,
 };
@@ -207,9 +208,21 @@ macro_rules! impl_into_visitor_like {
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
             ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
                 // Use the source visitor to decode into some type:
-                let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
+                let inner_res = decode_with_visitor_maybe_compact(
+                    input, type_id, types, <$source>::into_visitor(), is_compact,
+                );
                 // map this type into our desired output and return it:
                 let res = inner_res.map($mapper);
                 DecodeAsTypeResult::Decoded(res)
@@ -244,10 +257,25 @@ where
         input: &mut &'scale [u8],
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
         // Use the ToOwned visitor to decode into some type:
-        let inner_res =
-            decode_with_visitor(input, type_id, types, <<T as ToOwned>::Owned>::into_visitor());
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <<T as ToOwned>::Owned>::into_visitor(),
+            is_compact,
+        );
         // map this type into our owned Cow to return:
         let res = inner_res.map(Cow::Owned);
         DecodeAsTypeResult::Decoded(res)
@@ -554,6 +582,16 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             input: &mut &'scale [u8],
             type_id: <Self::TypeResolver as TypeResolver>::TypeId,
             types: &'resolver Self::TypeResolver,
+        ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+            self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+        }
+
+        fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+            self,
+            input: &mut &'scale [u8],
+            type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+            types: &'resolver Self::TypeResolver,
+            is_compact: bool,
         ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
             use scale_type_resolver::{ResolvedTypeVisitor, UnhandledKind};
 
@@ -583,7 +621,13 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             }
 
             // Else, try to decode as the inner type.
-            let inner_res = decode_with_visitor(input, type_id, types, <$t>::into_visitor());
+            let inner_res = decode_with_visitor_maybe_compact(
+                input,
+                type_id,
+                types,
+                <$t>::into_visitor(),
+                is_compact,
+            );
             let res = inner_res.map(|val| (val,)).map_err(|e| e.into());
             DecodeAsTypeResult::Decoded(res)
         }
diff --git a/scale-decode/src/impls/primitive_types.rs b/scale-decode/src/impls/primitive_types.rs
index ff788f1..bd29940 100644
--- a/scale-decode/src/impls/primitive_types.rs
+++ b/scale-decode/src/impls/primitive_types.rs
@@ -16,7 +16,7 @@
 use super::BasicVisitor;
 use crate::{
     error::Error,
-    visitor::{decode_with_visitor, DecodeAsTypeResult, Visitor},
+    visitor::{decode_with_visitor_maybe_compact, DecodeAsTypeResult, Visitor},
     IntoVisitor,
 };
 use primitive_types::{H128, H160, H256, H384, H512, H768};
@@ -38,11 +38,25 @@ macro_rules! impl_visitor {
                 Self,
                 Result<Self::Value<'scale, 'resolver>, Self::Error>,
             > {
-                let res = decode_with_visitor(
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
+            ) -> crate::visitor::DecodeAsTypeResult<
+                Self,
+                Result<Self::Value<'scale, 'resolver>, Self::Error>,
+            > {
+                let res = decode_with_visitor_maybe_compact(
                     input,
                     type_id,
                     types,
                     BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },
+                    is_compact,
                 )
                 .map(|res| <$ty>::from(res));
                 DecodeAsTypeResult::Decoded(res)
diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 52af01a..cc3f098 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -46,7 +46,12 @@ pub fn decode_with_visitor_maybe_compact<'scale, 'resolver, V: Visitor>(
     is_compact: bool,
 ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
     // Provide option to "bail out" and do something custom first.
-    let visitor = match visitor.unchecked_decode_as_type(data, ty_id.clone(), types) {
+    let visitor = match visitor.unchecked_decode_as_type_maybe_compact(
+        data,
+        ty_id.clone(),
+        types,
+        is_compact,
+    ) {
         DecodeAsTypeResult::Decoded(r) => return r,
         DecodeAsTypeResult::Skipped(v) => v,
     };
diff --git a/scale-decode/src/visitor/mod.rs b/scale-decode/src/visitor/mod.rs
index f1bfc19..3d2e846 100644
--- a/scale-decode/src/visitor/mod.rs
+++ b/scale-decode/src/visitor/mod.rs
@@ -60,6 +60,19 @@ pub trait Visitor: Sized {
         DecodeAsTypeResult::Skipped(self)
     }
 
+    /// As [`Visitor::unchecked_decode_as_type()`], but additionally told whether the value is compact
+    /// encoded, so that visitors which delegate to another visitor can pass this on.
+    #[doc(hidden)]
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        _is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type(input, type_id, types)
+    }
+
     /// This is called when a visitor function that you've not provided an implementation is called.
     /// You are provided an enum value corresponding to the function call, and can decide what to return
     /// in this case. The default is to return an error to announce the unexpected value.
@@ -420,7 +433,18 @@ where
         type_id: TypeIdFor<Self>,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let res = decode_with_visitor(input, type_id, types, self.0).map_err(Into::into);
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)
+            .map_err(Into::into);
         DecodeAsTypeResult::Decoded(res)
     }
 }
-- 
2.43.0


From a91b20ae83dfba3cc58caf74478bda6712625f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 02/22] fix: Duration from out of range parts is an error, not
 a panic

Duration::from_secs(u64::MAX) + Duration::from_nanos(1_000_000_000) overflows.
---
 scale-decode/src/impls/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 8b053c9..2302cc7 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -192,7 +192,7 @@ impl_into_visitor!(PhantomData<T>);
 // Generate impls to encode things based on some other type. We do this by implementing
 // `IntoVisitor` and using the `AndThen` combinator to map from an existing one to the desired output.
 macro_rules! impl_into_visitor_like {
-    ($target:ident $(< $($param:ident),* >)? as $source:ty $( [where $($where:tt)*] )?: $mapper:expr) => {
+    ($target:ident $(< $($param:ident),* >)? as $source:ty $( [where $($where:tt)*] )?: try $mapper:expr) => {
         impl <$( $($param, )* )? Resolver> Visitor for BasicVisitor<$target $(< $($param),* >)?, Resolver>
         where
             $source: IntoVisitor,
@@ -224,19 +224,27 @@ macro_rules! impl_into_visitor_like {
                     input, type_id, types, <$source>::into_visitor(), is_compact,
                 );
                 // map this type into our desired output and return it:
-                let res = inner_res.map($mapper);
+                let res = inner_res.and_then($mapper);
                 DecodeAsTypeResult::Decoded(res)
             }
         }
         impl_into_visitor!($target $(< $($param),* >)? where $source: IntoVisitor);
-    }
+    };
+    ($target:ident $(< $($param:ident),* >)? as $source:ty $( [where $($where:tt)*] )?: $mapper:expr) => {
+        impl_into_visitor_like!($target $(< $($param),* >)? as $source $( [where $($where)*] )?: try |res| Ok($mapper(res)));
+    };
 }
 
 impl_into_visitor_like!(Compact<T> as T: |res| Compact(res));
 impl_into_visitor_like!(Arc<T> as T: |res| Arc::new(res));
 impl_into_visitor_like!(Rc<T> as T: |res| Rc::new(res));
 impl_into_visitor_like!(Box<T> as T: |res| Box::new(res));
-impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| Duration::from_secs(res.0) + Duration::from_nanos(res.1 as u64));
+impl_into_visitor_like!(Duration as (u64, u32): try |res: (u64, u32)| {
+    // More than a second's worth of nanoseconds carries over into the seconds, which can overflow.
+    Duration::from_secs(res.0).checked_add(Duration::from_nanos(res.1 as u64)).ok_or_else(|| {
+        Error::new(ErrorKind::NumberOutOfRange { value: res.0.to_string() })
+    })
+});
 impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);
 impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| res.0..=res.1);
 
-- 
2.43.0


From f620a2b0e388fcd75e7f9cf6cd49ccd17cfdefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 03/22] fix: Tuple::remaining() counts only the items not yet
 decoded

---
 scale-decode/src/visitor/types/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 3faaaec..e11228b 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -58,7 +58,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
-        self.fields.len()
+        self.fields.len() - self.next_field_idx
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
-- 
2.43.0


From 9c4b6bebd432cb9442a19774cfd63e9a7a41a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 04/22] fix: TupleField::decode_with_visitor respects the
 compact flag

The bytes of a compact encoded field were decoded in fixed-width form, unlike
TupleField::decode_as_type and CompositeField::decode_with_visitor.
---
 scale-decode/src/visitor/types/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index e11228b..25abb0d 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -143,11 +143,12 @@ impl<'scale, 'resolver, R: TypeResolver> TupleField<'scale, 'resolver, R> {
         &self,
         visitor: V,
     ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
-        crate::visitor::decode_with_visitor(
+        crate::visitor::decode_with_visitor_maybe_compact(
             &mut &*self.bytes,
             self.type_id.clone(),
             self.types,
             visitor,
+            self.is_compact,
         )
     }
     /// Decode this field into a specific type via [`DecodeAsType`].
-- 
2.43.0


From acbd99d6bb4e7fb368ddd5f5837e6539512bb601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 05/22] fix: Composite::as_tuple() hands over the remaining
 fields only

It paired the bytes of the remaining fields with all of the fields, so that a
partly decoded composite was misread.
---
 scale-decode/src/visitor/types/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index e195c87..5445604 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -86,7 +86,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields.iter().cloned(),
+            &mut self.fields.iter().skip(self.next_field_idx).cloned(),
             self.types,
             self.is_compact,
         )
-- 
2.43.0


From 32ad7784f6d310f2648f8c038cd22cc541a17fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 06/22] fix: a visitor's error decoding a bit sequence is not
 masked

Return the visitor's own error in preference to the error from finding the end
of the bit sequence, like for every other kind of value.
---
 scale-decode/src/visitor/decode.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index cc3f098..847701e 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -357,8 +357,16 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         let res = self.visitor.visit_bitsequence(&mut bitseq, self.type_id);
 
         // Move to the bytes after the bit sequence.
-        *self.data = bitseq.bytes_after()?;
+        let bytes_after = bitseq.bytes_after();
+        if let Ok(bytes_after) = bytes_after {
+            *self.data = bytes_after;
+        }
 
-        res
+        // Prioritize returning visitor errors over errors finding the end of the bit sequence.
+        match (res, bytes_after) {
+            (Err(e), _) => Err(e),
+            (_, Err(e)) => Err(e.into()),
+            (Ok(v), _) => Ok(v),
+        }
     }
 }
-- 
2.43.0


From 4517c2afacdbc8b093e6a30bbb8c1ef4a78bafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 07/22] fix: decode 256-bit integers that are followed by more
 bytes

Converting the whole remaining input to [u8; 32] only succeeds if exactly 32
bytes are left.
---
 scale-decode/src/visitor/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 847701e..ba3efb1 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -220,9 +220,9 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
             data: &mut &'scale [u8],
         ) -> Result<&'scale [u8; 32], DecodeError> {
             // Pull an array from the data if we can, preserving the lifetime.
-            let arr: &'scale [u8; 32] = match (*data).try_into() {
-                Ok(arr) => arr,
-                Err(_) => return Err(DecodeError::NotEnoughInput),
+            let arr: &'scale [u8; 32] = match data.first_chunk() {
+                Some(arr) => arr,
+                None => return Err(DecodeError::NotEnoughInput),
             };
             // If we successfully read the bytes, then advance the pointer past them.
             *data = &data[32..];
-- 
2.43.0


From b9b1a6b5b1f74df9bcd8c149b836c55eaafe350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 08/22] fix: decode_as_fields for tuples returns the decode
 error, not a later skip error

---
 scale-decode/src/impls/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 2302cc7..2360e76 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -697,10 +697,15 @@ macro_rules! impl_decode_tuple {
                 let val = <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default());
 
                 // Skip over bytes that we decoded:
-                composite.skip_decoding()?;
-                *input = composite.bytes_from_undecoded();
+                let skip_res = composite.skip_decoding();
+                if skip_res.is_ok() {
+                    *input = composite.bytes_from_undecoded();
+                }
 
-                val
+                // Prioritize returning the decode error over any error skipping.
+                let val = val?;
+                skip_res?;
+                Ok(val)
             }
         }
     }
-- 
2.43.0


From 0a88f8351db6880ec6b685eeaea7e7de60738345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 09/22] fix: a sequence length beyond usize is an error

On targets with less than 64 bit pointers the length was silently truncated.
---
 scale-decode/src/visitor/types/sequence.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/sequence.rs b/scale-decode/src/visitor/types/sequence.rs
index b9ada17..722b1e3 100644
--- a/scale-decode/src/visitor/types/sequence.rs
+++ b/scale-decode/src/visitor/types/sequence.rs
@@ -39,7 +39,9 @@ impl<'scale, 'resolver, R: TypeResolver> Sequence<'scale, 'resolver, R> {
         // Sequences are prefixed with their length in bytes. Make a note of this,
         // as well as the number of bytes
         let item_bytes = &mut &*bytes;
-        let len = <Compact<u64>>::decode(item_bytes)?.0 as usize;
+        let len = <Compact<u64>>::decode(item_bytes)?.0;
+        let len = usize::try_from(len)
+            .map_err(|_| codec::Error::from("sequence length does not fit into usize"))?;
 
         Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })
     }
-- 
2.43.0


From fd2ca9b1ce312149d2948ba5ab92c44462cc107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 10/22] fix: no overflow computing the end of a string

On 32 bit targets compact_len + len can exceed usize::MAX.
---
 scale-decode/src/visitor/types/str.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/scale-decode/src/visitor/types/str.rs b/scale-decode/src/visitor/types/str.rs
index f8d788c..c53b0d4 100644
--- a/scale-decode/src/visitor/types/str.rs
+++ b/scale-decode/src/visitor/types/str.rs
@@ -47,7 +47,10 @@ impl<'scale> Str<'scale> {
     }
     /// The bytes remaining in the input after this string.
     pub fn bytes_after(&self) -> Result<&'scale [u8], DecodeError> {
-        self.bytes.get(self.compact_len + self.len..).ok_or(DecodeError::NotEnoughInput)
+        self.bytes
+            .get(self.compact_len..)
+            .and_then(|bytes| bytes.get(self.len..))
+            .ok_or(DecodeError::NotEnoughInput)
     }
     /// Is the string zero bytes long?
     pub fn is_empty(&self) -> bool {
@@ -55,9 +58,11 @@ impl<'scale> Str<'scale> {
     }
     /// return a string, failing if the bytes could not be properly utf8-decoded.
     pub fn as_str(&self) -> Result<&'scale str, DecodeError> {
-        let start = self.compact_len;
-        let end = start + self.len;
-        alloc::str::from_utf8(self.bytes.get(start..end).ok_or(DecodeError::NotEnoughInput)?)
-            .map_err(DecodeError::InvalidStr)
+        let bytes = self
+            .bytes
+            .get(self.compact_len..)
+            .and_then(|bytes| bytes.get(..self.len))
+            .ok_or(DecodeError::NotEnoughInput)?;
+        alloc::str::from_utf8(bytes).map_err(DecodeError::InvalidStr)
     }
 }
-- 
2.43.0


From 2f37b5666b33bce1fe9d90e452a4b39fd26a6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 11/22] fix: derive honours skip next to other codec attributes

Any attribute option unknown to the derive (eg codec(compact)), or giving skip in
both of its spellings, made attribute parsing fail, and that failure was treated
as no skip.
---
 scale-decode-derive/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 4d44700..c41c3c7 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -342,7 +342,7 @@ fn named_field_keyvals<'f>(
     fields: &'f syn::FieldsNamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f, impl Iterator<Item = TokenStream2> + 'f) {
     let field_keyval_impls = fields.named.iter().map(move |f| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
+        let field_attrs = FieldAttrs::parse(&f.attrs);
         let field_ident = f.ident.as_ref().expect("named field has ident");
         let field_name = field_ident.to_string();
         let skip_field = field_attrs.skip;
@@ -389,7 +389,7 @@ fn unnamed_field_vals<'f>(
     fields: &'f syn::FieldsUnnamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f) {
     let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
+        let field_attrs = FieldAttrs::parse(&f.attrs);
         let skip_field = field_attrs.skip;
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
@@ -561,8 +561,19 @@ impl TopLevelAttrs {
 
 /// Parse the attributes attached to some field
 #[derive(Debug, FromAttributes, Default)]
-#[darling(attributes(decode_as_type, codec))]
+#[darling(attributes(decode_as_type, codec), allow_unknown_fields)]
 struct FieldAttrs {
     #[darling(default)]
     skip: bool,
 }
+
+impl FieldAttrs {
+    // Each attribute is parsed on its own; "skip" may be given in more than one of them, and
+    // may appear next to options that are not for us, like `#[codec(compact)]`.
+    fn parse(attrs: &[syn::Attribute]) -> Self {
+        let skip = attrs.iter().any(|attr| {
+            Self::from_attributes(core::slice::from_ref(attr)).unwrap_or_default().skip
+        });
+        FieldAttrs { skip }
+    }
+}
-- 
2.43.0


From 96e9efdecd37aa3c16de980f7e49a2f6fff5796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 12/22] fix: derive keeps custom trait bounds when several
 attributes are given

A later #[decode_as_type(..)] attribute without trait_bounds reset them.
---
 scale-decode-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index c41c3c7..ca30e07 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -549,7 +549,9 @@ impl TopLevelAttrs {
             let meta = &attr.meta;
             let parsed_attrs = TopLevelAttrsInner::from_meta(meta)?;
 
-            res.trait_bounds = parsed_attrs.trait_bounds;
+            if let Some(trait_bounds) = parsed_attrs.trait_bounds {
+                res.trait_bounds = Some(trait_bounds);
+            }
             if let Some(crate_path) = parsed_attrs.crate_path {
                 res.crate_path = crate_path;
             }
-- 
2.43.0


From 7826d3fd4226479b3e1ff7b932699d2fd59bfcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 13/22] fix: derived decode_as_fields returns the decode error,
 not a later skip error

---
 scale-decode-derive/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index ca30e07..ef097ed 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -326,10 +326,15 @@ fn generate_struct_impl(
                     let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
 
                     // Consume any remaining bytes and update input:
-                    composite.skip_decoding()?;
-                    *input = composite.bytes_from_undecoded();
+                    let skip_res = composite.skip_decoding();
+                    if skip_res.is_ok() {
+                        *input = composite.bytes_from_undecoded();
+                    }
 
-                    val.map_err(From::from)
+                    // Prioritize returning the decode error over any error skipping.
+                    let val = val?;
+                    skip_res?;
+                    Ok(val)
                 }
             }
         };
-- 
2.43.0


From b2bbecb687e6507ef29dd42a979e47a736386990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 14/22] fix: derived code no longer clashes with names used
 around or in the type

The expansion named Result, Ok, Err, Some, Option, Default, core, vec! and the
like relative to the deriving scope, called its helper struct Visitor, its
lifetimes 'scale and 'info and a generic parameter R, and relied on prelude
traits, so types or scopes using any of these names failed to compile.
---
 scale-decode-derive/src/lib.rs | 137 +++++++++++++++++----------------
 1 file changed, 71 insertions(+), 66 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index ef097ed..7314b50 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -73,6 +73,7 @@ fn generate_enum_impl(
     let visitor_impl_generics = generic_types.visitor_impl_generics();
     let visitor_phantomdata_type = generic_types.visitor_phantomdata_type();
     let type_resolver_ident = generic_types.type_resolver_ident();
+    let visitor_ident = generic_types.visitor_ident();
 
     // determine what the body of our visitor functions will be based on the type of enum fields
     // that we're trying to generate output for.
@@ -92,18 +93,19 @@ fn generate_enum_impl(
                     let fields = value.fields();
                     return if fields.has_unnamed_fields() {
                         if fields.remaining() != #field_count {
-                            return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
+                            return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                                 actual_len: fields.remaining(),
                                 expected_len: #field_count
                             }));
                         }
                         let vals = fields;
-                        Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
+                        ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
                     } else {
-                        let vals: #path_to_scale_decode::BTreeMap<Option<&str>, _> = fields
-                            .map(|res| res.map(|item| (item.name(), item)))
-                            .collect::<Result<_, _>>()?;
-                        Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
+                        let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
+                            ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
+                                ::core::iter::Iterator::map(fields, |res| res.map(|item| (item.name(), item)))
+                            )?;
+                        ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
                     }
                 }
             },
@@ -116,18 +118,18 @@ fn generate_enum_impl(
                 quote!{
                     let fields = value.fields();
                     if fields.remaining() != #field_count {
-                        return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                             actual_len: fields.remaining(),
                             expected_len: #field_count
                         }));
                     }
                     let vals = fields;
-                    return Ok(#path_to_type::#variant_ident ( #(#field_vals),* ))
+                    return ::core::result::Result::Ok(#path_to_type::#variant_ident ( #(#field_vals),* ))
                 }
             },
             syn::Fields::Unit => {
                 quote!{
-                    return Ok(#path_to_type::#variant_ident)
+                    return ::core::result::Result::Ok(#path_to_type::#variant_ident)
                 }
             },
         };
@@ -141,54 +143,51 @@ fn generate_enum_impl(
 
     quote!(
         const _: () = {
-            #visibility struct Visitor #visitor_impl_generics (
+            #visibility struct #visitor_ident #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::vec;
-            use #path_to_scale_decode::ToString;
-
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
-                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = Visitor #visitor_ty_generics;
+                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = #visitor_ident #visitor_ty_generics;
                 fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
-                    Visitor(::core::marker::PhantomData)
+                    #visitor_ident(::core::marker::PhantomData)
                 }
             }
 
-            impl #visitor_impl_generics #path_to_scale_decode::Visitor for Visitor #visitor_ty_generics #visitor_where_clause {
+            impl #visitor_impl_generics #path_to_scale_decode::Visitor for #visitor_ident #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
-                type Value<'scale, 'info> = #path_to_type #ty_generics;
+                type Value<'scale_decode_scale, 'scale_decode_info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
 
-                fn visit_variant<'scale, 'info>(
+                fn visit_variant<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Variant<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Variant<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     #(
                         #variant_ifs
                     )*
-                    Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
-                        got: value.name().to_string(),
-                        expected: vec![#(#variant_names),*]
+                    ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
+                        got: #path_to_scale_decode::ToString::to_string(value.name()),
+                        expected: #path_to_scale_decode::vec![#(#variant_names),*]
                     }))
                 }
                 // Allow an enum to be decoded through nested 1-field composites and tuples:
-                fn visit_composite<'scale, 'info>(
+                fn visit_composite<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);
                     }
                     value.decode_item(self).unwrap()
                 }
-                fn visit_tuple<'scale, 'info>(
+                fn visit_tuple<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);
                     }
@@ -216,6 +215,7 @@ fn generate_struct_impl(
     let visitor_impl_generics = generic_types.visitor_impl_generics();
     let visitor_phantomdata_type = generic_types.visitor_phantomdata_type();
     let type_resolver_ident = generic_types.type_resolver_ident();
+    let visitor_ident = generic_types.visitor_ident();
 
     // determine what the body of our visitor functions will be based on the type of struct
     // that we're trying to generate output for.
@@ -230,19 +230,21 @@ fn generate_struct_impl(
                        return self.visit_tuple(&mut value.as_tuple(), type_id)
                     }
 
-                    let vals: #path_to_scale_decode::BTreeMap<Option<&str>, _> =
-                        value.map(|res| res.map(|item| (item.name(), item))).collect::<Result<_, _>>()?;
+                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
+                        ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
+                            ::core::iter::Iterator::map(value, |res| res.map(|item| (item.name(), item)))
+                        )?;
 
-                    Ok(#path_to_type { #(#field_composite_keyvals),* })
+                    ::core::result::Result::Ok(#path_to_type { #(#field_composite_keyvals),* })
                 },
                 quote! {
                     if value.remaining() != #field_count {
-                        return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
                     }
 
                     let vals = value;
 
-                    Ok(#path_to_type { #(#field_tuple_keyvals),* })
+                    ::core::result::Result::Ok(#path_to_type { #(#field_tuple_keyvals),* })
                 },
             )
         }
@@ -255,12 +257,12 @@ fn generate_struct_impl(
                 },
                 quote! {
                     if value.remaining() != #field_count {
-                        return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
                     }
 
                     let vals = value;
 
-                    Ok(#path_to_type ( #( #field_vals ),* ))
+                    ::core::result::Result::Ok(#path_to_type ( #( #field_vals ),* ))
                 },
             )
         }
@@ -270,60 +272,60 @@ fn generate_struct_impl(
             },
             quote! {
                 if value.remaining() > 0 {
-                    return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: 0 }));
+                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: 0 }));
                 }
-                Ok(#path_to_type)
+                ::core::result::Result::Ok(#path_to_type)
             },
         ),
     };
 
     quote!(
         const _: () = {
-            #visibility struct Visitor #visitor_impl_generics (
+            #visibility struct #visitor_ident #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::vec;
-            use #path_to_scale_decode::ToString;
-
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
-                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = Visitor #visitor_ty_generics;
+                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = #visitor_ident #visitor_ty_generics;
                 fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
-                    Visitor(::core::marker::PhantomData)
+                    #visitor_ident(::core::marker::PhantomData)
                 }
             }
 
-            impl #visitor_impl_generics #path_to_scale_decode::Visitor for Visitor #visitor_ty_generics #visitor_where_clause {
+            impl #visitor_impl_generics #path_to_scale_decode::Visitor for #visitor_ident #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
-                type Value<'scale, 'info> = #path_to_type #ty_generics;
+                type Value<'scale_decode_scale, 'scale_decode_info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
 
-                fn visit_composite<'scale, 'info>(
+                fn visit_composite<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     #visit_composite_body
                 }
-                fn visit_tuple<'scale, 'info>(
+                fn visit_tuple<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     #visit_tuple_body
                 }
             }
 
             impl #impl_generics #path_to_scale_decode::DecodeAsFields for #path_to_type #ty_generics #visitor_where_clause  {
-                fn decode_as_fields<'info, R: #path_to_scale_decode::TypeResolver>(
-                    input: &mut &[u8],
-                    fields: &mut dyn #path_to_scale_decode::FieldIter<'info, R::TypeId>,
-                    types: &'info R
-                ) -> Result<Self, #path_to_scale_decode::Error>
+                fn decode_as_fields<'scale_decode_info, #type_resolver_ident: #path_to_scale_decode::TypeResolver>(
+                    input: &mut &[::core::primitive::u8],
+                    fields: &mut dyn #path_to_scale_decode::FieldIter<'scale_decode_info, #type_resolver_ident::TypeId>,
+                    types: &'scale_decode_info #type_resolver_ident
+                ) -> ::core::result::Result<Self, #path_to_scale_decode::Error>
                 {
-                    let mut composite = #path_to_scale_decode::visitor::types::Composite::new(core::iter::empty(), input, fields, types, false);
-                    use #path_to_scale_decode::{ Visitor, IntoVisitor };
-                    let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
+                    let mut composite = #path_to_scale_decode::visitor::types::Composite::new(::core::iter::empty(), input, fields, types, false);
+                    let val = #path_to_scale_decode::Visitor::visit_composite(
+                        <Self as #path_to_scale_decode::IntoVisitor>::into_visitor::<#type_resolver_ident>(),
+                        &mut composite,
+                        ::core::default::Default::default()
+                    );
 
                     // Consume any remaining bytes and update input:
                     let skip_res = composite.skip_decoding();
@@ -334,7 +336,7 @@ fn generate_struct_impl(
                     // Prioritize returning the decode error over any error skipping.
                     let val = val?;
                     skip_res?;
-                    Ok(val)
+                    ::core::result::Result::Ok(val)
                 }
             }
         };
@@ -367,14 +369,13 @@ fn named_field_keyvals<'f>(
             // For turning named fields in scale typeinfo into named fields on struct like type:
             quote!(#field_ident: {
                 let val = vals
-                    .get(&Some(#field_name))
-                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #field_name.to_string() }))?
-                    .clone();
+                    .get(&::core::option::Option::Some(#field_name))
+                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;
                 val.decode_as_type().map_err(|e| e.at_field(#field_name))?
             }),
             // For turning named fields in scale typeinfo into unnamed fields on tuple like type:
             quote!(#field_ident: {
-                let val = vals.next().expect("field count should have been checked already on tuple type; please file a bug report")?;
+                let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
                 val.decode_as_type().map_err(|e| e.at_field(#field_name))?
             })
         )
@@ -407,7 +408,7 @@ fn unnamed_field_vals<'f>(
             true,
             // For turning unnamed fields in scale typeinfo into unnamed fields on tuple like type:
             quote!({
-                let val = vals.next().expect("field count should have been checked already on tuple type; please file a bug report")?;
+                let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
                 val.decode_as_type().map_err(|e| e.at_idx(#idx))?
             }),
         )
@@ -496,6 +497,7 @@ struct GenericTypes {
 
 impl GenericTypes {
     const TYPE_RESOLVER_IDENT_STR: &'static str = "ScaleDecodeTypeResolver";
+    const VISITOR_IDENT_STR: &'static str = "ScaleDecodeVisitor";
 
     pub fn ty_generics(&self) -> syn::TypeGenerics<'_> {
         let (_, ty_generics, _) = self.type_generics.split_for_impl();
@@ -522,6 +524,9 @@ impl GenericTypes {
     pub fn type_resolver_ident(&self) -> &syn::Ident {
         &self.type_resolver_ident
     }
+    pub fn visitor_ident(&self) -> syn::Ident {
+        syn::Ident::new(Self::VISITOR_IDENT_STR, Span::call_site())
+    }
 }
 
 struct TopLevelAttrs {
-- 
2.43.0


From 7a784e436a1fa7e679123e3f6ae6f26d4f99bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 15/22] fix: derive works for types with an unsized type
 parameter

---
 scale-decode-derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 7314b50..792e20c 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -444,12 +444,13 @@ fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTyp
         where_clause
     };
 
-    // (A, B, C, ScaleDecodeTypeResolver) style PhantomData type to use in Visitor struct.
+    // (PhantomData<A>, PhantomData<B>, ScaleDecodeTypeResolver) style PhantomData type to use in Visitor struct.
     let visitor_phantomdata_type = {
         let tys = generics.params.iter().filter_map::<syn::Type, _>(|p| match p {
             syn::GenericParam::Type(ty) => {
                 let ty = &ty.ident;
-                Some(syn::parse_quote!(#ty))
+                // Tuples can't contain types which may be unsized, but PhantomData can.
+                Some(syn::parse_quote!(::core::marker::PhantomData<#ty>))
             }
             syn::GenericParam::Lifetime(lt) => {
                 let lt = &lt.lifetime;
-- 
2.43.0


From 59e760d0a95bcb8da6d6acf55572620a238c4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:24 +0000
Subject: [PATCH 16/22] fix: derived code is not confused by extension traits
 that are in scope

---
 scale-decode-derive/src/lib.rs        | 92 +++++++++++++++------------
 scale-decode/src/visitor/types/mod.rs |  4 +-
 2 files changed, 52 insertions(+), 44 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 792e20c..17c3fa7 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -87,14 +87,14 @@ fn generate_enum_impl(
                     field_count,
                     field_composite_keyvals,
                     field_tuple_keyvals
-                ) = named_field_keyvals(path_to_scale_decode, fields);
+                ) = named_field_keyvals(path_to_scale_decode, fields, quote!(#path_to_scale_decode::visitor::types::CompositeField));
 
                 quote!{
-                    let fields = value.fields();
-                    return if fields.has_unnamed_fields() {
-                        if fields.remaining() != #field_count {
+                    let fields = #path_to_scale_decode::visitor::types::Variant::fields(value);
+                    return if #path_to_scale_decode::visitor::types::Composite::has_unnamed_fields(fields) {
+                        if #path_to_scale_decode::visitor::types::Composite::remaining(fields) != #field_count {
                             return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
-                                actual_len: fields.remaining(),
+                                actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(fields),
                                 expected_len: #field_count
                             }));
                         }
@@ -103,7 +103,7 @@ fn generate_enum_impl(
                     } else {
                         let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
                             ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
-                                ::core::iter::Iterator::map(fields, |res| res.map(|item| (item.name(), item)))
+                                ::core::iter::Iterator::map(fields, |res| res.map(|item| (#path_to_scale_decode::visitor::types::CompositeField::name(&item), item)))
                             )?;
                         ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
                     }
@@ -113,13 +113,13 @@ fn generate_enum_impl(
                 let (
                     field_count,
                     field_vals
-                ) = unnamed_field_vals(path_to_scale_decode, fields);
+                ) = unnamed_field_vals(fields, quote!(#path_to_scale_decode::visitor::types::CompositeField));
 
                 quote!{
-                    let fields = value.fields();
-                    if fields.remaining() != #field_count {
+                    let fields = #path_to_scale_decode::visitor::types::Variant::fields(value);
+                    if #path_to_scale_decode::visitor::types::Composite::remaining(fields) != #field_count {
                         return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
-                            actual_len: fields.remaining(),
+                            actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(fields),
                             expected_len: #field_count
                         }));
                     }
@@ -135,7 +135,7 @@ fn generate_enum_impl(
         };
 
         quote!{
-            if value.name() == #variant_name {
+            if #path_to_scale_decode::visitor::types::Variant::name(value) == #variant_name {
                 #visit_one_variant_body
             }
         }
@@ -168,7 +168,7 @@ fn generate_enum_impl(
                         #variant_ifs
                     )*
                     ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
-                        got: #path_to_scale_decode::ToString::to_string(value.name()),
+                        got: #path_to_scale_decode::ToString::to_string(#path_to_scale_decode::visitor::types::Variant::name(value)),
                         expected: #path_to_scale_decode::vec![#(#variant_names),*]
                     }))
                 }
@@ -178,20 +178,20 @@ fn generate_enum_impl(
                     value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
                 ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
-                    if value.remaining() != 1 {
-                        return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);
+                    if #path_to_scale_decode::visitor::types::Composite::remaining(value) != 1 {
+                        return #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Composite);
                     }
-                    value.decode_item(self).unwrap()
+                    #path_to_scale_decode::visitor::types::Composite::decode_item(value, self).unwrap()
                 }
                 fn visit_tuple<'scale_decode_scale, 'scale_decode_info>(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
                 ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
-                    if value.remaining() != 1 {
-                        return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);
+                    if #path_to_scale_decode::visitor::types::Tuple::remaining(value) != 1 {
+                        return #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Tuple);
                     }
-                    value.decode_item(self).unwrap()
+                    #path_to_scale_decode::visitor::types::Tuple::decode_item(value, self).unwrap()
                 }
             }
         };
@@ -221,25 +221,28 @@ fn generate_struct_impl(
     // that we're trying to generate output for.
     let (visit_composite_body, visit_tuple_body) = match &details.fields {
         syn::Fields::Named(fields) => {
-            let (field_count, field_composite_keyvals, field_tuple_keyvals) =
-                named_field_keyvals(path_to_scale_decode, fields);
+            let (field_count, field_composite_keyvals, field_tuple_keyvals) = named_field_keyvals(
+                path_to_scale_decode,
+                fields,
+                quote!(#path_to_scale_decode::visitor::types::TupleField),
+            );
 
             (
                 quote! {
-                    if value.has_unnamed_fields() {
-                       return self.visit_tuple(&mut value.as_tuple(), type_id)
+                    if #path_to_scale_decode::visitor::types::Composite::has_unnamed_fields(value) {
+                       return #path_to_scale_decode::Visitor::visit_tuple(self, &mut #path_to_scale_decode::visitor::types::Composite::as_tuple(value), type_id)
                     }
 
                     let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
                         ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
-                            ::core::iter::Iterator::map(value, |res| res.map(|item| (item.name(), item)))
+                            ::core::iter::Iterator::map(value, |res| res.map(|item| (#path_to_scale_decode::visitor::types::CompositeField::name(&item), item)))
                         )?;
 
                     ::core::result::Result::Ok(#path_to_type { #(#field_composite_keyvals),* })
                 },
                 quote! {
-                    if value.remaining() != #field_count {
-                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                    if #path_to_scale_decode::visitor::types::Tuple::remaining(value) != #field_count {
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(value), expected_len: #field_count }));
                     }
 
                     let vals = value;
@@ -249,15 +252,18 @@ fn generate_struct_impl(
             )
         }
         syn::Fields::Unnamed(fields) => {
-            let (field_count, field_vals) = unnamed_field_vals(path_to_scale_decode, fields);
+            let (field_count, field_vals) = unnamed_field_vals(
+                fields,
+                quote!(#path_to_scale_decode::visitor::types::TupleField),
+            );
 
             (
                 quote! {
-                    self.visit_tuple(&mut value.as_tuple(), type_id)
+                    #path_to_scale_decode::Visitor::visit_tuple(self, &mut #path_to_scale_decode::visitor::types::Composite::as_tuple(value), type_id)
                 },
                 quote! {
-                    if value.remaining() != #field_count {
-                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                    if #path_to_scale_decode::visitor::types::Tuple::remaining(value) != #field_count {
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(value), expected_len: #field_count }));
                     }
 
                     let vals = value;
@@ -268,11 +274,11 @@ fn generate_struct_impl(
         }
         syn::Fields::Unit => (
             quote! {
-                self.visit_tuple(&mut value.as_tuple(), type_id)
+                #path_to_scale_decode::Visitor::visit_tuple(self, &mut #path_to_scale_decode::visitor::types::Composite::as_tuple(value), type_id)
             },
             quote! {
-                if value.remaining() > 0 {
-                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: 0 }));
+                if #path_to_scale_decode::visitor::types::Tuple::remaining(value) > 0 {
+                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(value), expected_len: 0 }));
                 }
                 ::core::result::Result::Ok(#path_to_type)
             },
@@ -328,9 +334,9 @@ fn generate_struct_impl(
                     );
 
                     // Consume any remaining bytes and update input:
-                    let skip_res = composite.skip_decoding();
-                    if skip_res.is_ok() {
-                        *input = composite.bytes_from_undecoded();
+                    let skip_res = #path_to_scale_decode::visitor::types::Composite::skip_decoding(&mut composite);
+                    if ::core::result::Result::is_ok(&skip_res) {
+                        *input = #path_to_scale_decode::visitor::types::Composite::bytes_from_undecoded(&composite);
                     }
 
                     // Prioritize returning the decode error over any error skipping.
@@ -344,9 +350,11 @@ fn generate_struct_impl(
 }
 
 // Given some named fields, generate impls like `field_name: get_field_value()` for each field. Do this for the composite and tuple impls.
+// `tuple_item` is the type of the items that are iterated over in the tuple impl.
 fn named_field_keyvals<'f>(
     path_to_scale_decode: &'f syn::Path,
     fields: &'f syn::FieldsNamed,
+    tuple_item: TokenStream2,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f, impl Iterator<Item = TokenStream2> + 'f) {
     let field_keyval_impls = fields.named.iter().map(move |f| {
         let field_attrs = FieldAttrs::parse(&f.attrs);
@@ -368,15 +376,14 @@ fn named_field_keyvals<'f>(
             true,
             // For turning named fields in scale typeinfo into named fields on struct like type:
             quote!(#field_ident: {
-                let val = vals
-                    .get(&::core::option::Option::Some(#field_name))
+                let val = #path_to_scale_decode::BTreeMap::get(&vals, &::core::option::Option::Some(#field_name))
                     .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;
-                val.decode_as_type().map_err(|e| e.at_field(#field_name))?
+                #path_to_scale_decode::visitor::types::CompositeField::decode_as_type(val).map_err(|e| e.at_field(#field_name))?
             }),
             // For turning named fields in scale typeinfo into unnamed fields on tuple like type:
             quote!(#field_ident: {
                 let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
-                val.decode_as_type().map_err(|e| e.at_field(#field_name))?
+                #tuple_item::decode_as_type(&val).map_err(|e| e.at_field(#field_name))?
             })
         )
     });
@@ -390,11 +397,12 @@ fn named_field_keyvals<'f>(
 }
 
 // Given some unnamed fields, generate impls like `get_field_value()` for each field. Do this for a tuple style impl.
+// `tuple_item` is the type of the items that are iterated over.
 fn unnamed_field_vals<'f>(
-    _path_to_scale_decode: &'f syn::Path,
     fields: &'f syn::FieldsUnnamed,
+    tuple_item: TokenStream2,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f) {
-    let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
+    let field_val_impls = fields.unnamed.iter().enumerate().map(move |(idx, f)| {
         let field_attrs = FieldAttrs::parse(&f.attrs);
         let skip_field = field_attrs.skip;
 
@@ -409,7 +417,7 @@ fn unnamed_field_vals<'f>(
             // For turning unnamed fields in scale typeinfo into unnamed fields on tuple like type:
             quote!({
                 let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
-                val.decode_as_type().map_err(|e| e.at_idx(#idx))?
+                #tuple_item::decode_as_type(&val).map_err(|e| e.at_idx(#idx))?
             }),
         )
     });
diff --git a/scale-decode/src/visitor/types/mod.rs b/scale-decode/src/visitor/types/mod.rs
index 26eac11..251baf6 100644
--- a/scale-decode/src/visitor/types/mod.rs
+++ b/scale-decode/src/visitor/types/mod.rs
@@ -26,7 +26,7 @@ mod variant;
 pub use self::str::Str;
 pub use array::Array;
 pub use bit_sequence::BitSequence;
-pub use composite::Composite;
+pub use composite::{Composite, CompositeField};
 pub use sequence::Sequence;
-pub use tuple::Tuple;
+pub use tuple::{Tuple, TupleField};
 pub use variant::Variant;
-- 
2.43.0


From 89d49017111c48a0fb2038d1ac1b420a154855b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 17/22] fix: derive works for enums and const parameters with
 unlucky names

---
 scale-decode-derive/src/lib.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 17c3fa7..abf323e 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -149,7 +149,7 @@ fn generate_enum_impl(
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
                 type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = #visitor_ident #visitor_ty_generics;
-                fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
+                fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> <Self as #path_to_scale_decode::IntoVisitor>::AnyVisitor<#type_resolver_ident> {
                     #visitor_ident(::core::marker::PhantomData)
                 }
             }
@@ -293,7 +293,7 @@ fn generate_struct_impl(
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
                 type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = #visitor_ident #visitor_ty_generics;
-                fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
+                fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> <Self as #path_to_scale_decode::IntoVisitor>::AnyVisitor<#type_resolver_ident> {
                     #visitor_ident(::core::marker::PhantomData)
                 }
             }
@@ -496,6 +496,26 @@ fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTyp
     }
 }
 
+// The arguments to hand to a type with the generics given, eg `<'a, T, { N }>`. Const arguments
+// are put into braces so that they can't be mistaken for a type of the same name.
+fn generic_args(generics: &syn::Generics) -> TokenStream2 {
+    let args = generics.params.iter().map(|param| match param {
+        syn::GenericParam::Lifetime(lt) => {
+            let lt = &lt.lifetime;
+            quote!(#lt)
+        }
+        syn::GenericParam::Type(ty) => {
+            let ty = &ty.ident;
+            quote!(#ty)
+        }
+        syn::GenericParam::Const(c) => {
+            let c = &c.ident;
+            quote!({ #c })
+        }
+    });
+    quote!(<#(#args),*>)
+}
+
 struct GenericTypes {
     type_resolver_ident: syn::Ident,
     type_generics: syn::Generics,
@@ -508,9 +528,8 @@ impl GenericTypes {
     const TYPE_RESOLVER_IDENT_STR: &'static str = "ScaleDecodeTypeResolver";
     const VISITOR_IDENT_STR: &'static str = "ScaleDecodeVisitor";
 
-    pub fn ty_generics(&self) -> syn::TypeGenerics<'_> {
-        let (_, ty_generics, _) = self.type_generics.split_for_impl();
-        ty_generics
+    pub fn ty_generics(&self) -> TokenStream2 {
+        generic_args(&self.type_generics)
     }
     pub fn impl_generics(&self) -> syn::ImplGenerics<'_> {
         let (impl_generics, _, _) = self.type_generics.split_for_impl();
@@ -519,9 +538,8 @@ impl GenericTypes {
     pub fn visitor_where_clause(&self) -> &syn::WhereClause {
         &self.visitor_where_clause
     }
-    pub fn visitor_ty_generics(&self) -> syn::TypeGenerics<'_> {
-        let (_, ty_generics, _) = self.visitor_generics.split_for_impl();
-        ty_generics
+    pub fn visitor_ty_generics(&self) -> TokenStream2 {
+        generic_args(&self.visitor_generics)
     }
     pub fn visitor_impl_generics(&self) -> syn::ImplGenerics<'_> {
         let (impl_generics, _, _) = self.visitor_generics.split_for_impl();
-- 
2.43.0


From 85827aea265e874100a7f3b3fe40fa9dfe00d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:03 +0000
Subject: [PATCH 18/22] fix: derive works for bounds on Self and unsized
 parameters in where clauses

Bounds are repeated on the generated visitor, where `Self` meant the visitor
rather than the type, and `where T: ?Sized` was lost.
---
 scale-decode-derive/src/lib.rs | 88 +++++++++++++++++++++++++++++++---
 1 file changed, 81 insertions(+), 7 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index abf323e..ab888ef 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -21,7 +21,7 @@ extern crate alloc;
 
 use alloc::string::ToString;
 use darling::FromAttributes;
-use proc_macro2::{Span, TokenStream as TokenStream2};
+use proc_macro2::{Group, Span, TokenStream as TokenStream2, TokenTree};
 use quote::quote;
 use syn::{parse_macro_input, punctuated::Punctuated, DeriveInput};
 
@@ -65,10 +65,11 @@ fn generate_enum_impl(
     let path_to_type: syn::Path = input.ident.clone().into();
     let variant_names = details.variants.iter().map(|v| v.ident.to_string());
 
-    let generic_types = handle_generics(&attrs, input.generics.clone());
+    let generic_types = handle_generics(&attrs, &input.ident, input.generics.clone());
     let ty_generics = generic_types.ty_generics();
     let impl_generics = generic_types.impl_generics();
     let visitor_where_clause = generic_types.visitor_where_clause();
+    let visitor_struct_where_clause = generic_types.visitor_struct_where_clause();
     let visitor_ty_generics = generic_types.visitor_ty_generics();
     let visitor_impl_generics = generic_types.visitor_impl_generics();
     let visitor_phantomdata_type = generic_types.visitor_phantomdata_type();
@@ -145,7 +146,7 @@ fn generate_enum_impl(
         const _: () = {
             #visibility struct #visitor_ident #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
-            );
+            ) #visitor_struct_where_clause;
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
                 type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = #visitor_ident #visitor_ty_generics;
@@ -207,10 +208,11 @@ fn generate_struct_impl(
     let path_to_scale_decode = &attrs.crate_path;
     let path_to_type: syn::Path = input.ident.clone().into();
 
-    let generic_types = handle_generics(&attrs, input.generics.clone());
+    let generic_types = handle_generics(&attrs, &input.ident, input.generics.clone());
     let ty_generics = generic_types.ty_generics();
     let impl_generics = generic_types.impl_generics();
     let visitor_where_clause = generic_types.visitor_where_clause();
+    let visitor_struct_where_clause = generic_types.visitor_struct_where_clause();
     let visitor_ty_generics = generic_types.visitor_ty_generics();
     let visitor_impl_generics = generic_types.visitor_impl_generics();
     let visitor_phantomdata_type = generic_types.visitor_phantomdata_type();
@@ -289,7 +291,7 @@ fn generate_struct_impl(
         const _: () = {
             #visibility struct #visitor_ident #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
-            );
+            ) #visitor_struct_where_clause;
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
                 type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = #visitor_ident #visitor_ty_generics;
@@ -429,9 +431,17 @@ fn unnamed_field_vals<'f>(
     (field_count, field_vals)
 }
 
-fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTypes {
+fn handle_generics(
+    attrs: &TopLevelAttrs,
+    ident: &syn::Ident,
+    generics: syn::Generics,
+) -> GenericTypes {
     let path_to_crate = &attrs.crate_path;
 
+    // The bounds are repeated on our visitor, too, where `Self` would be the visitor type.
+    let self_ty = self_type(ident, &generics);
+    let generics = name_self_in_generics(&self_ty, generics);
+
     let type_resolver_ident =
         syn::Ident::new(GenericTypes::TYPE_RESOLVER_IDENT_STR, Span::call_site());
 
@@ -441,7 +451,12 @@ fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTyp
         let mut where_clause = where_clause.cloned().unwrap_or(syn::parse_quote!(where));
         if let Some(where_predicates) = &attrs.trait_bounds {
             // if custom trait bounds are given, append those to the where clause.
-            where_clause.predicates.extend(where_predicates.clone());
+            where_clause.predicates.extend(where_predicates.iter().map::<syn::WherePredicate, _>(
+                |p| {
+                    let p = name_self(quote!(#p), &self_ty);
+                    syn::parse_quote!(#p)
+                },
+            ));
         } else {
             // else, append our default bounds to each parameter to ensure that it all lines up with our generated impls and such:
             for param in generics.type_params() {
@@ -452,6 +467,16 @@ fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTyp
         where_clause
     };
 
+    // Our visitor struct accepts unsized parameters if the type does. Bounds next to a parameter
+    // are copied to it anyway; do the same with a `T: ?Sized` that's found in the where clause.
+    let visitor_struct_where_clause = {
+        let mut where_clause: syn::WhereClause = syn::parse_quote!(where);
+        where_clause.predicates.extend(
+            visitor_where_clause.predicates.iter().filter(|p| is_relaxed_bound(p)).cloned(),
+        );
+        where_clause
+    };
+
     // (PhantomData<A>, PhantomData<B>, ScaleDecodeTypeResolver) style PhantomData type to use in Visitor struct.
     let visitor_phantomdata_type = {
         let tys = generics.params.iter().filter_map::<syn::Type, _>(|p| match p {
@@ -493,9 +518,54 @@ fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTyp
         visitor_generics,
         visitor_phantomdata_type,
         visitor_where_clause,
+        visitor_struct_where_clause,
     }
 }
 
+// Is this a bound like `T: ?Sized`?
+fn is_relaxed_bound(predicate: &syn::WherePredicate) -> bool {
+    let syn::WherePredicate::Type(ty) = predicate else { return false };
+    ty.bounds.iter().all(|bound| {
+        matches!(bound, syn::TypeParamBound::Trait(t) if matches!(t.modifier, syn::TraitBoundModifier::Maybe(_)))
+    })
+}
+
+// The type that's being derived on, written out.
+fn self_type(ident: &syn::Ident, generics: &syn::Generics) -> TokenStream2 {
+    let args = generic_args(generics);
+    quote!(#ident #args)
+}
+
+// Write out the type that's being derived on in place of any `Self` that's used in its generics.
+fn name_self_in_generics(ty: &TokenStream2, mut generics: syn::Generics) -> syn::Generics {
+    for param in generics.type_params_mut() {
+        let bounds = &param.bounds;
+        let bounds = name_self(quote!(#bounds), ty);
+        param.bounds = syn::parse_quote!(#bounds);
+    }
+    if let Some(where_clause) = &generics.where_clause {
+        let where_clause = name_self(quote!(#where_clause), ty);
+        generics.where_clause = Some(syn::parse_quote!(#where_clause));
+    }
+    generics
+}
+
+fn name_self(tokens: TokenStream2, ty: &TokenStream2) -> TokenStream2 {
+    tokens
+        .into_iter()
+        .flat_map(|token| match token {
+            TokenTree::Ident(ident) if ident == "Self" => ty.clone(),
+            TokenTree::Group(group) => {
+                let stream = name_self(group.stream(), ty);
+                let mut new_group = Group::new(group.delimiter(), stream);
+                new_group.set_span(group.span());
+                TokenTree::Group(new_group).into()
+            }
+            token => token.into(),
+        })
+        .collect()
+}
+
 // The arguments to hand to a type with the generics given, eg `<'a, T, { N }>`. Const arguments
 // are put into braces so that they can't be mistaken for a type of the same name.
 fn generic_args(generics: &syn::Generics) -> TokenStream2 {
@@ -521,6 +591,7 @@ struct GenericTypes {
     type_generics: syn::Generics,
     visitor_generics: syn::Generics,
     visitor_where_clause: syn::WhereClause,
+    visitor_struct_where_clause: syn::WhereClause,
     visitor_phantomdata_type: syn::Type,
 }
 
@@ -538,6 +609,9 @@ impl GenericTypes {
     pub fn visitor_where_clause(&self) -> &syn::WhereClause {
         &self.visitor_where_clause
     }
+    pub fn visitor_struct_where_clause(&self) -> &syn::WhereClause {
+        &self.visitor_struct_where_clause
+    }
     pub fn visitor_ty_generics(&self) -> TokenStream2 {
         generic_args(&self.visitor_generics)
     }
-- 
2.43.0


From 061cfb5504fdf7c24612c340b4fe556fd79449e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:47 +0000
Subject: [PATCH 19/22] fix: derive works for parameters which a type borrows
 for one of its lifetimes

eg. `struct Foo<'a, T>(#[codec(skip)] Option<&'a T>)`, where `T: 'a` is only
implied by the type, and so was not known to hold for the visitor.
---
 scale-decode-derive/src/lib.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index ab888ef..0029119 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -467,15 +467,9 @@ fn handle_generics(
         where_clause
     };
 
-    // Our visitor struct accepts unsized parameters if the type does. Bounds next to a parameter
-    // are copied to it anyway; do the same with a `T: ?Sized` that's found in the where clause.
-    let visitor_struct_where_clause = {
-        let mut where_clause: syn::WhereClause = syn::parse_quote!(where);
-        where_clause.predicates.extend(
-            visitor_where_clause.predicates.iter().filter(|p| is_relaxed_bound(p)).cloned(),
-        );
-        where_clause
-    };
+    // The visitor struct has the bounds that the type has (it mentions the type, below). This
+    // includes any `T: ?Sized`; bounds next to a parameter are copied to it anyway.
+    let visitor_struct_where_clause = generics.where_clause.clone();
 
     // (PhantomData<A>, PhantomData<B>, ScaleDecodeTypeResolver) style PhantomData type to use in Visitor struct.
     let visitor_phantomdata_type = {
@@ -493,6 +487,11 @@ fn handle_generics(
             syn::GenericParam::Const(_) => None,
         });
 
+        // Mention the type itself, so that `T: 'a` holds for our visitor if the type implies it.
+        let tys = tys.chain(core::iter::once(
+            syn::parse_quote!(::core::marker::PhantomData<fn() -> #self_ty>),
+        ));
+
         // Add a param for the type resolver generic.
         let tys = tys.chain(core::iter::once(syn::parse_quote!(#type_resolver_ident)));
 
@@ -522,14 +521,6 @@ fn handle_generics(
     }
 }
 
-// Is this a bound like `T: ?Sized`?
-fn is_relaxed_bound(predicate: &syn::WherePredicate) -> bool {
-    let syn::WherePredicate::Type(ty) = predicate else { return false };
-    ty.bounds.iter().all(|bound| {
-        matches!(bound, syn::TypeParamBound::Trait(t) if matches!(t.modifier, syn::TraitBoundModifier::Maybe(_)))
-    })
-}
-
 // The type that's being derived on, written out.
 fn self_type(ident: &syn::Ident, generics: &syn::Generics) -> TokenStream2 {
     let args = generic_args(generics);
@@ -591,7 +582,7 @@ struct GenericTypes {
     type_generics: syn::Generics,
     visitor_generics: syn::Generics,
     visitor_where_clause: syn::WhereClause,
-    visitor_struct_where_clause: syn::WhereClause,
+    visitor_struct_where_clause: Option<syn::WhereClause>,
     visitor_phantomdata_type: syn::Type,
 }
 
@@ -609,7 +600,7 @@ impl GenericTypes {
     pub fn visitor_where_clause(&self) -> &syn::WhereClause {
         &self.visitor_where_clause
     }
-    pub fn visitor_struct_where_clause(&self) -> &syn::WhereClause {
+    pub fn visitor_struct_where_clause(&self) -> &Option<syn::WhereClause> {
         &self.visitor_struct_where_clause
     }
     pub fn visitor_ty_generics(&self) -> TokenStream2 {
-- 
2.43.0


From 453bc1559a4a29b4054a81f0614fe0bdb7f738aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 20/22] fix: derive works for deprecated types in crates that
 deny the lint

---
 scale-decode-derive/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 0029119..39c5131 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -143,6 +143,7 @@ fn generate_enum_impl(
     });
 
     quote!(
+        #[allow(deprecated)]
         const _: () = {
             #visibility struct #visitor_ident #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
@@ -288,6 +289,7 @@ fn generate_struct_impl(
     };
 
     quote!(
+        #[allow(deprecated)]
         const _: () = {
             #visibility struct #visitor_ident #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
-- 
2.43.0


From 12d0a1ff1da0bb6214ab78af4a34b902a706c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 21/22] fix: counting decoded items cannot overflow on the item
 that does not exist

---
 scale-decode/src/impls/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 2360e76..646345f 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -745,9 +745,10 @@ where
 {
     let mut idx = 0;
     core::iter::from_fn(move || {
-        let item = decoder.decode_item(T::into_visitor()).map(|res| res.map_err(|e| e.at_idx(idx)));
+        let item = decoder.decode_item(T::into_visitor())?.map_err(|e| e.at_idx(idx));
+        // Only count items that exist; there can be as many as `idx` is able to count.
         idx += 1;
-        item
+        Some(item)
     })
 }
 
-- 
2.43.0


From f803c4ea9323435037c0dead137b087a9e5b1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 22/22] fix: derive works where a constant, static or const
 parameter has a name like value or e

---
 scale-decode-derive/src/lib.rs | 121 +++++++++++++++++----------------
 1 file changed, 62 insertions(+), 59 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 39c5131..65be608 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -27,6 +27,9 @@ use syn::{parse_macro_input, punctuated::Punctuated, DeriveInput};
 
 const ATTR_NAME: &str = "decode_as_type";
 
+// Note: a name that the generated code binds must not be the name of a constant, static or const
+// parameter in scope where the macro is used. Thus, each such name starts with `__`.
+
 // Macro docs in main crate; don't add any docs here.
 #[proc_macro_derive(DecodeAsType, attributes(decode_as_type, codec))]
 pub fn derive_macro(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
@@ -91,20 +94,20 @@ fn generate_enum_impl(
                 ) = named_field_keyvals(path_to_scale_decode, fields, quote!(#path_to_scale_decode::visitor::types::CompositeField));
 
                 quote!{
-                    let fields = #path_to_scale_decode::visitor::types::Variant::fields(value);
-                    return if #path_to_scale_decode::visitor::types::Composite::has_unnamed_fields(fields) {
-                        if #path_to_scale_decode::visitor::types::Composite::remaining(fields) != #field_count {
+                    let __fields = #path_to_scale_decode::visitor::types::Variant::fields(__value);
+                    return if #path_to_scale_decode::visitor::types::Composite::has_unnamed_fields(__fields) {
+                        if #path_to_scale_decode::visitor::types::Composite::remaining(__fields) != #field_count {
                             return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
-                                actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(fields),
+                                actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(__fields),
                                 expected_len: #field_count
                             }));
                         }
-                        let vals = fields;
+                        let __vals = __fields;
                         ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
                     } else {
-                        let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
+                        let __vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
                             ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
-                                ::core::iter::Iterator::map(fields, |res| res.map(|item| (#path_to_scale_decode::visitor::types::CompositeField::name(&item), item)))
+                                ::core::iter::Iterator::map(__fields, |__res| __res.map(|__item| (#path_to_scale_decode::visitor::types::CompositeField::name(&__item), __item)))
                             )?;
                         ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
                     }
@@ -117,14 +120,14 @@ fn generate_enum_impl(
                 ) = unnamed_field_vals(fields, quote!(#path_to_scale_decode::visitor::types::CompositeField));
 
                 quote!{
-                    let fields = #path_to_scale_decode::visitor::types::Variant::fields(value);
-                    if #path_to_scale_decode::visitor::types::Composite::remaining(fields) != #field_count {
+                    let __fields = #path_to_scale_decode::visitor::types::Variant::fields(__value);
+                    if #path_to_scale_decode::visitor::types::Composite::remaining(__fields) != #field_count {
                         return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
-                            actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(fields),
+                            actual_len: #path_to_scale_decode::visitor::types::Composite::remaining(__fields),
                             expected_len: #field_count
                         }));
                     }
-                    let vals = fields;
+                    let __vals = __fields;
                     return ::core::result::Result::Ok(#path_to_type::#variant_ident ( #(#field_vals),* ))
                 }
             },
@@ -136,7 +139,7 @@ fn generate_enum_impl(
         };
 
         quote!{
-            if #path_to_scale_decode::visitor::types::Variant::name(value) == #variant_name {
+            if #path_to_scale_decode::visitor::types::Variant::name(__value) == #variant_name {
                 #visit_one_variant_body
             }
         }
@@ -163,37 +166,37 @@ fn generate_enum_impl(
 
                 fn visit_variant<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Variant<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
-                    type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
+                    __value: &mut #path_to_scale_decode::visitor::types::Variant<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
+                    __type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
                 ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     #(
                         #variant_ifs
                     )*
                     ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
-                        got: #path_to_scale_decode::ToString::to_string(#path_to_scale_decode::visitor::types::Variant::name(value)),
+                        got: #path_to_scale_decode::ToString::to_string(#path_to_scale_decode::visitor::types::Variant::name(__value)),
                         expected: #path_to_scale_decode::vec![#(#variant_names),*]
                     }))
                 }
                 // Allow an enum to be decoded through nested 1-field composites and tuples:
                 fn visit_composite<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
-                    _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
+                    __value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
+                    __type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
                 ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
-                    if #path_to_scale_decode::visitor::types::Composite::remaining(value) != 1 {
+                    if #path_to_scale_decode::visitor::types::Composite::remaining(__value) != 1 {
                         return #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Composite);
                     }
-                    #path_to_scale_decode::visitor::types::Composite::decode_item(value, self).unwrap()
+                    #path_to_scale_decode::visitor::types::Composite::decode_item(__value, self).unwrap()
                 }
                 fn visit_tuple<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
-                    _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
+                    __value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
+                    __type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
                 ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
-                    if #path_to_scale_decode::visitor::types::Tuple::remaining(value) != 1 {
+                    if #path_to_scale_decode::visitor::types::Tuple::remaining(__value) != 1 {
                         return #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Tuple);
                     }
-                    #path_to_scale_decode::visitor::types::Tuple::decode_item(value, self).unwrap()
+                    #path_to_scale_decode::visitor::types::Tuple::decode_item(__value, self).unwrap()
                 }
             }
         };
@@ -232,23 +235,23 @@ fn generate_struct_impl(
 
             (
                 quote! {
-                    if #path_to_scale_decode::visitor::types::Composite::has_unnamed_fields(value) {
-                       return #path_to_scale_decode::Visitor::visit_tuple(self, &mut #path_to_scale_decode::visitor::types::Composite::as_tuple(value), type_id)
+                    if #path_to_scale_decode::visitor::types::Composite::has_unnamed_fields(__value) {
+                       return #path_to_scale_decode::Visitor::visit_tuple(self, &mut #path_to_scale_decode::visitor::types::Composite::as_tuple(__value), __type_id)
                     }
 
-                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
+                    let __vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
                         ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
-                            ::core::iter::Iterator::map(value, |res| res.map(|item| (#path_to_scale_decode::visitor::types::CompositeField::name(&item), item)))
+                            ::core::iter::Iterator::map(__value, |__res| __res.map(|__item| (#path_to_scale_decode::visitor::types::CompositeField::name(&__item), __item)))
                         )?;
 
                     ::core::result::Result::Ok(#path_to_type { #(#field_composite_keyvals),* })
                 },
                 quote! {
-                    if #path_to_scale_decode::visitor::types::Tuple::remaining(value) != #field_count {
-                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(value), expected_len: #field_count }));
+                    if #path_to_scale_decode::visitor::types::Tuple::remaining(__value) != #field_count {
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(__value), expected_len: #field_count }));
                     }
 
-                    let vals = value;
+                    let __vals = __value;
 
                     ::core::result::Result::Ok(#path_to_type { #(#field_tuple_keyvals),* })
                 },
@@ -262,14 +265,14 @@ fn generate_struct_impl(
 
             (
                 quote! {
-                    #path_to_scale_decode::Visitor::visit_tuple(self, &mut #path_to_scale_decode::visitor::types::Composite::as_tuple(value), type_id)
+                    #path_to_scale_decode::Visitor::visit_tuple(self, &mut #path_to_scale_decode::visitor::types::Composite::as_tuple(__value), __type_id)
                 },
                 quote! {
-                    if #path_to_scale_decode::visitor::types::Tuple::remaining(value) != #field_count {
-                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(value), expected_len: #field_count }));
+                    if #path_to_scale_decode::visitor::types::Tuple::remaining(__value) != #field_count {
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(__value), expected_len: #field_count }));
                     }
 
-                    let vals = value;
+                    let __vals = __value;
 
                     ::core::result::Result::Ok(#path_to_type ( #( #field_vals ),* ))
                 },
@@ -277,11 +280,11 @@ fn generate_struct_impl(
         }
         syn::Fields::Unit => (
             quote! {
-                #path_to_scale_decode::Visitor::visit_tuple(self, &mut #path_to_scale_decode::visitor::types::Composite::as_tuple(value), type_id)
+                #path_to_scale_decode::Visitor::visit_tuple(self, &mut #path_to_scale_decode::visitor::types::Composite::as_tuple(__value), __type_id)
             },
             quote! {
-                if #path_to_scale_decode::visitor::types::Tuple::remaining(value) > 0 {
-                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(value), expected_len: 0 }));
+                if #path_to_scale_decode::visitor::types::Tuple::remaining(__value) > 0 {
+                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: #path_to_scale_decode::visitor::types::Tuple::remaining(__value), expected_len: 0 }));
                 }
                 ::core::result::Result::Ok(#path_to_type)
             },
@@ -309,15 +312,15 @@ fn generate_struct_impl(
 
                 fn visit_composite<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
-                    type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
+                    __value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
+                    __type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
                 ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     #visit_composite_body
                 }
                 fn visit_tuple<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
-                    type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
+                    __value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
+                    __type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
                 ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     #visit_tuple_body
                 }
@@ -325,28 +328,28 @@ fn generate_struct_impl(
 
             impl #impl_generics #path_to_scale_decode::DecodeAsFields for #path_to_type #ty_generics #visitor_where_clause  {
                 fn decode_as_fields<'scale_decode_info, #type_resolver_ident: #path_to_scale_decode::TypeResolver>(
-                    input: &mut &[::core::primitive::u8],
-                    fields: &mut dyn #path_to_scale_decode::FieldIter<'scale_decode_info, #type_resolver_ident::TypeId>,
-                    types: &'scale_decode_info #type_resolver_ident
+                    __input: &mut &[::core::primitive::u8],
+                    __fields: &mut dyn #path_to_scale_decode::FieldIter<'scale_decode_info, #type_resolver_ident::TypeId>,
+                    __types: &'scale_decode_info #type_resolver_ident
                 ) -> ::core::result::Result<Self, #path_to_scale_decode::Error>
                 {
-                    let mut composite = #path_to_scale_decode::visitor::types::Composite::new(::core::iter::empty(), input, fields, types, false);
-                    let val = #path_to_scale_decode::Visitor::visit_composite(
+                    let mut __composite = #path_to_scale_decode::visitor::types::Composite::new(::core::iter::empty(), __input, __fields, __types, false);
+                    let __val = #path_to_scale_decode::Visitor::visit_composite(
                         <Self as #path_to_scale_decode::IntoVisitor>::into_visitor::<#type_resolver_ident>(),
-                        &mut composite,
+                        &mut __composite,
                         ::core::default::Default::default()
                     );
 
                     // Consume any remaining bytes and update input:
-                    let skip_res = #path_to_scale_decode::visitor::types::Composite::skip_decoding(&mut composite);
-                    if ::core::result::Result::is_ok(&skip_res) {
-                        *input = #path_to_scale_decode::visitor::types::Composite::bytes_from_undecoded(&composite);
+                    let __skip_res = #path_to_scale_decode::visitor::types::Composite::skip_decoding(&mut __composite);
+                    if ::core::result::Result::is_ok(&__skip_res) {
+                        *__input = #path_to_scale_decode::visitor::types::Composite::bytes_from_undecoded(&__composite);
                     }
 
                     // Prioritize returning the decode error over any error skipping.
-                    let val = val?;
-                    skip_res?;
-                    ::core::result::Result::Ok(val)
+                    let __val = __val?;
+                    __skip_res?;
+                    ::core::result::Result::Ok(__val)
                 }
             }
         };
@@ -380,14 +383,14 @@ fn named_field_keyvals<'f>(
             true,
             // For turning named fields in scale typeinfo into named fields on struct like type:
             quote!(#field_ident: {
-                let val = #path_to_scale_decode::BTreeMap::get(&vals, &::core::option::Option::Some(#field_name))
+                let __val = #path_to_scale_decode::BTreeMap::get(&__vals, &::core::option::Option::Some(#field_name))
                     .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;
-                #path_to_scale_decode::visitor::types::CompositeField::decode_as_type(val).map_err(|e| e.at_field(#field_name))?
+                #path_to_scale_decode::visitor::types::CompositeField::decode_as_type(__val).map_err(|__e| __e.at_field(#field_name))?
             }),
             // For turning named fields in scale typeinfo into unnamed fields on tuple like type:
             quote!(#field_ident: {
-                let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
-                #tuple_item::decode_as_type(&val).map_err(|e| e.at_field(#field_name))?
+                let __val = ::core::iter::Iterator::next(__vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
+                #tuple_item::decode_as_type(&__val).map_err(|__e| __e.at_field(#field_name))?
             })
         )
     });
@@ -420,8 +423,8 @@ fn unnamed_field_vals<'f>(
             true,
             // For turning unnamed fields in scale typeinfo into unnamed fields on tuple like type:
             quote!({
-                let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
-                #tuple_item::decode_as_type(&val).map_err(|e| e.at_idx(#idx))?
+                let __val = ::core::iter::Iterator::next(__vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
+                #tuple_item::decode_as_type(&__val).map_err(|__e| __e.at_idx(#idx))?
             }),
         )
     });
-- 
2.43.0

