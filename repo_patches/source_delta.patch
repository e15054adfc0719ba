From e74fb63315a46293b87189f72628f99d3fd4ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 01/11] fix: decode u256 and i256 values which are followed by
 more bytes

---
 scale-decode/src/visitor/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 52af01a..2f59c9b 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -215,9 +215,9 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
             data: &mut &'scale [u8],
         ) -> Result<&'scale [u8; 32], DecodeError> {
             // Pull an array from the data if we can, preserving the lifetime.
-            let arr: &'scale [u8; 32] = match (*data).try_into() {
-                Ok(arr) => arr,
-                Err(_) => return Err(DecodeError::NotEnoughInput),
+            let arr: &'scale [u8; 32] = match data.get(..32).and_then(|b| b.try_into().ok()) {
+                Some(arr) => arr,
+                None => return Err(DecodeError::NotEnoughInput),
             };
             // If we successfully read the bytes, then advance the pointer past them.
             *data = &data[32..];
-- 
2.43.0


From b141ad79289c96073fc2b531df47fea2084c8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 02/11] fix: TupleField::decode_with_visitor must respect
 compact encoded fields

---
 scale-decode/src/visitor/types/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 3faaaec..cca200e 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -143,11 +143,12 @@ impl<'scale, 'resolver, R: TypeResolver> TupleField<'scale, 'resolver, R> {
         &self,
         visitor: V,
     ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
-        crate::visitor::decode_with_visitor(
+        crate::visitor::decode_with_visitor_maybe_compact(
             &mut &*self.bytes,
             self.type_id.clone(),
             self.types,
             visitor,
+            self.is_compact,
         )
     }
     /// Decode this field into a specific type via [`DecodeAsType`].
-- 
2.43.0


From ead6ede02e63ef935ab31f26b58edfd1b49948c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 03/11] fix: Tuple::remaining must count only the items not yet
 decoded

---
 scale-decode/src/visitor/types/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index cca200e..25abb0d 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -58,7 +58,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
-        self.fields.len()
+        self.fields.len() - self.next_field_idx
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
-- 
2.43.0


From a456c3a6d394eb56bd0ffb3aba81c9b8346fb71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 04/11] fix: Composite::as_tuple must hand over only the
 remaining fields

---
 scale-decode/src/visitor/types/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index e195c87..a1727c3 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -86,7 +86,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields.iter().cloned(),
+            &mut self.fields[self.next_field_idx..].iter().cloned(),
             self.types,
             self.is_compact,
         )
-- 
2.43.0


From b64e92be5791cc8c8290afb0be536fe4d6552b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 05/11] fix: do not hide the error a visitor returns for a
 malformed bit sequence

---
 scale-decode/src/visitor/decode.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 2f59c9b..ca5dad7 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -352,8 +352,16 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         let res = self.visitor.visit_bitsequence(&mut bitseq, self.type_id);
 
         // Move to the bytes after the bit sequence.
-        *self.data = bitseq.bytes_after()?;
+        let bytes_after = bitseq.bytes_after();
+        if let Ok(bytes_after) = bytes_after {
+            *self.data = bytes_after;
+        }
 
-        res
+        // Prioritize returning visitor errors over errors finding the end of the bit sequence.
+        match (res, bytes_after) {
+            (Err(e), _) => Err(e),
+            (_, Err(e)) => Err(e.into()),
+            (Ok(v), _) => Ok(v),
+        }
     }
 }
-- 
2.43.0


From 87ec1d63d2ccd277650c7ffc9b1bbec742c6a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 06/11] fix: do not hide the first error when decoding a list
 of fields

---
 scale-decode-derive/src/lib.rs | 12 +++++++++---
 scale-decode/src/impls/mod.rs  | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 4d44700..70bc52c 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -326,10 +326,16 @@ fn generate_struct_impl(
                     let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
 
                     // Consume any remaining bytes and update input:
-                    composite.skip_decoding()?;
-                    *input = composite.bytes_from_undecoded();
+                    let skip_res = composite.skip_decoding();
+                    if skip_res.is_ok() {
+                        *input = composite.bytes_from_undecoded();
+                    }
 
-                    val.map_err(From::from)
+                    // Prioritize returning visitor errors over skip_decoding errors.
+                    match (val, skip_res) {
+                        (Ok(_), Err(e)) => Err(e.into()),
+                        (val, _) => val.map_err(From::from),
+                    }
                 }
             }
         };
diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 16ec900..4ca7f5f 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -645,10 +645,16 @@ macro_rules! impl_decode_tuple {
                 let val = <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default());
 
                 // Skip over bytes that we decoded:
-                composite.skip_decoding()?;
-                *input = composite.bytes_from_undecoded();
+                let skip_res = composite.skip_decoding();
+                if skip_res.is_ok() {
+                    *input = composite.bytes_from_undecoded();
+                }
 
-                val
+                // Prioritize returning visitor errors over skip_decoding errors.
+                match (val, skip_res) {
+                    (Ok(_), Err(e)) => Err(e.into()),
+                    (val, _) => val,
+                }
             }
         }
     }
-- 
2.43.0


From 78853e8c86238d87d846b2716460d0d2d89c82b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 07/11] fix: skip over all of a composite or tuple when
 decoding one of its fields failed

---
 scale-decode/src/visitor/types/composite.rs | 19 ++++++++++++++++++-
 scale-decode/src/visitor/types/tuple.rs     | 18 +++++++++++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index a1727c3..683e7e3 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -26,6 +26,9 @@ pub struct Composite<'scale, 'resolver, R: TypeResolver> {
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     path: smallvec::SmallVec<[&'resolver str; 5]>,
     next_field_idx: usize,
+    // If decoding some field failed, this is where we got to. No more fields will be handed back,
+    // but we can still try to skip over the bytes from here.
+    failed_field_idx: Option<usize>,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -42,7 +45,16 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     ) -> Composite<'scale, 'resolver, R> {
         let path = smallvec::SmallVec::from_iter(path);
         let fields = smallvec::SmallVec::from_iter(fields);
-        Composite { path, bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Composite {
+            path,
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed_field_idx: None,
+            is_compact,
+        }
     }
     /// Return the name of the composite type, if one was given.
     pub fn name(&self) -> Option<&'resolver str> {
@@ -55,6 +67,10 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     /// Skip over all bytes associated with this composite type. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this composite type.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        // If some field could not be decoded, we have not moved past its bytes yet.
+        if let Some(idx) = self.failed_field_idx.take() {
+            self.next_field_idx = idx;
+        }
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -121,6 +137,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
             self.next_field_idx += 1;
         } else {
             // Otherwise, skip to end to prevent any future iterations:
+            self.failed_field_idx = Some(self.next_field_idx);
             self.next_field_idx = self.fields.len()
         }
 
diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 25abb0d..8c39337 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -25,6 +25,9 @@ pub struct Tuple<'scale, 'resolver, R: TypeResolver> {
     item_bytes: &'scale [u8],
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     next_field_idx: usize,
+    // If decoding some field failed, this is where we got to. No more fields will be handed back,
+    // but we can still try to skip over the bytes from here.
+    failed_field_idx: Option<usize>,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -37,11 +40,23 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
         is_compact: bool,
     ) -> Tuple<'scale, 'resolver, R> {
         let fields = smallvec::SmallVec::from_iter(fields);
-        Tuple { bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Tuple {
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed_field_idx: None,
+            is_compact,
+        }
     }
     /// Skip over all bytes associated with this tuple. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this tuple.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        // If some field could not be decoded, we have not moved past its bytes yet.
+        if let Some(idx) = self.failed_field_idx.take() {
+            self.next_field_idx = idx;
+        }
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -82,6 +97,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
             self.next_field_idx += 1;
         } else {
             // Otherwise, skip to end to prevent any future iterations:
+            self.failed_field_idx = Some(self.next_field_idx);
             self.next_field_idx = self.fields.len()
         }
 
-- 
2.43.0


From 4370150548f934fa266e94c1b6016ce531c096da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 08/11] fix: do not loop over a claimed number of zero sized
 items to skip them

---
 scale-decode/src/visitor/types/array.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scale-decode/src/visitor/types/array.rs b/scale-decode/src/visitor/types/array.rs
index 52ccbdf..e0224d2 100644
--- a/scale-decode/src/visitor/types/array.rs
+++ b/scale-decode/src/visitor/types/array.rs
@@ -41,7 +41,14 @@ impl<'scale, 'resolver, R: TypeResolver> Array<'scale, 'resolver, R> {
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this array.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
         while self.remaining > 0 {
+            let num_bytes_before = self.item_bytes.len();
             self.decode_item(IgnoreVisitor::<R>::new()).transpose()?;
+
+            // If the items take up no space, then there is nothing (more) to skip over. The number
+            // of items can be as large as the input claims it is, so don't visit each one.
+            if self.item_bytes.len() == num_bytes_before {
+                self.remaining = 0;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 2e642a2acdf4030b538a6fcc6b68257d915e9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 09/11] fix: return an error instead of panicking when a
 Duration overflows

---
 scale-decode/src/impls/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 4ca7f5f..a80b99b 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -211,7 +211,7 @@ macro_rules! impl_into_visitor_like {
                 // Use the source visitor to decode into some type:
                 let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
                 // map this type into our desired output and return it:
-                let res = inner_res.map($mapper);
+                let res = inner_res.and_then($mapper);
                 DecodeAsTypeResult::Decoded(res)
             }
         }
@@ -219,13 +219,17 @@ macro_rules! impl_into_visitor_like {
     }
 }
 
-impl_into_visitor_like!(Compact<T> as T: |res| Compact(res));
-impl_into_visitor_like!(Arc<T> as T: |res| Arc::new(res));
-impl_into_visitor_like!(Rc<T> as T: |res| Rc::new(res));
-impl_into_visitor_like!(Box<T> as T: |res| Box::new(res));
-impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| Duration::from_secs(res.0) + Duration::from_nanos(res.1 as u64));
-impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);
-impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| res.0..=res.1);
+impl_into_visitor_like!(Compact<T> as T: |res| Ok(Compact(res)));
+impl_into_visitor_like!(Arc<T> as T: |res| Ok(Arc::new(res)));
+impl_into_visitor_like!(Rc<T> as T: |res| Ok(Rc::new(res)));
+impl_into_visitor_like!(Box<T> as T: |res| Ok(Box::new(res)));
+impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| {
+    Duration::from_secs(res.0)
+        .checked_add(Duration::from_nanos(res.1 as u64))
+        .ok_or_else(|| Error::custom_str("Duration is out of range"))
+});
+impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| Ok(res.0..res.1));
+impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| Ok(res.0..=res.1));
 
 // A custom implementation for `Cow` because it's rather tricky; the visitor we want is whatever the
 // `ToOwned` value for the Cow is, and Cow's have specific constraints, too.
-- 
2.43.0


From 9e6972808194682f7af0e973c2ffb9603863bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 10/11] fix: a skip attribute must not be lost when a field has
 other attributes

---
 scale-decode-derive/src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 70bc52c..d445a5c 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -348,7 +348,7 @@ fn named_field_keyvals<'f>(
     fields: &'f syn::FieldsNamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f, impl Iterator<Item = TokenStream2> + 'f) {
     let field_keyval_impls = fields.named.iter().map(move |f| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
+        let field_attrs = FieldAttrs::parse(&f.attrs);
         let field_ident = f.ident.as_ref().expect("named field has ident");
         let field_name = field_ident.to_string();
         let skip_field = field_attrs.skip;
@@ -395,7 +395,7 @@ fn unnamed_field_vals<'f>(
     fields: &'f syn::FieldsUnnamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f) {
     let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
+        let field_attrs = FieldAttrs::parse(&f.attrs);
         let skip_field = field_attrs.skip;
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
@@ -567,8 +567,20 @@ impl TopLevelAttrs {
 
 /// Parse the attributes attached to some field
 #[derive(Debug, FromAttributes, Default)]
-#[darling(attributes(decode_as_type, codec))]
+#[darling(attributes(decode_as_type, codec), allow_unknown_fields)]
 struct FieldAttrs {
     #[darling(default)]
     skip: bool,
 }
+
+impl FieldAttrs {
+    // Look at each attribute on its own; other attributes (for instance those that are meant for
+    // `codec`'s derive macros) must not prevent us from seeing a `skip`.
+    fn parse(attrs: &[syn::Attribute]) -> Self {
+        let skip = attrs
+            .iter()
+            .filter_map(|attr| FieldAttrs::from_attributes(core::slice::from_ref(attr)).ok())
+            .any(|attrs| attrs.skip);
+        FieldAttrs { skip }
+    }
+}
-- 
2.43.0


From 1153ba38c0f015f42780c4788dd5b741ed127293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:42 +0000
Subject: [PATCH 11/11] fix: keep the compact flag when decoding via Box, Arc,
 Rc, Cow, 1-tuples and other wrappers

---
 scale-decode/src/impls/mod.rs             | 58 +++++++++++++++++++++--
 scale-decode/src/impls/primitive_types.rs | 15 +++++-
 scale-decode/src/visitor/decode.rs        |  7 ++-
 scale-decode/src/visitor/mod.rs           | 26 +++++++++-
 4 files changed, 97 insertions(+), 9 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index a80b99b..d3a1aed 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -19,7 +19,8 @@ mod primitive_types;
 use crate::{
     error::{Error, ErrorKind},
     visitor::{
-        self, decode_with_visitor, types::*, DecodeAsTypeResult, DecodeItemIterator, Visitor,
+        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeItemIterator,
+        Visitor,
     },
     DecodeAsFields, FieldIter, IntoVisitor,
 };
@@ -207,9 +208,25 @@ macro_rules! impl_into_visitor_like {
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
             ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
                 // Use the source visitor to decode into some type:
-                let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
+                let inner_res = decode_with_visitor_maybe_compact(
+                    input,
+                    type_id,
+                    types,
+                    <$source>::into_visitor(),
+                    is_compact,
+                );
                 // map this type into our desired output and return it:
                 let res = inner_res.and_then($mapper);
                 DecodeAsTypeResult::Decoded(res)
@@ -248,10 +265,25 @@ where
         input: &mut &'scale [u8],
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
         // Use the ToOwned visitor to decode into some type:
-        let inner_res =
-            decode_with_visitor(input, type_id, types, <<T as ToOwned>::Owned>::into_visitor());
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <<T as ToOwned>::Owned>::into_visitor(),
+            is_compact,
+        );
         // map this type into our owned Cow to return:
         let res = inner_res.map(Cow::Owned);
         DecodeAsTypeResult::Decoded(res)
@@ -558,6 +590,16 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             input: &mut &'scale [u8],
             type_id: <Self::TypeResolver as TypeResolver>::TypeId,
             types: &'resolver Self::TypeResolver,
+        ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+            self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+        }
+
+        fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+            self,
+            input: &mut &'scale [u8],
+            type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+            types: &'resolver Self::TypeResolver,
+            is_compact: bool,
         ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
             use scale_type_resolver::{ResolvedTypeVisitor, UnhandledKind};
 
@@ -587,7 +629,13 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             }
 
             // Else, try to decode as the inner type.
-            let inner_res = decode_with_visitor(input, type_id, types, <$t>::into_visitor());
+            let inner_res = decode_with_visitor_maybe_compact(
+                input,
+                type_id,
+                types,
+                <$t>::into_visitor(),
+                is_compact,
+            );
             let res = inner_res.map(|val| (val,)).map_err(|e| e.into());
             DecodeAsTypeResult::Decoded(res)
         }
diff --git a/scale-decode/src/impls/primitive_types.rs b/scale-decode/src/impls/primitive_types.rs
index ff788f1..f934efe 100644
--- a/scale-decode/src/impls/primitive_types.rs
+++ b/scale-decode/src/impls/primitive_types.rs
@@ -16,7 +16,7 @@
 use super::BasicVisitor;
 use crate::{
     error::Error,
-    visitor::{decode_with_visitor, DecodeAsTypeResult, Visitor},
+    visitor::{decode_with_visitor_maybe_compact, DecodeAsTypeResult, Visitor},
     IntoVisitor,
 };
 use primitive_types::{H128, H160, H256, H384, H512, H768};
@@ -38,11 +38,22 @@ macro_rules! impl_visitor {
                 Self,
                 Result<Self::Value<'scale, 'resolver>, Self::Error>,
             > {
-                let res = decode_with_visitor(
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                let res = decode_with_visitor_maybe_compact(
                     input,
                     type_id,
                     types,
                     BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },
+                    is_compact,
                 )
                 .map(|res| <$ty>::from(res));
                 DecodeAsTypeResult::Decoded(res)
diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index ca5dad7..2b79a9d 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -46,7 +46,12 @@ pub fn decode_with_visitor_maybe_compact<'scale, 'resolver, V: Visitor>(
     is_compact: bool,
 ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
     // Provide option to "bail out" and do something custom first.
-    let visitor = match visitor.unchecked_decode_as_type(data, ty_id.clone(), types) {
+    let visitor = match visitor.unchecked_decode_as_type_maybe_compact(
+        data,
+        ty_id.clone(),
+        types,
+        is_compact,
+    ) {
         DecodeAsTypeResult::Decoded(r) => return r,
         DecodeAsTypeResult::Skipped(v) => v,
     };
diff --git a/scale-decode/src/visitor/mod.rs b/scale-decode/src/visitor/mod.rs
index f1bfc19..3d74536 100644
--- a/scale-decode/src/visitor/mod.rs
+++ b/scale-decode/src/visitor/mod.rs
@@ -60,6 +60,19 @@ pub trait Visitor: Sized {
         DecodeAsTypeResult::Skipped(self)
     }
 
+    /// The same as [`Visitor::unchecked_decode_as_type()`], except that it's also told whether the value is
+    /// expected to be compact encoded. Visitors which wrap others need this to hand this information on.
+    #[doc(hidden)]
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        _is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type(input, type_id, types)
+    }
+
     /// This is called when a visitor function that you've not provided an implementation is called.
     /// You are provided an enum value corresponding to the function call, and can decide what to return
     /// in this case. The default is to return an error to announce the unexpected value.
@@ -420,7 +433,18 @@ where
         type_id: TypeIdFor<Self>,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let res = decode_with_visitor(input, type_id, types, self.0).map_err(Into::into);
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)
+            .map_err(Into::into);
         DecodeAsTypeResult::Decoded(res)
     }
 }
-- 
2.43.0

