From 575c08eaca0f6c56c70a812cc3c01f4889074531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 01/11] fix: reject trailing bytes after the None selector when
 decoding Option

---
 ssz/src/decode/impls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index 6c9b7b5..a2748aa 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -254,7 +254,12 @@ impl<T: Decode> Decode for Option<T> {
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         let (selector, body) = split_union_bytes(bytes)?;
         match selector.into() {
-            0u8 => Ok(None),
+            // The `None` variant has no body, any trailing bytes are invalid.
+            0u8 if body.is_empty() => Ok(None),
+            0u8 => Err(DecodeError::InvalidByteLength {
+                len: bytes.len(),
+                expected: BYTES_PER_UNION_SELECTOR,
+            }),
             1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
             other => Err(DecodeError::UnionSelectorInvalid(other)),
         }
-- 
2.43.0


From ea67f96ab9cc501920a768a7bb6780d5c706984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 02/11] fix: reject trailing bytes after the None selector in
 four_byte_option_impl

---
 ssz/src/legacy.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssz/src/legacy.rs b/ssz/src/legacy.rs
index 5cce666..1c80aac 100644
--- a/ssz/src/legacy.rs
+++ b/ssz/src/legacy.rs
@@ -100,6 +100,13 @@ macro_rules! four_byte_option_impl {
 
                     let index = legacy::read_four_byte_union_selector(index_bytes)?;
                     if index == 0 {
+                        // The `None` variant has no body, any trailing bytes are invalid.
+                        if !value_bytes.is_empty() {
+                            return Err(DecodeError::InvalidByteLength {
+                                len: bytes.len(),
+                                expected: BYTES_PER_LENGTH_OFFSET,
+                            });
+                        }
                         Ok(None)
                     } else if index == 1 {
                         Ok(Some(<$type as ssz::Decode>::from_ssz_bytes(value_bytes)?))
-- 
2.43.0


From 5b5ea70246e1726324f0bd6841638a96ca818438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 03/11] fix: reject inputs longer than one byte when decoding a
 derived tag enum

---
 ssz_derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c6ca75d..2d7c92f 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -1015,6 +1015,13 @@ fn ssz_decode_derive_enum_tag(derive_input: &DeriveInput, enum_data: &DataEnum)
                     .copied()
                     .ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
 
+                if bytes.len() != 1 {
+                    return Err(ssz::DecodeError::InvalidByteLength {
+                        len: bytes.len(),
+                        expected: 1,
+                    });
+                }
+
                 match byte {
                     #(
                         #union_selectors => {
-- 
2.43.0


From 4a931406498a5058e193d8b48bccfad80b935a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 04/11] fix: return ZeroLengthItem instead of panicking on
 lists of zero-length items

---
 ssz/src/decode/impls.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index a2748aa..46ed2de 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -6,6 +6,7 @@ use itertools::process_results;
 use smallvec::SmallVec;
 use std::collections::{BTreeMap, BTreeSet};
 use std::iter::{self, FromIterator};
+use std::slice::Chunks;
 use std::sync::Arc;
 
 macro_rules! impl_decodable_for_uint {
@@ -433,8 +434,7 @@ impl<T: Decode> Decode for Vec<T> {
         if bytes.is_empty() {
             Ok(vec![])
         } else if T::is_ssz_fixed_len() {
-            bytes
-                .chunks(T::ssz_fixed_len())
+            fixed_len_chunks::<T>(bytes)?
                 .map(T::from_ssz_bytes)
                 .collect()
         } else {
@@ -452,8 +452,7 @@ impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {
         if bytes.is_empty() {
             Ok(SmallVec::new())
         } else if T::is_ssz_fixed_len() {
-            bytes
-                .chunks(T::ssz_fixed_len())
+            fixed_len_chunks::<T>(bytes)?
                 .map(T::from_ssz_bytes)
                 .collect()
         } else {
@@ -475,8 +474,7 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if <(K, V)>::is_ssz_fixed_len() {
-            bytes
-                .chunks(<(K, V)>::ssz_fixed_len())
+            fixed_len_chunks::<(K, V)>(bytes)?
                 .map(<(K, V)>::from_ssz_bytes)
                 .collect()
         } else {
@@ -497,8 +495,7 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if T::is_ssz_fixed_len() {
-            bytes
-                .chunks(T::ssz_fixed_len())
+            fixed_len_chunks::<T>(bytes)?
                 .map(T::from_ssz_bytes)
                 .collect()
         } else {
@@ -507,6 +504,17 @@ where
     }
 }
 
+/// Splits `bytes` into chunks of the fixed length of `T`.
+///
+/// Returns `DecodeError::ZeroLengthItem` if `T` has a length of zero, since the number of items can
+/// not be determined in that case.
+fn fixed_len_chunks<T: Decode>(bytes: &[u8]) -> Result<Chunks<'_, u8>, DecodeError> {
+    match T::ssz_fixed_len() {
+        0 => Err(DecodeError::ZeroLengthItem),
+        len => Ok(bytes.chunks(len)),
+    }
+}
+
 /// Decodes `bytes` as if it were a list of variable-length items.
 ///
 /// The `ssz::SszDecoder` can also perform this functionality, however this function is
-- 
2.43.0


From 9b14144bc281e648bbec72b00b792da0df67ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 05/11] fix: size the Arbitrary buffer of a BitVector in bytes
 rather than bits

---
 ssz/src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index aa8fc13..24f99e7 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -692,7 +692,7 @@ impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<Fixed<N>> {
 #[cfg(feature = "arbitrary")]
 impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Fixed<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
-        let size = N::to_usize();
+        let size = bytes_for_bit_len(N::to_usize());
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From dda840afe0e6581579e10ddc9e769eda95460183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 06/11] fix: bound the Arbitrary allocation of a BitList by the
 available input

---
 ssz/src/bitfield.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index 24f99e7..2c56dc3 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -702,8 +702,10 @@ impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Fixed<N>> {
 #[cfg(feature = "arbitrary")]
 impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Variable<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
-        let max_size = N::to_usize();
         let rand = usize::arbitrary(u)?;
+        // Do not allocate for bytes which are not available, they would be filled with zeros and
+        // the last byte of a `BitList` is never zero.
+        let max_size = std::cmp::min(N::to_usize(), u.len());
         let size = std::cmp::min(rand, max_size);
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
-- 
2.43.0


From 70ae3931c03a7619deeddd99546148b560e0bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 07/11] fix: do not overflow when registering a huge fixed
 length in SszDecoderBuilder

---
 ssz/src/decode.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode.rs b/ssz/src/decode.rs
index 814aa70..03ec626 100644
--- a/ssz/src/decode.rs
+++ b/ssz/src/decode.rs
@@ -188,7 +188,13 @@ impl<'a> SszDecoderBuilder<'a> {
     ) -> Result<(), DecodeError> {
         if is_ssz_fixed_len {
             let start = self.items_index;
-            self.items_index += ssz_fixed_len;
+            self.items_index =
+                start
+                    .checked_add(ssz_fixed_len)
+                    .ok_or(DecodeError::InvalidByteLength {
+                        len: self.bytes.len(),
+                        expected: usize::MAX,
+                    })?;
 
             let slice =
                 self.bytes
-- 
2.43.0


From d454988ba00431110065774034162ea4666d5f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 08/11] fix: do not let field names shadow the local variables
 of derived decoders

---
 ssz_derive/src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 2d7c92f..ae32768 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -756,6 +756,8 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
     let name = &item.ident;
     let (impl_generics, ty_generics, where_clause) = &item.generics.split_for_impl();
 
+    // The generated code binds one local variable per field. The names of its own local variables
+    // are prefixed with `__ssz_` so that they are never shadowed by a field of the same name.
     let mut register_types = vec![];
     let mut field_names = vec![];
     let mut fixed_decodes = vec![];
@@ -796,29 +798,30 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
 
             is_ssz_fixed_len = quote! { #module::is_ssz_fixed_len() };
             ssz_fixed_len = quote! { #module::ssz_fixed_len() };
-            from_ssz_bytes = quote! { #module::from_ssz_bytes(slice) };
+            from_ssz_bytes = quote! { #module::from_ssz_bytes(__ssz_slice) };
 
             register_types.push(quote! {
-                builder.register_type_parameterized(#is_ssz_fixed_len, #ssz_fixed_len)?;
+                __ssz_builder.register_type_parameterized(#is_ssz_fixed_len, #ssz_fixed_len)?;
             });
             decodes.push(quote! {
-                let #ident = decoder.decode_next_with(|slice| #module::from_ssz_bytes(slice))?;
+                let #ident =
+                    __ssz_decoder.decode_next_with(|slice| #module::from_ssz_bytes(slice))?;
             });
         } else {
             is_ssz_fixed_len = quote! { <#ty as ssz::Decode>::is_ssz_fixed_len() };
             ssz_fixed_len = quote! { <#ty as ssz::Decode>::ssz_fixed_len() };
-            from_ssz_bytes = quote! { <#ty as ssz::Decode>::from_ssz_bytes(slice) };
+            from_ssz_bytes = quote! { <#ty as ssz::Decode>::from_ssz_bytes(__ssz_slice) };
 
             register_types.push(quote! {
-                builder.register_type::<#ty>()?;
+                __ssz_builder.register_type::<#ty>()?;
             });
             decodes.push(quote! {
-                let #ident = decoder.decode_next()?;
+                let #ident = __ssz_decoder.decode_next()?;
             });
         }
 
         fixed_decodes.push(quote! {
-            let (slice, bytes) = bytes.split_at(#ssz_fixed_len);
+            let (__ssz_slice, __ssz_bytes) = __ssz_bytes.split_at(#ssz_fixed_len);
             let #ident = #from_ssz_bytes?;
         });
         is_fixed_lens.push(is_ssz_fixed_len);
@@ -857,6 +860,8 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
                         });
                     }
 
+                    let __ssz_bytes = bytes;
+
                     #(
                         #fixed_decodes
                     )*
@@ -867,13 +872,13 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
                         )*
                     })
                 } else {
-                    let mut builder = ssz::SszDecoderBuilder::new(bytes);
+                    let mut __ssz_builder = ssz::SszDecoderBuilder::new(bytes);
 
                     #(
                         #register_types
                     )*
 
-                    let mut decoder = builder.build()?;
+                    let mut __ssz_decoder = __ssz_builder.build()?;
 
                     #(
                         #decodes
-- 
2.43.0


From 1e4010d3ee624f7bf5c5dddda01cdf49578edf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 09/11] fix: honour skip_serializing when deriving Encode for
 transparent structs

---
 ssz_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index ae32768..ba59615 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -456,7 +456,7 @@ fn ssz_encode_derive_struct_transparent(
     let ssz_fields = parse_ssz_fields(struct_data);
     let num_fields = ssz_fields
         .iter()
-        .filter(|(_, _, field_opts)| !field_opts.skip_deserializing)
+        .filter(|(_, _, field_opts)| !field_opts.skip_serializing)
         .count();
 
     if num_fields != 1 {
@@ -469,7 +469,7 @@ fn ssz_encode_derive_struct_transparent(
     let (index, (ty, ident, _field_opts)) = ssz_fields
         .iter()
         .enumerate()
-        .find(|(_, (_, _, field_opts))| !field_opts.skip_deserializing)
+        .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
         .expect("\"transparent\" struct must have at least one non-skipped field");
 
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
-- 
2.43.0


From d6166737daeab5569cf4b6e93cece7ab26f439d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 10/11] fix: honour the with attribute when deriving
 transparent structs

---
 ssz_derive/src/lib.rs | 46 +++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index ba59615..a30f3b5 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -466,7 +466,7 @@ fn ssz_encode_derive_struct_transparent(
         );
     }
 
-    let (index, (ty, ident, _field_opts)) = ssz_fields
+    let (index, (ty, ident, field_opts)) = ssz_fields
         .iter()
         .enumerate()
         .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
@@ -475,23 +475,29 @@ fn ssz_encode_derive_struct_transparent(
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
     let index = Index::from(index);
 
+    let module = if let Some(module) = &field_opts.with {
+        quote! { #module::encode }
+    } else {
+        quote! { <#ty as ssz::Encode> }
+    };
+
     let output = if let Some(field_name) = ident {
         quote! {
             impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
                 fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
+                    #module::is_ssz_fixed_len()
                 }
 
                 fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
+                    #module::ssz_fixed_len()
                 }
 
                 fn ssz_bytes_len(&self) -> usize {
-                    self.#field_name.ssz_bytes_len()
+                    #module::ssz_bytes_len(&self.#field_name)
                 }
 
                 fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#field_name.ssz_append(buf)
+                    #module::ssz_append(&self.#field_name, buf)
                 }
             }
         }
@@ -499,19 +505,19 @@ fn ssz_encode_derive_struct_transparent(
         quote! {
             impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
                 fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
+                    #module::is_ssz_fixed_len()
                 }
 
                 fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
+                    #module::ssz_fixed_len()
                 }
 
                 fn ssz_bytes_len(&self) -> usize {
-                    self.#index.ssz_bytes_len()
+                    #module::ssz_bytes_len(&self.#index)
                 }
 
                 fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#index.ssz_append(buf)
+                    #module::ssz_append(&self.#index, buf)
                 }
             }
         }
@@ -927,9 +933,15 @@ fn ssz_decode_derive_struct_transparent(
     }
 
     let mut fields = vec![];
-    let mut wrapped_type = None;
+    let mut wrapped_module = None;
 
     for (i, (ty, ident, field_opts)) in ssz_fields.into_iter().enumerate() {
+        let module = if let Some(module) = &field_opts.with {
+            quote! { #module::decode }
+        } else {
+            quote! { <#ty as ssz::Decode> }
+        };
+
         if let Some(name) = ident {
             if field_opts.skip_deserializing {
                 fields.push(quote! {
@@ -937,9 +949,9 @@ fn ssz_decode_derive_struct_transparent(
                 });
             } else {
                 fields.push(quote! {
-                    #name: <_>::from_ssz_bytes(bytes)?,
+                    #name: #module::from_ssz_bytes(bytes)?,
                 });
-                wrapped_type = Some(ty);
+                wrapped_module = Some(module);
             }
         } else {
             let index = syn::Index::from(i);
@@ -949,23 +961,23 @@ fn ssz_decode_derive_struct_transparent(
                 });
             } else {
                 fields.push(quote! {
-                    #index:<_>::from_ssz_bytes(bytes)?,
+                    #index:#module::from_ssz_bytes(bytes)?,
                 });
-                wrapped_type = Some(ty);
+                wrapped_module = Some(module);
             }
         }
     }
 
-    let ty = wrapped_type.unwrap();
+    let module = wrapped_module.unwrap();
 
     let output = quote! {
         impl #impl_generics ssz::Decode for #name #ty_generics #where_clause {
             fn is_ssz_fixed_len() -> bool {
-                <#ty as ssz::Decode>::is_ssz_fixed_len()
+                #module::is_ssz_fixed_len()
             }
 
             fn ssz_fixed_len() -> usize {
-                <#ty as ssz::Decode>::ssz_fixed_len()
+                #module::ssz_fixed_len()
             }
 
             fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
-- 
2.43.0


From 5e59f98f50538f37ef12ca51d0b503631c57cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 11/11] fix: do not overflow in BitVectorDynamic::new for
 lengths close to usize::MAX

---
 ssz/src/bitfield/bitvector_dynamic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield/bitvector_dynamic.rs b/ssz/src/bitfield/bitvector_dynamic.rs
index 530d9f4..bb5400d 100644
--- a/ssz/src/bitfield/bitvector_dynamic.rs
+++ b/ssz/src/bitfield/bitvector_dynamic.rs
@@ -32,7 +32,7 @@ impl Bitfield<Dynamic> {
         if len % 8 != 0 {
             return Err(Error::InvalidByteCount {
                 given: len,
-                expected: (len / 8 + 1) * 8,
+                expected: (len / 8).saturating_add(1).saturating_mul(8),
             });
         }
         Ok(Self {
-- 
2.43.0

