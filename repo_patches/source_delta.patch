From 99a21050de1f9b1eda6716bdc416c629c993f206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 01/10] fix: keep every bit of unaligned fields that are 32
 bytes or longer

The mask width of the i-th byte of an unaligned field was truncated to u8
before it was looked up, so it wrapped to 0 at byte 31 and that byte was lost
both when packing and when unpacking.
---
 packed_struct_codegen/src/pack_codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 2762e67..06c45a9 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -193,7 +193,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
         let mut unpack = vec![];
 
         for i in 0..packed_field_len {
-            let src_mask = ones_u8(l as u8);                        
+            let src_mask = ones_u8(::std::cmp::min(l, 8) as u8);
             let bit_shift = emit_shift(shift);
             pack.push(quote! {
                 let _a = #i;
-- 
2.43.0


From 8d02a589aed7937ea641082aaf8c81247ce2f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 02/10] fix: don't let the unpacked values of different fields
 share a local variable

The i-th element of an array field 'a' was unpacked into the local variable
'a_i', which a field named 'a_i' then overwrote, and a field named 'src'
shadowed the source byte array.
---
 packed_struct_codegen/src/pack_codegen.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 06c45a9..024636a 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -4,6 +4,7 @@ extern crate syn;
 use crate::pack::*;
 use crate::pack_codegen_docs::*;
 use crate::common::*;
+use proc_macro2::Span;
 use syn::spanned::Spanned;
 use crate::utils::*;
 
@@ -51,20 +52,24 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
         };
 
 
-        for field in &parsed.fields {
+        // The local variables are numbered, so that they can't collide with the names
+        // of the other fields or with the function's argument.
+        for (field_num, field) in parsed.fields.iter().enumerate() {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    reg(ident, ident, field)?;
+                    let target = syn::Ident::new(&format!("unpacked_{}", field_num), Span::call_site());
+
+                    reg(ident, &target, field)?;
 
                     unpack_struct_set.push(quote! {
-                        #ident
+                        #ident: #target
                     });
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
                     let mut array_unpacked_elements = vec![];
                     for (i, field) in elements.iter().enumerate() {
                         let src: syn::ExprIndex = syn::parse_str(&format!("{}[{}]", tokens_to_string(ident), i))?;
-                        let target: syn::Ident = syn::parse_str(&format!("{}_{}", tokens_to_string(ident), i))?;
+                        let target = syn::Ident::new(&format!("unpacked_{}_{}", field_num, i), Span::call_site());
 
                         reg(&src, &target, field)?;
                         array_unpacked_elements.push(target);
-- 
2.43.0


From c22abcd07f19ade6b7e4281205f1250d7840e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 03/10] fix: reject array fields whose bits can't be divided
 between their elements

The check compared the total width with the rounded-down element width, so
for example 10 bits for 4 elements were accepted and 2 of them never used.
---
 packed_struct_codegen/src/pack_parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index ff27bfe..7bb9986 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -212,7 +212,7 @@ fn parse_field(field: &syn::Field, mp: &FieldMidPositioning, bit_range: &Range<u
             let size = get_expr_int_val(&type_array.len)?;
 
             let element_size_bits = mp.bit_width / size;
-            if (mp.bit_width % element_size_bits) != 0 {
+            if element_size_bits == 0 || (mp.bit_width % size) != 0 {
                 return Err(syn::Error::new(type_array.span(), "Element and array size mismatch!"));
             }
 
-- 
2.43.0


From e28ffb7a7d475c3921db722c29383ddf69a2c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 04/10] fix: infer a primitive type that holds all of the
 enum's discriminants

The magnitude of negative discriminants was compared with the wrong sign, and
the range of the non-negative ones was ignored as soon as one of the others
was negative, so to_primitive() silently truncated for example -3000000000, or
200 next to -1.
---
 packed_struct_codegen/src/primitive_enum.rs | 27 ++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 830f71f..03a0bef 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -50,22 +50,22 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
     let all_variants_len = all_variants.len();
 
     if prim_type.is_none() {
+        // a single negative discriminant requires a signed type for all of them
+        let any_negative = v.iter().any(|d| d.negative);
+
         let min_ty: Vec<String> = v.iter().map(|d| {
             if !d.suffix.is_empty() {
                 d.suffix.clone()
-            } else if d.negative {
-                let n = d.discriminant as i64;
-                if n < <i32>::min_value() as i64 {
+            } else if any_negative {
+                let n = d.value();
+                if n < <i32>::min_value() as i128 || n > <i32>::max_value() as i128 {
                     "i64".into()
+                } else if n < <i16>::min_value() as i128 || n > <i16>::max_value() as i128 {
+                    "i32".into()
+                } else if n < <i8>::min_value() as i128 || n > <i8>::max_value() as i128 {
+                    "i16".into()
                 } else {
-                    let n = -n;
-                    if n < <i16>::min_value() as i64 {
-                        "i32".into()
-                    } else if n < <i8>::min_value() as i64 {
-                        "i16".into()
-                    } else {
-                        "i8".into()
-                    }
+                    "i8".into()
                 }
             } else {
                 let n = d.discriminant;
@@ -199,6 +199,11 @@ struct Variant {
 }
 
 impl Variant {
+    fn value(&self) -> i128 {
+        let d = self.discriminant as i128;
+        if self.negative { -d } else { d }
+    }
+
     fn get_discriminant(&self) -> proc_macro2::TokenStream {
         let s = format!("{}{}",
             self.discriminant,
-- 
2.43.0


From 6230deb7b287a78bf0b697ba64a6c0465937e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 05/10] fix: reject enum discriminants that don't fit into the
 primitive type

PrimitiveEnum_u8 with a discriminant of 256 was accepted and silently
converted to 0.
---
 packed_struct_codegen/src/primitive_enum.rs | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 03a0bef..c397e78 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -6,6 +6,7 @@ use quote::TokenStreamExt;
 use syn::spanned::Spanned;
 use crate::utils::*;
 use crate::common::collections_prefix;
+use crate::utils_syn::tokens_to_string;
 
 pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::Result<proc_macro2::TokenStream> {
 
@@ -105,6 +106,12 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let prim_type = prim_type.expect("Unable to detect the primitive type for this enum.");
 
+    for d in &v {
+        if !d.fits_in(&tokens_to_string(&prim_type)) {
+            return Err(syn::Error::new(d.variant.span(), "This discriminant doesn't fit into the primitive type of the enum."));
+        }
+    }
+
     let all_variants_const_ident = syn::Ident::new(&format!("{}_ALL", to_snake_case(&name.to_string())).to_uppercase(), Span::call_site());
     
 
@@ -204,6 +211,21 @@ impl Variant {
         if self.negative { -d } else { d }
     }
 
+    fn fits_in(&self, int_ty: &str) -> bool {
+        let n = self.value();
+        match int_ty {
+            "u8" => n == n as u8 as i128,
+            "u16" => n == n as u16 as i128,
+            "u32" => n == n as u32 as i128,
+            "u64" => n == n as u64 as i128,
+            "i8" => n == n as i8 as i128,
+            "i16" => n == n as i16 as i128,
+            "i32" => n == n as i32 as i128,
+            "i64" => n == n as i64 as i128,
+            _ => true
+        }
+    }
+
     fn get_discriminant(&self) -> proc_macro2::TokenStream {
         let s = format!("{}{}",
             self.discriminant,
-- 
2.43.0


From 7c55c17458746c1e62885518cdca360e249bfbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 06/10] fix: let the alloc feature compile without std

The debugging formatters use Formatter, which only the std prelude imported,
and nightly, which this feature requires, denies core::intrinsics::write_bytes.
---
 packed_struct/src/internal_prelude/no_std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packed_struct/src/internal_prelude/no_std.rs b/packed_struct/src/internal_prelude/no_std.rs
index 1977e06..c6880b5 100644
--- a/packed_struct/src/internal_prelude/no_std.rs
+++ b/packed_struct/src/internal_prelude/no_std.rs
@@ -3,14 +3,14 @@ pub use core::marker::PhantomData;
 pub use core::iter;
 pub use core::cell::RefCell;
 pub use core::fmt;
-pub use core::fmt::{Debug, Display};
+pub use core::fmt::{Debug, Display, Formatter};
 pub use core::fmt::Write as FmtWrite;
 pub use core::fmt::Error as FmtError;
 pub use core::ops::Range;
 pub use core::num::Wrapping;
 pub use core::cmp::*;
 pub use core::mem;
-pub use core::intrinsics::write_bytes;
+pub use core::ptr::write_bytes;
 pub use core::ops::Deref;
 pub use core::slice;
 pub use core::hash::{Hash, Hasher};
-- 
2.43.0


From b36df6db3f61bc72ceab9307e1e06cd4b174a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 07/10] fix: order inclusive byte ranges before they are scaled
 to bits

bits="15:0" and bits="0:15" are the same range, but bytes="1:0" was scaled as
if it were ascending and silently covered only the bits 7 and 8.
---
 packed_struct_codegen/src/pack_parse_attributes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index f44bc82..82cd31b 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -205,6 +205,7 @@ pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionPars
             let start = parse_num(s[0])?;
             let end = parse_num(s[1])?;
             if multiplier > 1 {
+                let (start, end) = (::std::cmp::min(start, end), ::std::cmp::max(start, end));
                 return Ok(BitsPositionParsed::range_in_order(start * multiplier, ((end+1) * multiplier)-1));
             } else {
                 return Ok(BitsPositionParsed::range_in_order(start, end));
-- 
2.43.0


From 92e687356716f867c63cb8fd3799152d94d77929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 08/10] fix: compute byte positions with integers

With single precision floats the fields beyond the first 2 MB of a structure
were placed in the wrong byte and lost bits.
---
 packed_struct_codegen/src/pack_codegen.rs | 4 ++--
 packed_struct_codegen/src/pack_parse.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 024636a..5dec60a 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -176,8 +176,8 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
             }
         }
     } else {
-        let packed_field_len = (field.bit_width as f32 / 8.0).ceil() as usize; 
-        let start_byte = (field.bit_range_rust.start as f32 / 8.0).floor() as usize;
+        let packed_field_len = (field.bit_width + 7) / 8;
+        let start_byte = field.bit_range_rust.start / 8;
         let shift = ((packed_field_len as isize*8) - (field.bit_width as isize)) - (field.bit_range_rust.start as isize - (start_byte as isize * 8));
 
         let emit_shift = |s: isize| {
diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 7bb9986..d64880a 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -437,7 +437,7 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
         }
     };
 
-    let num_bytes = (num_bits as f32 / 8.0).ceil() as usize;
+    let num_bytes = (num_bits + 7) / 8;
 
     if first_field_is_auto_positioned && (num_bits % 8) != 0 && struct_size_bytes.is_none() {
         return Err(syn::Error::new(fields[0].span(), "Please explicitly position the bits of the first field of this structure, as the alignment isn't obvious to the end user."));
-- 
2.43.0


From 747bb02e673c71cc6fb670d33c6d5da67455493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 09/10] fix: reject fields outside of the structure also when
 the derive is built without overflow checks

---
 packed_struct_codegen/src/pack_parse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index d64880a..c0affa0 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -404,6 +404,9 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
                 },
                 (Some(BitNumbering::Lsb0), BitsPositionParsed::Range(start, end)) => {
                     if let Some(struct_size_bytes) = struct_size_bytes {
+                        if start.max(end) / 8 >= struct_size_bytes {
+                            return Err(syn::Error::new(field.span(), "The position of this field is outside of the structure."));
+                        }
                         BitsPositionParsed::range_in_order( (struct_size_bytes * 8) - 1 - start, (struct_size_bytes * 8) - 1 - end )
                     } else {
                         return Err(syn::Error::new(field.span(), "LSB0 field positioning currently requires explicit struct byte size."));
@@ -448,6 +451,10 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
         let mut bits = vec![None; num_bytes * 8];
         for field in &fields_parsed {
             let mut find_overlaps = |name: String, range: &Range<usize>| {
+                if range.end < range.start || range.end >= bits.len() {
+                    return Err(syn::Error::new(name.span(), format!("The field {} is outside of the structure", name)));
+                }
+
                 for i in range.start .. (range.end+1) {
                     if let Some(Some(n)) = bits.get(i) {
                         return Err(syn::Error::new(name.span(), format!("Overlap in bits between fields {} and {}", n, name)));
-- 
2.43.0


From 4f327796238cd3dd5a54146e18a8ad5d7914303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 10/10] fix: derived structures didn't compile in no_std crates
 that use the alloc feature

---
 packed_struct_codegen/src/pack_codegen_docs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 1deb17b..7918520 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -29,7 +29,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
                     ::packed_struct::debug_fmt::DebugBitField {
                         name: #name_str.into(),
                         bits: #bits,
-                        display_value: format!("{:?}", src.#ident).into()
+                        display_value: #stdlib_prefix::format!("{:?}", src.#ident).into()
                     }
                 });
             },
@@ -42,7 +42,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
                         ::packed_struct::debug_fmt::DebugBitField {
                             name: #name_str.into(),
                             bits: #bits,
-                            display_value: format!("{:?}", src.#ident[#i]).into()
+                            display_value: #stdlib_prefix::format!("{:?}", src.#ident[#i]).into()
                         }
                     });
                 }
-- 
2.43.0

