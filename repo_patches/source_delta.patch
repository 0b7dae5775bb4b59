From 402f2148ee49a4bab20ed5d3465b2f557cbe8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 01/41] fix: little endian reads of reversed structures look
 for the last bits in the wrong byte

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index fff43b5..cf54a5e 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -793,7 +793,7 @@ fn apply_le_math_to_field_access_quote(
                 full_quote = quote! {
                     #full_quote
                     #field_buffer_name[#i] |= input_byte_buffer[#start] & #current_bit_mask;
-                    #field_buffer_name[#i] |= input_byte_buffer[#start + 1] & #last_bit_mask;
+                    #field_buffer_name[#i] |= input_byte_buffer[#start #operator 1] & #last_bit_mask;
                 };
             } else {
                 let mut last_mask = first_bit_mask;
-- 
2.43.0


From 6566907915a5ac2290c326533efe61571c376c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 02/41] fix: little endian writes leave bits of the old value
 in the buffer and clear bits of the field before

---
 bondrewd-derive/src/structs/into_bytes.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 103643a..14624ba 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -693,6 +693,13 @@ fn apply_le_math_to_field_access_quote(
                         };
                     }
                 }
+                if next_bit_mask != 0 {
+                    let not_next_bit_mask = !next_bit_mask;
+                    clear_quote = quote! {
+                        #clear_quote
+                        output_byte_buffer[#start #operator 1] &= #not_next_bit_mask;
+                    };
+                }
                 if next_bit_mask == u8::MAX {
                     full_quote = quote! {
                         #full_quote
@@ -716,8 +723,8 @@ fn apply_le_math_to_field_access_quote(
                 starting_inject_byte - i
             };
             let right_shift: u32 = right_shift as u32;
-            // let not_first_bit_mask = !first_bit_mask;
-            // let not_last_bit_mask = !last_bit_mask;
+            let not_first_bit_mask = !first_bit_mask;
+            let not_last_bit_mask = !last_bit_mask;
 
             full_quote = quote! {
                 #full_quote
@@ -726,7 +733,8 @@ fn apply_le_math_to_field_access_quote(
             if used_bits < amount_of_bits {
                 clear_quote = quote! {
                     #clear_quote
-                    output_byte_buffer[#start] &= 0;
+                    output_byte_buffer[#start] &= #not_first_bit_mask;
+                    output_byte_buffer[#start #operator 1] &= #not_last_bit_mask;
                 };
                 full_quote = quote! {
                     #full_quote
-- 
2.43.0


From 32aedb29f90b73228be380a80f6754b6ce5f4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 03/41] fix: signed fields shorter than their type are not sign
 extended

---
 bondrewd-derive/src/structs/from_bytes.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index cf54a5e..0d18811 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -729,7 +729,7 @@ fn apply_le_math_to_field_access_quote(
         // };
         let size = field.ty.size();
         let new_array_quote =
-            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)? {
+            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
                 a
             } else {
                 quote! {[0u8;#size]}
@@ -932,7 +932,7 @@ fn apply_le_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1307,7 +1307,7 @@ fn apply_be_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1344,7 +1344,7 @@ fn build_number_quote(
     available_bits_in_first_byte: usize,
     flip: Option<usize>,
 ) -> syn::Result<TokenStream> {
-    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)?
+    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)?
     {
         a
     } else {
@@ -1527,6 +1527,7 @@ fn add_sign_fix_quote(
     field: &FieldInfo,
     amount_of_bits: &usize,
     right_shift: &i8,
+    flip: Option<usize>,
 ) -> syn::Result<Option<TokenStream>> {
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
@@ -1537,13 +1538,17 @@ fn add_sign_fix_quote(
                         field.attrs.bit_range.start / 8,
                     ),
                     Endianness::Little => {
-                        let skip_bytes = (amount_of_bits / 8) * 8;
+                        let skip_bytes = ((amount_of_bits - 1) / 8) * 8;
                         let sign_bit_index = field.attrs.bit_range.start + skip_bytes;
                         // TODO fix bit isolators to fix signed numbers.
                         (sign_bit_index % 8, sign_bit_index / 8)
                     }
                     Endianness::None => return Ok(None),
                 };
+                let sign_index = match flip {
+                    Some(flip) => flip - sign_index,
+                    None => sign_index,
+                };
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
                 let sign_bit = quote! {
                     (input_byte_buffer[#sign_index] & #sign_mask)
@@ -1627,7 +1632,7 @@ fn add_sign_fix_quote_single_bit(
             if let NumberSignage::Signed = sign {
                 let bit_to_isolate = field.attrs.bit_range.start % 8;
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
-                let neg_mask = get_left_and_mask(bit_to_isolate + 1);
+                let neg_mask = get_left_and_mask(8 - amount_of_bits);
                 let sign_bit = quote! {
                     (input_byte_buffer[#byte_index] & #sign_mask)
                 };
-- 
2.43.0


From 216e84d8368c67545257968b64099d41b2ef4986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 04/41] fix: fill_bytes panics with lsb0 or too many fields,
 and overlaps fields declared out of order

---
 bondrewd-derive/src/structs/common.rs | 62 ++++++++++++++++-----------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7d03b19..291e654 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1920,30 +1920,44 @@ impl ObjectInfo {
 
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
         if let Some(fill_bits) = attrs.fill_bits {
-            let first_bit = if let Some(last_range) = parsed_fields.iter().last() {
-                last_range.attrs.bit_range.end
-            } else {
-                0_usize
-            };
-            let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
-            let ident = quote::format_ident!("bondrewd_fill_bits");
-            parsed_fields.push(FieldInfo {
-                ident: Box::new(ident.into()),
-                attrs: FieldAttrs {
-                    bit_range: first_bit..fill_bits,
-                    endianness: Box::new(Endianness::Big),
-                    reserve: ReserveFieldOption::FakeReserveField,
-                    overlap: OverlapOptions::None,
-                    capture_id: false,
-                },
-                ty: FieldDataType::BlockArray(
-                    Box::new(SubFieldInfo {
-                        ty: FieldDataType::Number(1, NumberSignage::Unsigned, quote! {u8}),
-                    }),
-                    fill_bytes_size,
-                    quote! {[u8;#fill_bytes_size]},
-                ),
-            });
+            // fields can be declared out of order, the filling goes behind all of them.
+            let first_bit = parsed_fields
+                .iter()
+                .map(|field| field.attrs.bit_range.end)
+                .max()
+                .unwrap_or(0_usize);
+            if fill_bits < first_bit {
+                return Err(syn::Error::new(
+                    name.span(),
+                    format!(
+                        "fields use {} bits, which do not fit in the {} bits defined by fill_bytes.",
+                        first_bit, fill_bits
+                    ),
+                ));
+            }
+            // bits added by filling are part of the structure, lsb0 counts from their end.
+            bit_size = fill_bits;
+            if first_bit < fill_bits {
+                let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
+                let ident = quote::format_ident!("bondrewd_fill_bits");
+                parsed_fields.push(FieldInfo {
+                    ident: Box::new(ident.into()),
+                    attrs: FieldAttrs {
+                        bit_range: first_bit..fill_bits,
+                        endianness: Box::new(Endianness::Big),
+                        reserve: ReserveFieldOption::FakeReserveField,
+                        overlap: OverlapOptions::None,
+                        capture_id: false,
+                    },
+                    ty: FieldDataType::BlockArray(
+                        Box::new(SubFieldInfo {
+                            ty: FieldDataType::Number(1, NumberSignage::Unsigned, quote! {u8}),
+                        }),
+                        fill_bytes_size,
+                        quote! {[u8;#fill_bytes_size]},
+                    ),
+                });
+            }
         }
 
         if attrs.lsb_zero {
-- 
2.43.0


From 754bc485812046f97215fcc7634318798ddf9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 05/41] fix: nested structures that end inside of a byte
 overwrite the bits after them

---
 bondrewd-derive/src/structs/from_bytes.rs | 16 ++++++++++++++--
 bondrewd-derive/src/structs/into_bytes.rs | 20 +++++++++++++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 0d18811..fcc3efa 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -995,10 +995,22 @@ fn apply_ne_math_to_field_access_quote(
                         // right shift (this means that the last bits are in the first byte)
                         // because we are applying bits in place we need masks in insure we don't effect other fields
                         // data. we need one for the first byte and the last byte.
-                        let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
-                        let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                         let right_shift: u32 = right_shift as u32;
                         for i in 0..*size {
+                            // bits of the field that are not in the structs bytes before this one.
+                            let remaining_bits = match amount_of_bits.checked_sub(8 * i) {
+                                Some(bits) if bits != 0 => bits,
+                                _ => break,
+                            };
+                            // the last byte might not use all bits, the bits after it belong to other fields.
+                            let mut current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
+                            if remaining_bits < available_bits_in_first_byte {
+                                current_bit_mask &= get_left_and_mask(8 - available_bits_in_first_byte + remaining_bits);
+                            }
+                            let next_bit_mask = get_left_and_mask(
+                                (8 - available_bits_in_first_byte)
+                                    .min(remaining_bits.saturating_sub(available_bits_in_first_byte)),
+                            );
                             let start = if flip.is_none() {starting_inject_byte + i}else{starting_inject_byte - i};
                             let mut first = if current_bit_mask == u8::MAX {
                                 quote!{
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 14624ba..adcd585 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -920,10 +920,24 @@ fn apply_ne_math_to_field_access_quote(
                 // right shift (this means that the last bits are in the first byte)
                 // because we are applying bits in place we need masks in insure we don't effect other fields
                 // data. we need one for the first byte and the last byte.
-                let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
-                let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                 let right_shift: u32 = right_shift as u32;
                 for i in 0usize..size {
+                    // bits of the field that are not in the structs bytes before this one.
+                    let remaining_bits = match amount_of_bits.checked_sub(8 * i) {
+                        Some(bits) if bits != 0 => bits,
+                        _ => break,
+                    };
+                    // the last byte might not use all bits, the bits after it belong to other fields.
+                    let mut current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
+                    if remaining_bits < available_bits_in_first_byte {
+                        current_bit_mask &= get_left_and_mask(
+                            8 - available_bits_in_first_byte + remaining_bits,
+                        );
+                    }
+                    let next_bit_mask = get_left_and_mask(
+                        (8 - available_bits_in_first_byte)
+                            .min(remaining_bits.saturating_sub(available_bits_in_first_byte)),
+                    );
                     let start = if flip.is_none() {
                         starting_inject_byte + i
                     } else {
@@ -1074,7 +1088,7 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.ident.span(), "Enum was given Endianness which should be described by the struct implementing Bitfield")),
             FieldDataType::Struct(_, _) => {
                 let used_bits_in_byte = 8 - available_bits_in_first_byte;
-                quote!{output_byte_buffer[#starting_inject_byte] |= (#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte;}
+                quote!{output_byte_buffer[#starting_inject_byte] |= ((#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte) & #mask;}
             }
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
-- 
2.43.0


From 31b45f7f01f1c3f374b561b4bb01be14d1ea24e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 06/41] fix: BitfieldEnum does not compile with a named catch
 value

---
 bondrewd-derive/src/enums/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/from_bytes.rs b/bondrewd-derive/src/enums/from_bytes.rs
index 417ce1c..b3e5e2a 100644
--- a/bondrewd-derive/src/enums/from_bytes.rs
+++ b/bondrewd-derive/src/enums/from_bytes.rs
@@ -19,7 +19,7 @@ pub fn generate_from_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
             EnumVariantType::CatchPrimitive(ref field_name) => {
                 if let Some(ref field_name) = field_name {
                     quote! {
-                        _ => Self::#name { #field_name = input },
+                        _ => Self::#name { #field_name: input },
                     }
                 } else {
                     quote! {
-- 
2.43.0


From f461948efc6507ca7ad024f1e56582ab2a7d2152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 07/41] fix: the id of reversed enums is stored on top of the
 variants fields

---
 bondrewd-derive/src/structs/from_bytes.rs | 6 ++----
 bondrewd-derive/src/structs/into_bytes.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index fcc3efa..9c09e2a 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -213,12 +213,10 @@ pub fn create_from_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
                 let field_extractor = get_field_quote(
                     &field,
-                    if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
+                    if info.attrs.attrs.flip {
+                        // the variants leave room for the id on the side they start from.
                         Some(info.total_bytes() - 1)
                     } else {
                         None
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index adcd585..c7e9d1b 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -144,12 +144,10 @@ pub fn create_into_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
                 let (field_quote, clear_quote) = get_field_quote(
                     &field,
-                    if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
+                    if info.attrs.attrs.flip {
+                        // the variants leave room for the id on the side they start from.
                         Some(info.total_bytes() - 1)
                     } else {
                         None
-- 
2.43.0


From 51ccb9dd6c884156f0c63a239e7adfa5b580a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 08/41] fix: enums read from lsb0 do not compile

---
 bondrewd-derive/src/structs/common.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 291e654..4653d9a 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1102,7 +1102,12 @@ impl EnumInfo {
             ),
             attrs: FieldAttrs {
                 endianness: Box::new(e),
-                bit_range: 0..self.attrs.id_bits,
+                bit_range: if self.attrs.attrs.lsb_zero {
+                    let total = self.total_bits();
+                    (total - self.attrs.id_bits)..total
+                } else {
+                    0..self.attrs.id_bits
+                },
                 reserve: ReserveFieldOption::NotReserve,
                 overlap: OverlapOptions::None,
                 capture_id: false,
@@ -1268,6 +1273,7 @@ impl ObjectInfo {
                         capture_id: false,
                     },
                 };
+                let enum_lsb_zero = attrs.lsb_zero;
                 for variant in data.variants.iter() {
                     let tuple = matches!(variant.fields, syn::Fields::Unnamed(_));
                     let mut attrs = attrs.clone();
@@ -1279,10 +1285,15 @@ impl ObjectInfo {
                     let variant_name = variant.ident.clone();
                     // TODO currently we always add the id field, but some people might want the id to be a
                     // field in the variant. this would no longer need to insert the id as a "fake-field".
+                    let mut field_attrs = attrs.clone();
+                    if enum_lsb_zero {
+                        // lsb0 counts from the end of the largest variant, which is not known yet.
+                        field_attrs.lsb_zero = false;
+                    }
                     let fields = Self::parse_fields(
                         &variant_name,
                         &variant.fields,
-                        &attrs,
+                        &field_attrs,
                         Some(id_field.clone()),
                         tuple,
                     )?;
@@ -1514,6 +1525,12 @@ impl ObjectInfo {
                         });
                     }
                 }
+                if enum_lsb_zero {
+                    for field in variants.iter_mut().flat_map(|v| v.fields.iter_mut()) {
+                        field.attrs.bit_range = (largest - field.attrs.bit_range.end)
+                            ..(largest - field.attrs.bit_range.start);
+                    }
+                }
                 Ok(Self::Enum(EnumInfo {
                     name,
                     variants,
-- 
2.43.0


From ca80488898d676b1e59f318d0dd29fd2772d0d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 09/41] fix: enum ids which do not use all bytes of their type
 do not compile

---
 bondrewd-derive/src/structs/common.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 4653d9a..28c12b4 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1096,7 +1096,7 @@ impl EnumInfo {
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
-                (self.attrs.id_bits as f64 / 8.0f64).ceil() as usize,
+                get_id_type_size(self.attrs.id_bits),
                 NumberSignage::Unsigned,
                 self.id_ident()?,
             ),
@@ -1154,6 +1154,11 @@ pub enum ObjectInfo {
     Enum(EnumInfo),
 }
 
+/// Returns the size in bytes of the type [`get_id_type`] picks.
+fn get_id_type_size(id_bits: usize) -> usize {
+    ((id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two()
+}
+
 /// `id_bits` is the amount of bits the enum's id takes.
 fn get_id_type(id_bits: usize, span: Span) -> syn::Result<TokenStream> {
     match id_bits {
@@ -1252,7 +1257,7 @@ impl ObjectInfo {
                     };
                     (
                         FieldDataType::Number(
-                            (id_bits as f64 / 8.0f64).ceil() as usize,
+                            get_id_type_size(id_bits),
                             NumberSignage::Unsigned,
                             get_id_type(id_bits, name.span())?,
                         ),
-- 
2.43.0


From 16d1804e92202fbe6bb662a443ac9693ec9f3a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 10/41] fix: slice accessors of reversed structures accept
 slices that are too short

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 9c09e2a..f07b5bf 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -515,7 +515,7 @@ fn make_peek_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - (field.attrs.bit_range.start / 8)
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index c7e9d1b..a85bb85 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -372,7 +372,7 @@ fn make_set_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - (field.attrs.bit_range.start / 8)
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
-- 
2.43.0


From 3e412b3036035bb7a69770dad8749973f599edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 11/41] fix: from_slice and from_vec read reserve fields, which
 from_bytes ignores

---
 bondrewd-derive/src/structs/from_bytes.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index f07b5bf..497a1e8 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -188,9 +188,15 @@ fn create_fields_quotes(
                 #from_bytes_quote
                 #peek_call;
             };
+            // reserve fields are not read, just like in from_bytes.
+            let from_vec_value = if field.attrs.reserve.read_field() {
+                field_extractor
+            } else {
+                quote! { Default::default() }
+            };
             from_vec_quote = quote! {
                 #from_vec_quote
-                let #field_name = #field_extractor;
+                let #field_name = #from_vec_value;
             };
         }
     }
-- 
2.43.0


From eea0cf5ffea329d1b6da9da02f0f98e07f5a9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 12/41] fix: part_eq_enums has no effect without dyn_fns

---
 bondrewd-derive/src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 25be53f..6730de6 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1920,6 +1920,22 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                 #getter_setters_quotes
                 #hex_fns_quote
             };
+            #[cfg(feature = "part_eq_enums")]
+            let id_ident = match enum_info.id_ident() {
+                Ok(ii) => ii,
+                Err(err) => {
+                    return err.to_compile_error().into();
+                }
+            };
+            #[cfg(feature = "part_eq_enums")]
+            let to_bytes_quote = quote! {
+                #to_bytes_quote
+                impl PartialEq<#id_ident> for #struct_name {
+                    fn eq(&self, other: &#id_ident) -> bool {
+                        self.id() == *other
+                    }
+                }
+            };
             if dyn_fns {
                 let from_vec_quote = fields_from_bytes.from_slice_field_fns;
                 let vis = &enum_info.vis;
@@ -1964,22 +1980,6 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                         #from_vec_quote
                     }
                 };
-                #[cfg(feature = "part_eq_enums")]
-                let id_ident = match enum_info.id_ident() {
-                    Ok(ii) => ii,
-                    Err(err) => {
-                        return err.to_compile_error().into();
-                    }
-                };
-                #[cfg(feature = "part_eq_enums")]
-                let to_bytes_quote = quote! {
-                    #to_bytes_quote
-                    impl PartialEq<#id_ident> for #struct_name {
-                        fn eq(&self, other: &#id_ident) -> bool {
-                            self.id() == *other
-                        }
-                    }
-                };
                 TokenStream::from(to_bytes_quote)
             } else {
                 TokenStream::from(to_bytes_quote)
-- 
2.43.0


From b3729528e22527d9200d3e58ce996c631ce6812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 13/41] fix: arrays of floats, and of structures and booleans
 sized as a whole, are rejected or make the derive panic

---
 bondrewd-derive/src/structs/common.rs |  8 ++++++--
 bondrewd-derive/src/structs/parse.rs  | 12 ++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 28c12b4..27b9aa4 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -279,6 +279,7 @@ impl FieldDataType {
                                         }
                                     };
                                     let mut sub_attrs = attrs.clone();
+                                    sub_attrs.bit_range = attrs.bit_range.split(array_length);
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else if let Some(ref ty) = sub.as_ref() {
                                         sub_attrs.ty = ty.clone();
@@ -301,6 +302,7 @@ impl FieldDataType {
                                 }
                                 FieldAttrBuilderType::BlockArray(_) => {
                                     let mut sub_attrs = attrs.clone();
+                                    sub_attrs.bit_range = attrs.bit_range.split(array_length);
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
@@ -323,6 +325,7 @@ impl FieldDataType {
                                 FieldAttrBuilderType::Enum(_, _)
                                 | FieldAttrBuilderType::Struct(_) => {
                                     let mut sub_attrs = attrs.clone();
+                                    sub_attrs.bit_range = attrs.bit_range.split(array_length);
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else {
                                         sub_attrs.ty = attrs.ty.clone();
@@ -344,6 +347,7 @@ impl FieldDataType {
                                 }
                                 FieldAttrBuilderType::None => {
                                     let mut sub_attrs = attrs.clone();
+                                    sub_attrs.bit_range = attrs.bit_range.split(array_length);
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
@@ -362,7 +366,7 @@ impl FieldDataType {
                                                     "range end is less than range start",
                                                 ));
                                             }
-                                            if range.end - range.start % array_length != 0 {
+                                            if (range.end - range.start) % array_length != 0 {
                                                 return Err(
                                                     syn::Error::new(
                                                         span,
@@ -704,7 +708,7 @@ impl Iterator for BlockSubFieldIter {
     type Item = FieldInfo;
     fn next(&mut self) -> Option<Self::Item> {
         if self.length != 0 {
-            let mut ty_size = self.ty.size() * 8;
+            let mut ty_size = self.ty.get_element_bit_length();
             if self.bit_length % ty_size != 0 {
                 ty_size = self.bit_length % ty_size;
             }
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 3a6d842..8a4851c 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -55,6 +55,18 @@ pub enum FieldBuilderRange {
     None,
 }
 
+impl FieldBuilderRange {
+    /// The bits of one element, for arrays which use the bits of `self`.
+    pub fn split(&self, array_length: usize) -> Self {
+        match self {
+            Self::Range(range) if range.start <= range.end && array_length != 0 => {
+                Self::Range(range.start..range.start + (range.end - range.start) / array_length)
+            }
+            _ => self.clone(),
+        }
+    }
+}
+
 impl Default for FieldBuilderRange {
     fn default() -> Self {
         Self::None
-- 
2.43.0


From 5a824cede5dbd911beae53d1f8828e1655b1ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 14/41] fix: declarations whose fields do not fit make the
 derive panic, or code that panics

---
 bondrewd-derive/src/structs/common.rs | 101 +++++++++++++++++++++++---
 bondrewd-derive/src/structs/parse.rs  |   6 ++
 2 files changed, 97 insertions(+), 10 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 27b9aa4..cb41e07 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -193,6 +193,14 @@ impl FieldDataType {
             }
         }
     }
+    /// a field of this type needs at least one bit, and can not use more than the type has.
+    fn can_use_bits(&self, bits: usize) -> bool {
+        match self {
+            Self::Boolean => 0 < bits,
+            Self::ElementArray(_, _, _) | Self::BlockArray(_, _, _) => true,
+            _ => 0 < bits && bits <= self.size() * 8,
+        }
+    }
     fn get_element_bit_length(&self) -> usize {
         match self {
             Self::Boolean => 1,
@@ -240,6 +248,12 @@ impl FieldDataType {
                 if let syn::Expr::Lit(ref lit_expr) = array_path.len {
                     if let syn::Lit::Int(ref lit_int) = lit_expr.lit {
                         if let Ok(array_length) = lit_int.base10_parse::<usize>() {
+                            if array_length == 0 {
+                                return Err(Error::new(
+                                    array_path.bracket_token.span,
+                                    "Arrays must have at least one element",
+                                ));
+                            }
                             match attrs.ty {
                                 FieldAttrBuilderType::ElementArray(
                                     ref element_bit_size,
@@ -837,6 +851,52 @@ impl FieldInfo {
         false
     }
 
+    /// check that the type of the field can be stored in the amount of bits it got.
+    fn verify_bit_length(&self) -> syn::Result<()> {
+        let bits = self.attrs.bit_length();
+        let fits = match self.ty {
+            FieldDataType::ElementArray(ref sub, length, _) => {
+                bits % length == 0 && sub.ty.can_use_bits(bits / length)
+            }
+            FieldDataType::BlockArray(ref sub, length, _) => {
+                // only the first element can be shorter.
+                let element = sub.ty.get_element_bit_length();
+                element * (length - 1) < bits && bits <= element * length
+            }
+            ref ty => ty.can_use_bits(bits),
+        };
+        if !fits {
+            return Err(Error::new(
+                self.span(),
+                format!(
+                    "a {} can not be stored in {bits} bits",
+                    self.ty.type_quote()
+                ),
+            ));
+        }
+        match self.attrs.overlap {
+            OverlapOptions::Allow(skip) if skip > bits => Err(Error::new(
+                self.span(),
+                format!("{skip} of the {bits} bits can not be shared with other fields"),
+            )),
+            _ => Ok(()),
+        }
+    }
+
+    /// check that the field does not use bits after the `total` bits that there are.
+    fn verify_position(&self, total: usize) -> syn::Result<()> {
+        if total < self.attrs.bit_range.end {
+            return Err(Error::new(
+                self.span(),
+                format!(
+                    "bits {}..{} are outside of the {total} bits which are used in total",
+                    self.attrs.bit_range.start, self.attrs.bit_range.end
+                ),
+            ));
+        }
+        Ok(())
+    }
+
     #[inline]
     // this returns how many bits of the fields pertain to total structure bits.
     // where as attrs.bit_length() give you bits the fields actually needs.
@@ -947,6 +1007,7 @@ impl FieldInfo {
             ty: data_type,
             attrs,
         };
+        new_field.verify_bit_length()?;
         // check to verify there are no overlapping bit ranges from previously parsed fields.
         for (i, parsed_field) in fields.iter().enumerate() {
             if parsed_field.overlapping(&new_field) {
@@ -1252,7 +1313,7 @@ impl ObjectInfo {
                     } else if let (Some(payload_size), Some(total_size)) =
                         (enum_attrs.payload_bit_size, enum_attrs.total_bit_size)
                     {
-                        total_size - payload_size
+                        total_size.saturating_sub(payload_size)
                     } else {
                         return Err(syn::Error::new(
                             data.enum_token.span(),
@@ -1357,10 +1418,10 @@ impl ObjectInfo {
                     } else if let (Some(bit_size), Some(id_size)) =
                         (enum_attrs.total_bit_size, enum_attrs.id_bits)
                     {
-                        if bit_size - id_size < size - variant.fields[0].attrs.bit_length() {
+                        if bit_size < id_size + size - variant.fields[0].attrs.bit_length() {
                             return Err(Error::new(
                                 variant.name.span(),
-                                format!("variant with id is larger than defined total_size of enum. defined size: {}. calculated size: {}", bit_size - id_size, size),
+                                format!("variant with id is larger than defined total_size of enum. defined size: {}. calculated size: {}", bit_size, size),
                             ));
                         }
                     }
@@ -1487,7 +1548,7 @@ impl ObjectInfo {
                         }
                     }
                 };
-                if enum_attrs.id_bits < min_id_size {
+                if enum_attrs.id_bits < min_id_size.max(1) {
                     return Err(Error::new(
                         data.enum_token.span(),
                         format!("the bit size being used is less than required to describe each variant"),
@@ -1499,6 +1560,14 @@ impl ObjectInfo {
                         format!("the payload size being used is less than largest variant"),
                     ));
                 }
+                let total = if enum_lsb_zero {
+                    largest
+                } else {
+                    (largest + 7) / 8 * 8
+                };
+                for field in variants.iter().flat_map(|variant| &variant.fields) {
+                    field.verify_position(total)?;
+                }
                 // let id_field_ty = FieldDataType::Number(
                 //     enum_attrs.id_bits,
                 //     NumberSignage::Unsigned,
@@ -1946,18 +2015,18 @@ impl ObjectInfo {
 
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
         if let Some(fill_bits) = attrs.fill_bits {
-            // fields can be declared out of order, the filling goes behind all of them.
-            let first_bit = parsed_fields
+            // fields can be declared out of order and leave out bits, all of them have to fit.
+            let first_bit = bit_size;
+            let last_bit = parsed_fields
                 .iter()
                 .map(|field| field.attrs.bit_range.end)
-                .max()
-                .unwrap_or(0_usize);
-            if fill_bits < first_bit {
+                .fold(bit_size, usize::max);
+            if fill_bits < last_bit {
                 return Err(syn::Error::new(
                     name.span(),
                     format!(
                         "fields use {} bits, which do not fit in the {} bits defined by fill_bytes.",
-                        first_bit, fill_bits
+                        last_bit, fill_bits
                     ),
                 ));
             }
@@ -1986,6 +2055,18 @@ impl ObjectInfo {
             }
         }
 
+        if attrs.lsb_zero || !is_enum {
+            // without lsb0 bits which only fill the last byte can be used.
+            let total = if attrs.lsb_zero {
+                bit_size
+            } else {
+                (bit_size + 7) / 8 * 8
+            };
+            for field in parsed_fields.iter() {
+                field.verify_position(total)?;
+            }
+        }
+
         if attrs.lsb_zero {
             for ref mut field in parsed_fields.iter_mut() {
                 field.attrs.bit_range = (bit_size - field.attrs.bit_range.end)
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 8a4851c..f4abb10 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -290,6 +290,12 @@ impl FieldAttrBuilder {
                                 let split = val_string.split("..").collect::<Vec<&str>>();
                                 if split.len() == 2 {
                                     match (split[0].parse::<usize>(), split[1].parse::<usize>()) {
+                                        (Ok(start), Ok(end)) if end < start => {
+                                            return Err(Error::new(
+                                                builder.span(),
+                                                "range end is less than range start",
+                                            ));
+                                        }
                                         (Ok(start), Ok(end)) => match builder.bit_range {
                                             FieldBuilderRange::Range(ref range) => {
                                                 if range.end - range.start == end - start {
-- 
2.43.0


From 89b2df0b6eb4a86c9cd6d45ecbf6a14e86521f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 15/41] fix: fields with raw identifiers make the derive panic

---
 bondrewd-derive/src/structs/from_bytes.rs | 10 +++++-----
 bondrewd-derive/src/structs/into_bytes.rs | 14 +++++++-------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 497a1e8..b96b486 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -173,9 +173,9 @@ fn create_fields_quotes(
                 // put the field extraction in the actual from bytes.
                 if field.attrs.reserve.read_field() {
                     let fn_field_name = if let Some(ref p) = lower_name {
-                        format_ident!("read_{p}_{field_name}")
+                        format_ident!("read_{p}_{}", field_name)
                     } else {
-                        format_ident!("read_{field_name}")
+                        format_ident!("read_{}", field_name)
                     };
                     quote! {
                         let #field_name = Self::#fn_field_name(&input_byte_buffer);
@@ -516,7 +516,7 @@ fn make_peek_slice_fn(
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_slice_{field_name}");
+    let fn_field_name = format_ident!("read_slice_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -553,7 +553,7 @@ fn make_peek_slice_unchecked_fn(
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -581,7 +581,7 @@ fn make_peek_fn(
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index a85bb85..8c5b357 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -88,7 +88,7 @@ fn create_fields_quotes(
         )?;
         if field.attrs.reserve.write_field() {
             if let Some(ref name) = lower_name {
-                let fn_name = format_ident!("write_{name}_{field_name}");
+                let fn_name = format_ident!("write_{name}_{}", field_name);
                 into_bytes_quote = quote! {
                     #into_bytes_quote
                     Self::#fn_name(&mut output_byte_buffer, #field_name);
@@ -364,9 +364,9 @@ fn make_set_slice_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_slice_{p}_{field_name}")
+        format_ident!("write_slice_{p}_{}", field_name)
     } else {
-        format_ident!("write_slice_{field_name}")
+        format_ident!("write_slice_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -403,9 +403,9 @@ fn make_set_slice_unchecked_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_{p}_{field_name}")
+        format_ident!("write_{p}_{}", field_name)
     } else {
-        format_ident!("write_{field_name}")
+        format_ident!("write_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -433,9 +433,9 @@ fn make_set_fn(
 ) -> syn::Result<TokenStream> {
     let field_name_short = field.ident().ident();
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{field_name_short}")
+        format_ident!("{p}_{}", field_name_short)
     } else {
-        format_ident!("{field_name_short}")
+        field_name_short.clone()
     };
     let struct_size = info.total_bytes();
     let bit_range = &field.attrs.bit_range;
-- 
2.43.0


From f03262d99c292b7357e552c774a221dd6aacf5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 16/41] fix: partial_eq enums do not compile in no_std crates

---
 bondrewd-derive/src/enums/partial_eq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/partial_eq.rs b/bondrewd-derive/src/enums/partial_eq.rs
index 89264cf..1876b44 100644
--- a/bondrewd-derive/src/enums/partial_eq.rs
+++ b/bondrewd-derive/src/enums/partial_eq.rs
@@ -55,7 +55,7 @@ pub fn generate_partial_eq(enum_info: &EnumInfo) -> proc_macro2::TokenStream {
         }
     }
     quote! {
-        impl std::cmp::PartialEq<#primitive_ty> for #enum_name {
+        impl core::cmp::PartialEq<#primitive_ty> for #enum_name {
             fn eq(&self, other: &#primitive_ty) -> bool {
                 match (self, other) {
                     #comp_arms
-- 
2.43.0


From 65e922b42d620419c78df8a8d55daf4bf453c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 17/41] fix: block arrays of BitfieldEnum enums do not compile

---
 bondrewd-derive/src/structs/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index cb41e07..0251ee1 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -314,10 +314,12 @@ impl FieldDataType {
                                         quote! {[#type_ident;#array_length]},
                                     )
                                 }
-                                FieldAttrBuilderType::BlockArray(_) => {
+                                FieldAttrBuilderType::BlockArray(ref sub) => {
                                     let mut sub_attrs = attrs.clone();
                                     sub_attrs.bit_range = attrs.bit_range.split(array_length);
                                     if let Type::Array(_) = array_path.elem.as_ref() {
+                                    } else if let Some(ref ty) = sub.as_ref() {
+                                        sub_attrs.ty = ty.clone();
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
                                     }
-- 
2.43.0


From 81572296805e3d16c55347fc389520da76332294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 18/41] fix: captured ids are read with the endianness of the
 variant instead of the one of the id

---
 bondrewd-derive/src/structs/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 0251ee1..3c6cec4 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1335,7 +1335,10 @@ impl ObjectInfo {
                     ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
                     ty: id_field_type,
                     attrs: FieldAttrs {
-                        endianness: Box::new(attrs.default_endianess.clone()),
+                        endianness: Box::new(match attrs.default_endianess {
+                            Endianness::None => Endianness::Little,
+                            ref endianness => endianness.clone(),
+                        }),
                         // this need to accommodate tailing ids, currently this locks the
                         // id field to the first field read from the starting point of reading.
                         // TODO make sure this gets corrected if the id size is unknown.
@@ -1966,6 +1969,7 @@ impl ObjectInfo {
                                         return Err(Error::new(field.span(), format!("capture_id field currently must be {bon_ty} in this instance, because bondrewd makes an assumption about the id type. changing this would be difficult")));
                                     }
                                     let old_id = parsed_fields.remove(0);
+                                    parsed_field.attrs.endianness = old_id.attrs.endianness.clone();
                                     if tuple {
                                         parsed_field.ident = old_id.ident;
                                     }
-- 
2.43.0


From 15b1f366207c1075571ee106605626e3f2ff55a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 19/41] fix: unknown values of default_endianness are silently
 ignored

---
 bondrewd-derive/src/structs/common.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 3c6cec4..56b66d4 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1807,7 +1807,12 @@ impl ObjectInfo {
                             }
                             "be" | "msb" | "big" => info.default_endianess = Endianness::Big,
                             "ne" | "native" => info.default_endianess = Endianness::None,
-                            _ => {}
+                            _ => {
+                                return Err(syn::Error::new(
+                                    span,
+                                    "unknown endianness try \"le\", \"be\", or \"ne\"",
+                                ));
+                            }
                         }
                     } else {
                         return Err(syn::Error::new(
-- 
2.43.0


From 62353675f8d7601b3d689bf734b39fca9c4d2e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 20/41] fix: attributes of the compiler and of other derives
 are rejected on fields

---
 bondrewd-derive/src/enums/parse.rs    | 4 ++--
 bondrewd-derive/src/structs/common.rs | 4 ++--
 bondrewd-derive/src/structs/parse.rs  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 3c3a8bf..5445ced 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -229,7 +229,7 @@ impl EnumInfo {
     ) -> syn::Result<bool> {
         let mut temp: Option<Ident> = None;
         let mut temp_invalid = invalid_found.clone();
-        for attr in attrs {
+        for attr in attrs.iter().filter(|a| a.path.is_ident("bondrewd_enum")) {
             match Self::parse_meta(attr.parse_meta()?, &mut temp_invalid, &mut temp, var)? {
                 ParseMetaResult::FoundInvalid => {
                     std::mem::swap(&mut temp, primitive_type);
@@ -258,7 +258,7 @@ impl EnumInfo {
         };
         let mut primitive_type: Option<Ident> = None;
         let mut partial_eq = false;
-        for attr in &input.attrs {
+        for attr in input.attrs.iter().filter(|a| a.path.is_ident("bondrewd_enum")) {
             match attr.parse_meta()? {
                 Meta::NameValue(_) => {}
                 Meta::Path(_) => {}
diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 56b66d4..9794754 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1252,7 +1252,7 @@ impl ObjectInfo {
         attrs_info: &mut AttrInfo,
         is_variant: bool,
     ) -> syn::Result<()> {
-        for attr in attrs.iter() {
+        for attr in attrs.iter().filter(|a| a.path.is_ident("bondrewd")) {
             let span = attr.pound_token.span();
             let meta = attr.parse_meta()?;
             Self::parse_struct_attrs_meta(span, attrs_info, &meta, is_variant)?;
@@ -1265,7 +1265,7 @@ impl ObjectInfo {
         attrs_info: &mut AttrInfo,
         enum_attrs_info: &mut EnumAttrInfoBuilder,
     ) -> syn::Result<()> {
-        for attr in attrs.iter() {
+        for attr in attrs.iter().filter(|a| a.path.is_ident("bondrewd")) {
             let span = attr.pound_token.span();
             let meta = attr.parse_meta()?;
             Self::parse_enum_attrs_meta(span, attrs_info, enum_attrs_info, &meta)?;
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index f4abb10..0404e12 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -116,7 +116,7 @@ impl FieldAttrBuilder {
         // end ( this only works if a all bit fields are in order, ex. if a bit_range attribute defines a
         // complete range which occupies the same space as this field and that field is not the "last_field"
         // you will get a conflicting fields error returned to the user... hopefully )
-        for attr in field.attrs.iter() {
+        for attr in field.attrs.iter().filter(|a| a.path.is_ident("bondrewd")) {
             let meta = attr.parse_meta()?;
             Self::parse_meta(meta, &last_field, &mut builder)?;
         }
-- 
2.43.0


From 027274670fae11f14ef142dcf4ef9c1e5d90e575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:43 +0000
Subject: [PATCH 21/41] fix: read_from on enum variants does not compile or is
 ignored

---
 bondrewd-derive/src/structs/common.rs | 47 ++++++++++++++++++---------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 9794754..3ac1d6f 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1361,10 +1361,8 @@ impl ObjectInfo {
                     // TODO currently we always add the id field, but some people might want the id to be a
                     // field in the variant. this would no longer need to insert the id as a "fake-field".
                     let mut field_attrs = attrs.clone();
-                    if enum_lsb_zero {
-                        // lsb0 counts from the end of the largest variant, which is not known yet.
-                        field_attrs.lsb_zero = false;
-                    }
+                    // lsb0 counts from the end of the largest variant, which is not known yet.
+                    field_attrs.lsb_zero = false;
                     let fields = Self::parse_fields(
                         &variant_name,
                         &variant.fields,
@@ -1565,13 +1563,15 @@ impl ObjectInfo {
                         format!("the payload size being used is less than largest variant"),
                     ));
                 }
-                let total = if enum_lsb_zero {
-                    largest
-                } else {
-                    (largest + 7) / 8 * 8
-                };
-                for field in variants.iter().flat_map(|variant| &variant.fields) {
-                    field.verify_position(total)?;
+                for variant in variants.iter() {
+                    let total = if enum_lsb_zero || variant.attrs.lsb_zero {
+                        largest
+                    } else {
+                        (largest + 7) / 8 * 8
+                    };
+                    for field in variant.fields.iter() {
+                        field.verify_position(total)?;
+                    }
                 }
                 // let id_field_ty = FieldDataType::Number(
                 //     enum_attrs.id_bits,
@@ -1608,10 +1608,27 @@ impl ObjectInfo {
                         });
                     }
                 }
-                if enum_lsb_zero {
-                    for field in variants.iter_mut().flat_map(|v| v.fields.iter_mut()) {
-                        field.attrs.bit_range = (largest - field.attrs.bit_range.end)
-                            ..(largest - field.attrs.bit_range.start);
+                let id_bits = enum_attrs.id_bits;
+                for variant in variants.iter_mut() {
+                    let variant_lsb_zero = variant.attrs.lsb_zero;
+                    for field in variant.fields.iter_mut() {
+                        let range = &mut field.attrs.bit_range;
+                        // the id stays where the enum puts it, the bits next to it are used from the
+                        // end the variant starts at.
+                        let lsb_zero = if range.start < id_bits {
+                            enum_lsb_zero
+                        } else {
+                            variant_lsb_zero
+                        };
+                        let (start, end) = match (enum_lsb_zero, lsb_zero) {
+                            (false, false) => continue,
+                            (true, true) => (largest - range.end, largest - range.start),
+                            (false, true) => {
+                                (largest + id_bits - range.end, largest + id_bits - range.start)
+                            }
+                            (true, false) => (range.start - id_bits, range.end - id_bits),
+                        };
+                        *range = start..end;
                     }
                 }
                 Ok(Self::Enum(EnumInfo {
-- 
2.43.0


From 488f044988a50bd0972f1356959d912dbfbe274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:23 +0000
Subject: [PATCH 22/41] fix: reversed variants store their fields on top of the
 id

---
 bondrewd-derive/src/structs/common.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 3ac1d6f..9c341fa 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1630,6 +1630,23 @@ impl ObjectInfo {
                         };
                         *range = start..end;
                     }
+                    // reversing only the variant must not move its fields onto the id.
+                    if variant.attrs.flip && !attrs.flip {
+                        let last_byte = (largest - 1) / 8;
+                        let (id, fields) = variant.fields.split_at(1);
+                        let id = &id[0].attrs.bit_range;
+                        for field in fields.iter().filter(|f| !f.attrs.overlap.enabled()) {
+                            let on_id = |bit: usize| id.contains(&((last_byte - bit / 8) * 8 + bit % 8));
+                            if field.attrs.bit_range.clone().any(on_id)
+                                && !field.attrs.reserve.is_fake_field()
+                            {
+                                return Err(Error::new(
+                                    field.span(),
+                                    "reversing the variant puts this field on bits of the id.",
+                                ));
+                            }
+                        }
+                    }
                 }
                 Ok(Self::Enum(EnumInfo {
                     name,
-- 
2.43.0


From e1d9aa17b8d7aa11bc4c712b3aee2e9f4faddb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 23/41] fix: enums with payload and total length are rejected
 or store the id in too few bits

---
 bondrewd-derive/src/structs/common.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 9c341fa..f0f1272 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1512,7 +1512,7 @@ impl ObjectInfo {
                                     format!("total_size, payload_size, and id_size where all specified but id_size ({id}) + payload_size ({payload}) is not equal to total_size ({total})"),
                                 ));
                             }
-                            if payload < largest {
+                            if total < largest {
                                 return Err(Error::new(
                                     data.enum_token.span(),
                                     format!("detected a variant over the maximum defined size."),
@@ -1526,8 +1526,8 @@ impl ObjectInfo {
                             }
                         } else {
                             EnumAttrInfo {
-                                payload_bit_size: largest,
-                                id_bits: min_id_size,
+                                payload_bit_size: payload,
+                                id_bits,
                                 id_position: enum_attrs.id_position,
                                 attrs: attrs.clone(),
                             }
@@ -1608,7 +1608,6 @@ impl ObjectInfo {
                         });
                     }
                 }
-                let id_bits = enum_attrs.id_bits;
                 for variant in variants.iter_mut() {
                     let variant_lsb_zero = variant.attrs.lsb_zero;
                     for field in variant.fields.iter_mut() {
-- 
2.43.0


From 24926c118f1d9b40cf1e91aaff03f81d248a9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:54 +0000
Subject: [PATCH 24/41] fix: captured id of a reversed variant is read from the
 wrong end

---
 bondrewd-derive/src/structs/from_bytes.rs | 25 +++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index b96b486..6e6008c 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -31,6 +31,7 @@ fn make_read_fns(
     field: &FieldInfo,
     info: &StructInfo,
     enum_name: &Option<Ident>,
+    id_flip: Option<usize>,
     peek_fns_quote: &mut TokenStream,
     peek_slice_fns_option: &mut Option<(TokenStream, TokenStream)>,
 ) -> syn::Result<TokenStream> {
@@ -41,7 +42,10 @@ fn make_read_fns(
     // };
     let field_extractor = get_field_quote(
         field,
-        if info.attrs.flip {
+        if field.attrs.capture_id {
+            // the id is where the enum puts it, even if the variant is reversed.
+            id_flip
+        } else if info.attrs.flip {
             Some(info.total_bytes() - 1)
         } else {
             None
@@ -100,6 +104,7 @@ fn get_check_slice_fn(
 fn create_fields_quotes(
     info: &StructInfo,
     enum_name: Option<Ident>,
+    id_flip: Option<usize>,
     peek_slice: bool,
 ) -> syn::Result<FieldQuotes> {
     let lower_name = if enum_name.is_some() {
@@ -145,6 +150,7 @@ fn create_fields_quotes(
             field,
             info,
             &lower_name,
+            id_flip,
             &mut peek_fns_quote,
             &mut peek_slice_fns_option,
         )?;
@@ -215,18 +221,19 @@ pub fn create_from_bytes_field_quotes_enum(
 ) -> Result<FromBytesOptions, syn::Error> {
     let mut from_bytes_fn: TokenStream = quote! {};
     let mut from_vec_fn: TokenStream = quote! {};
+    let id_flip = if info.attrs.attrs.flip {
+        // the variants leave room for the id on the side they start from.
+        Some(info.total_bytes() - 1)
+    } else {
+        None
+    };
     let (mut peek_fns_quote, mut peek_slice_fns_option) = {
         (
             {
                 let field = info.generate_id_field()?;
                 let field_extractor = get_field_quote(
                     &field,
-                    if info.attrs.attrs.flip {
-                        // the variants leave room for the id on the side they start from.
-                        Some(info.total_bytes() - 1)
-                    } else {
-                        None
-                    },
+                    id_flip,
                 )?;
                 let attrs = info.attrs.attrs.clone();
                 let mut fields = vec![field.clone()];
@@ -286,7 +293,7 @@ pub fn create_from_bytes_field_quotes_enum(
         let v_bit_size = variant.total_bits();
         let variant_name = quote! {#v_name};
         let (field_name_list, peek_fns_quote_temp, from_bytes_quote, peek_slice_fns_option_temp, from_vec_quote) = {
-            let thing = create_fields_quotes(variant, Some(info.name.clone()), peek_slice)?;
+            let thing = create_fields_quotes(variant, Some(info.name.clone()), id_flip, peek_slice)?;
             (
                 thing.field_name_list,
                 thing.peek_fns_quote,
@@ -431,7 +438,7 @@ pub fn create_from_bytes_field_quotes(
     peek_slice: bool,
 ) -> Result<FromBytesOptions, syn::Error> {
     let (peek_fns_quote, from_bytes_struct_quote, from_bytes_quote, peek_slice_fns_option, from_vec_fn) = {
-        let thing = create_fields_quotes(info, None, peek_slice)?;
+        let thing = create_fields_quotes(info, None, None, peek_slice)?;
         (
             thing.peek_fns_quote,
             thing.field_name_list,
-- 
2.43.0


From 810fe5688326ca40f8df7a784812c369dcc57cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 25/41] fix: dyn_fns does not compile without the standard
 library

---
 bondrewd-derive/src/structs/from_bytes.rs | 4 ++--
 bondrewd/src/hex.rs                       | 2 +-
 bondrewd/src/lib.rs                       | 7 ++++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 6e6008c..14c5bc7 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -392,7 +392,7 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -467,7 +467,7 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
diff --git a/bondrewd/src/hex.rs b/bondrewd/src/hex.rs
index e5a10ac..67b4e8b 100644
--- a/bondrewd/src/hex.rs
+++ b/bondrewd/src/hex.rs
@@ -63,7 +63,7 @@ where
 {
     const UPPERS: &'static [u8; 16] = b"0123456789ABCDEF";
     const LOWERS: &'static [u8; 16] = b"0123456789abcdef";
-    fn from_hex_vec(hex: &mut Vec<u8>) -> Result<Self, crate::BitfieldHexDynError>{
+    fn from_hex_vec(hex: &mut crate::alloc::vec::Vec<u8>) -> Result<Self, crate::BitfieldHexDynError>{
         if hex.len() < HEX_SIZE {
             return Err(crate::BitfieldHexDynError::Length(
                 crate::BitfieldLengthError(hex.len(), HEX_SIZE)
diff --git a/bondrewd/src/lib.rs b/bondrewd/src/lib.rs
index 3abad24..7b99ec3 100644
--- a/bondrewd/src/lib.rs
+++ b/bondrewd/src/lib.rs
@@ -2,6 +2,11 @@
 //! Defined Traits for bondrewd-derive.
 //! For Derive Docs see [bondrewd-derive](https://docs.rs/bondrewd-derive/latest/bondrewd_derive/)
 
+// the `Vec` functions must not depend on the standard library.
+#[cfg(feature = "dyn_fns")]
+#[doc(hidden)]
+pub extern crate alloc;
+
 mod error;
 #[cfg(feature = "hex_fns")]
 pub use error::BitfieldHexError;
@@ -30,7 +35,7 @@ pub trait BitfieldsDyn<const SIZE: usize>: Bitfields<SIZE>
 where 
     Self: Sized
 {
-    fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, BitfieldLengthError>;
+    fn from_vec(input_byte_buffer: &mut alloc::vec::Vec<u8>) -> Result<Self, BitfieldLengthError>;
     fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, BitfieldLengthError>;
 }
 
-- 
2.43.0


From 8893c18ccb7079f51c8ce233a62d4a9b0a526127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 26/41] fix: slice reads of the captured id of a reversed
 variant ask for too many bytes

---
 bondrewd-derive/src/structs/from_bytes.rs | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 14c5bc7..2b9d261 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -40,17 +40,15 @@ fn make_read_fns(
     // } else{
     //     format_ident!("read_{}", field_name.as_ref())
     // };
-    let field_extractor = get_field_quote(
-        field,
-        if field.attrs.capture_id {
-            // the id is where the enum puts it, even if the variant is reversed.
-            id_flip
-        } else if info.attrs.flip {
-            Some(info.total_bytes() - 1)
-        } else {
-            None
-        },
-    )?;
+    let flip = if field.attrs.capture_id {
+        // the id is where the enum puts it, even if the variant is reversed.
+        id_flip
+    } else if info.attrs.flip {
+        Some(info.total_bytes() - 1)
+    } else {
+        None
+    };
+    let field_extractor = get_field_quote(field, flip)?;
 
     let peek_quote = make_peek_fn(&field_extractor, field, info, enum_name)?;
     *peek_fns_quote = quote! {
@@ -60,7 +58,7 @@ fn make_read_fns(
     // make the slice functions if applicable.
     if let Some((ref mut the_peek_slice_fns_quote, ref mut unchecked_quote)) = peek_slice_fns_option
     {
-        let peek_slice_quote = make_peek_slice_fn(&field_extractor, field, info, enum_name)?;
+        let peek_slice_quote = make_peek_slice_fn(&field_extractor, field, info, enum_name, flip)?;
         let peek_slice_unchecked_quote =
             make_peek_slice_unchecked_fn(&field_extractor, field, info, enum_name)?;
         let mut the_peek_slice_fns_quote_temp = quote! {
@@ -259,6 +257,7 @@ pub fn create_from_bytes_field_quotes_enum(
                         &field,
                         &temp_struct_info,
                         &None,
+                        id_flip,
                     )?;
                     quote! {
                         #id_field
@@ -517,6 +516,7 @@ fn make_peek_slice_fn(
     field: &FieldInfo,
     info: &StructInfo,
     prefix: &Option<Ident>,
+    flip: Option<usize>,
 ) -> syn::Result<TokenStream> {
     let field_name = if let Some(p) = prefix {
         format_ident!("{p}_{}", field.ident().ident())
@@ -527,8 +527,8 @@ fn make_peek_slice_fn(
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
-    let min_length = if info.attrs.flip {
-        info.total_bytes() - (field.attrs.bit_range.start / 8)
+    let min_length = if let Some(last_byte) = flip {
+        last_byte + 1 - (field.attrs.bit_range.start / 8)
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
-- 
2.43.0


From aa6359f38981fb0bf227aba8afcb17d9a5274ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 27/41] fix: types of fields lose their path

---
 bondrewd-derive/src/structs/common.rs | 38 ++++++++-------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index f0f1272..8033b8f 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -224,22 +224,14 @@ impl FieldDataType {
             Type::Path(ref path) => match attrs.ty {
                 FieldAttrBuilderType::Struct(ref size) => FieldDataType::Struct(
                     *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
+                    // the type might not be in scope without its path.
+                    quote! {#path},
                 ),
                 FieldAttrBuilderType::Enum(ref size, ref prim) => FieldDataType::Enum(
                     quote! {#prim},
                     *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
+                    // the type might not be in scope without its path.
+                    quote! {#path},
                 ),
                 _ => Self::parse_path(&path.path, attrs, span)?,
             },
@@ -556,7 +548,7 @@ impl FieldDataType {
                                         ));
                                     }
                                 },
-                                quote! {#type_quote},
+                                quote! {#path},
                             ))
                             // Err(Error::new(
                             //     field_span,
@@ -569,22 +561,14 @@ impl FieldDataType {
                 }
             }
             FieldAttrBuilderType::Struct(size) => {
-                if let Some(ident) = path.get_ident() {
-                    Ok(FieldDataType::Struct(size, quote! {#ident}))
-                } else {
-                    Err(syn::Error::new(field_span, "field has no Type?"))
-                }
+                Ok(FieldDataType::Struct(size, quote! {#path}))
             }
             FieldAttrBuilderType::Enum(size, ref type_ident) => {
-                if let Some(ident) = path.get_ident() {
-                    Ok(FieldDataType::Enum(
-                        quote! {#type_ident},
-                        size,
-                        quote! {#ident},
-                    ))
-                } else {
-                    Err(syn::Error::new(field_span, "field has no Type?"))
-                }
+                Ok(FieldDataType::Enum(
+                    quote! {#type_ident},
+                    size,
+                    quote! {#path},
+                ))
             }
             _ => Err(syn::Error::new(
                 field_span,
-- 
2.43.0


From 58f867081f8ebea45b915515a80088fd78fe0258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 28/41] fix: settings with a value of the wrong kind are
 ignored

---
 bondrewd-derive/src/structs/common.rs | 20 ++++++++++++++++++++
 bondrewd-derive/src/structs/parse.rs  |  5 +++++
 2 files changed, 25 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 8033b8f..20f11ab 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1678,6 +1678,11 @@ impl ObjectInfo {
                                 ))
                             }
                         }
+                    } else {
+                        return Err(syn::Error::new(
+                            span,
+                            "improper usage of id_bit_length, must use literal integer ex. `id_bit_length = 8`",
+                        ));
                     }
                 } else if value.path.is_ident("id_byte_length") {
                     if let Lit::Int(ref val) = value.lit {
@@ -1698,6 +1703,11 @@ impl ObjectInfo {
                                 ))
                             }
                         }
+                    } else {
+                        return Err(syn::Error::new(
+                            span,
+                            "improper usage of id_byte_length, must use literal integer ex. `id_byte_length = 8`",
+                        ));
                     }
                 } else if value.path.is_ident("payload_bit_length") {
                     if let Lit::Int(ref val) = value.lit {
@@ -1712,6 +1722,11 @@ impl ObjectInfo {
                                 ))
                             }
                         }
+                    } else {
+                        return Err(syn::Error::new(
+                            span,
+                            "improper usage of payload_bit_length, must use literal integer ex. `payload_bit_length = 8`",
+                        ));
                     }
                 } else if value.path.is_ident("payload_byte_length") {
                     if let Lit::Int(ref val) = value.lit {
@@ -1726,6 +1741,11 @@ impl ObjectInfo {
                                 ))
                             }
                         }
+                    } else {
+                        return Err(syn::Error::new(
+                            span,
+                            "improper usage of payload_byte_length, must use literal integer ex. `payload_byte_length = 8`",
+                        ));
                     }
                 }
             }
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 0404e12..ed5dd6c 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -154,6 +154,11 @@ impl FieldAttrBuilder {
                                         ));
                                     }
                                 });
+                            } else {
+                                return Err(Error::new(
+                                    builder.span(),
+                                    "endianness must use a literal str ex. `endianness = \"be\"`",
+                                ));
                             }
                         }
                         "bit_length" => {
-- 
2.43.0


From a71457df26476d6ae568f49c04b5c19d010d212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 29/41] fix: misspelled field settings without a value are
 ignored

---
 bondrewd-derive/src/structs/parse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index ed5dd6c..a2c0bf6 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -611,7 +611,13 @@ impl FieldAttrBuilder {
                             builder.overlap = OverlapOptions::Redundant;
                             builder.reserve = ReserveFieldOption::ReadOnly;
                         }
-                        _ => {}
+                        "bondrewd" => {}
+                        _ => {
+                            return Err(Error::new(
+                                builder.span(),
+                                format!("\"{}\" is not a valid attribute", ident),
+                            ));
+                        }
                     }
                 }
             }
-- 
2.43.0


From 677171e0b88d8003c3243af76bcea7ef44dd71c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 30/41] fix: huge sizes overflow while they are turned into
 bits

---
 bondrewd-derive/src/structs/common.rs | 23 ++++++++++++++---------
 bondrewd-derive/src/structs/parse.rs  | 23 +++++++++++++----------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 20f11ab..b1326d3 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -7,7 +7,12 @@ use std::ops::Range;
 use std::str::FromStr;
 use syn::parse::Error;
 use syn::spanned::Spanned;
-use syn::{Attribute, DeriveInput, Expr, Fields, Ident, Lit, Meta, NestedMeta, Type};
+use syn::{Attribute, DeriveInput, Expr, Fields, Ident, Lit, LitInt, Meta, NestedMeta, Type};
+
+/// Returns the given size, which must be small enough to be counted in bits.
+pub fn parse_size(size: &LitInt) -> syn::Result<usize> {
+    Ok(size.base10_parse::<u32>()? as usize)
+}
 
 /// Returns a u8 mask with provided `num` amount of 1's on the left side (most significant bit)
 pub fn get_left_and_mask(num: usize) -> u8 {
@@ -239,7 +244,7 @@ impl FieldDataType {
                 // arrays must use a literal for length, because its would be hard any other way.
                 if let syn::Expr::Lit(ref lit_expr) = array_path.len {
                     if let syn::Lit::Int(ref lit_int) = lit_expr.lit {
-                        if let Ok(array_length) = lit_int.base10_parse::<usize>() {
+                        if let Ok(array_length) = parse_size(lit_int) {
                             if array_length == 0 {
                                 return Err(Error::new(
                                     array_path.bracket_token.span,
@@ -1661,7 +1666,7 @@ impl ObjectInfo {
             Meta::NameValue(value) => {
                 if value.path.is_ident("id_bit_length") {
                     if let Lit::Int(ref val) = value.lit {
-                        match val.base10_parse::<usize>() {
+                        match parse_size(val) {
                             Ok(value) => {
                                 if value > 128 {
                                     return Err(syn::Error::new(
@@ -1686,7 +1691,7 @@ impl ObjectInfo {
                     }
                 } else if value.path.is_ident("id_byte_length") {
                     if let Lit::Int(ref val) = value.lit {
-                        match val.base10_parse::<usize>() {
+                        match parse_size(val) {
                             Ok(value) => {
                                 if value > 16 {
                                     return Err(syn::Error::new(
@@ -1711,7 +1716,7 @@ impl ObjectInfo {
                     }
                 } else if value.path.is_ident("payload_bit_length") {
                     if let Lit::Int(ref val) = value.lit {
-                        match val.base10_parse::<usize>() {
+                        match parse_size(val) {
                             Ok(value) => {
                                 enum_info.payload_bit_size = Some(value);
                             }
@@ -1730,7 +1735,7 @@ impl ObjectInfo {
                     }
                 } else if value.path.is_ident("payload_byte_length") {
                     if let Lit::Int(ref val) = value.lit {
-                        match val.base10_parse::<usize>() {
+                        match parse_size(val) {
                             Ok(value) => {
                                 enum_info.payload_bit_size = Some(value * 8);
                             }
@@ -1859,7 +1864,7 @@ impl ObjectInfo {
                     }
                 } else if value.path.is_ident("enforce_bytes") {
                     if let Lit::Int(ref val) = value.lit {
-                        match val.base10_parse::<usize>() {
+                        match parse_size(val) {
                             Ok(value) => {
                                 info.enforcement = StructEnforcement::EnforceBitAmount(value * 8);
                             }
@@ -1878,7 +1883,7 @@ impl ObjectInfo {
                     }
                 } else if value.path.is_ident("enforce_bits") {
                     if let Lit::Int(ref val) = value.lit {
-                        match val.base10_parse::<usize>() {
+                        match parse_size(val) {
                             Ok(value) => {
                                 info.enforcement = StructEnforcement::EnforceBitAmount(value);
                             }
@@ -1897,7 +1902,7 @@ impl ObjectInfo {
                     }
                 } else if value.path.is_ident("fill_bytes") {
                     if let Lit::Int(ref val) = value.lit {
-                        match val.base10_parse::<usize>() {
+                        match parse_size(val) {
                             Ok(value) => {
                                 if info.fill_bits.is_none() {
                                     info.fill_bits = Some(value * 8);
diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index a2c0bf6..31d2eea 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -6,7 +6,7 @@ use syn::{Ident, Lit, Meta, NestedMeta};
 
 use crate::structs::common::{Endianness, FieldAttrs, FieldInfo, ReserveFieldOption};
 
-use super::common::OverlapOptions;
+use super::common::{parse_size, OverlapOptions};
 
 pub struct TryFromAttrBuilderError {
     pub endianness: Box<Endianness>,
@@ -164,7 +164,7 @@ impl FieldAttrBuilder {
                         "bit_length" => {
                             if let FieldBuilderRange::None = builder.bit_range {
                                 if let Lit::Int(val) = value.lit {
-                                    match val.base10_parse::<usize>() {
+                                    match parse_size(&val) {
                                         Ok(bit_length) => {
                                             let mut start = 0;
                                             if let Some(last_value) = last_field {
@@ -197,7 +197,7 @@ impl FieldAttrBuilder {
                         "byte_length" => {
                             if let FieldBuilderRange::None = builder.bit_range {
                                 if let Lit::Int(val) = value.lit {
-                                    match val.base10_parse::<usize>() {
+                                    match parse_size(&val) {
                                         Ok(byte_length) => {
                                             let mut start = 0;
                                             if let Some(last_value) = last_field {
@@ -262,7 +262,7 @@ impl FieldAttrBuilder {
                         }
                         "struct_size" => {
                             if let Lit::Int(val) = value.lit {
-                                let mut ty = Some(match val.base10_parse::<usize>() {
+                                let mut ty = Some(match parse_size(&val) {
                                     Ok(byte_length) => FieldAttrBuilderType::Struct(byte_length),
                                     Err(err) => {
                                         return Err(Error::new(
@@ -294,7 +294,10 @@ impl FieldAttrBuilder {
                                 let val_string = val.value();
                                 let split = val_string.split("..").collect::<Vec<&str>>();
                                 if split.len() == 2 {
-                                    match (split[0].parse::<usize>(), split[1].parse::<usize>()) {
+                                    match (
+                                        split[0].parse::<u32>().map(|bit| bit as usize),
+                                        split[1].parse::<u32>().map(|bit| bit as usize),
+                                    ) {
                                         (Ok(start), Ok(end)) if end < start => {
                                             return Err(Error::new(
                                                 builder.span(),
@@ -352,7 +355,7 @@ impl FieldAttrBuilder {
                         }
                         "element_bit_length" => {
                             if let Lit::Int(val) = value.lit {
-                                match val.base10_parse::<usize>() {
+                                match parse_size(&val) {
                                     Ok(bit_length) => {
                                         builder.bit_range = match std::mem::take(&mut builder.bit_range) {
                                             FieldBuilderRange::None => {
@@ -401,7 +404,7 @@ impl FieldAttrBuilder {
                         }
                         "element_byte_length" => {
                             if let Lit::Int(val) = value.lit {
-                                match val.base10_parse::<usize>() {
+                                match parse_size(&val) {
                                     Ok(byte_length) => {
                                         builder.bit_range = match std::mem::take(&mut builder.bit_range) {
                                             FieldBuilderRange::None => {
@@ -450,7 +453,7 @@ impl FieldAttrBuilder {
                         }
                         "block_bit_length" => {
                             if let Lit::Int(val) = value.lit {
-                                match val.base10_parse::<usize>() {
+                                match parse_size(&val) {
                                     Ok(bit_length) => {
                                         builder.bit_range = match std::mem::take(&mut builder.bit_range) {
                                             FieldBuilderRange::None => {
@@ -506,7 +509,7 @@ impl FieldAttrBuilder {
                         }
                         "block_byte_length" => {
                             if let Lit::Int(val) = value.lit {
-                                match val.base10_parse::<usize>() {
+                                match parse_size(&val) {
                                     Ok(byte_length) => {
                                         builder.bit_range = match std::mem::take(&mut builder.bit_range) {
                                             FieldBuilderRange::None => {
@@ -562,7 +565,7 @@ impl FieldAttrBuilder {
                         }
                         "overlapping_bits" => {
                             if let Lit::Int(val) = value.lit {
-                                match val.base10_parse::<usize>() {
+                                match parse_size(&val) {
                                     Ok(bits) => builder.overlap = OverlapOptions::Allow(bits),
                                     Err(err) => {
                                         return Err(Error::new(
-- 
2.43.0


From 67d4020e9bfc36baf31c06480fdb5c8d8bf0889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 31/41] fix: numbers of byte enums which do not fit a byte wrap
 around

---
 bondrewd-derive/src/enums/parse.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 5445ced..0ab94fe 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -613,6 +613,21 @@ impl EnumInfo {
             },
             variants,
         };
+        // values which do not fit would silently be those of other variants.
+        if info.primitive == "u8" {
+            for variant in info.variants.iter() {
+                if let EnumVariantType::UnsignedValue(ref lit)
+                | EnumVariantType::CatchAll(ref lit) = variant.value
+                {
+                    if lit.to_string().parse::<u8>().is_err() {
+                        return Err(syn::Error::new(
+                            variant.name.span(),
+                            format!("{lit} can not be stored in a u8"),
+                        ));
+                    }
+                }
+            }
+        }
 
         Ok(info)
     }
-- 
2.43.0


From fd0463fe3b6cc1820cd7700e6dae2da5e6a5ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 32/41] fix: a second catch-all of a byte enum is ignored

---
 bondrewd-derive/src/enums/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 0ab94fe..7aae297 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -398,7 +398,7 @@ impl EnumInfo {
                         }
                     } else {
                         // This is one of the possible variants to use, check for a custom discriminant
-                         if invalid_found.is_none() && Self::parse_attrs(&var.attrs, var, &mut primitive_type, &mut invalid_found)? {
+                         if Self::parse_attrs(&var.attrs, var, &mut primitive_type, &mut invalid_found)? {
                             if let Some((_, ref discriminant)) = var.discriminant {
                                 // Parse the discriminant and validate its able to be used
                                 let discriminant_val = Self::parse_lit_discriminant_expr(discriminant)?;
-- 
2.43.0


From 5cb6fd762a991e2e4dbb06ac7164fa03eb0dfe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 33/41] fix: byte enums without variants crash the macro

---
 bondrewd-derive/src/enums/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 7aae297..23c32bc 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -300,6 +300,9 @@ impl EnumInfo {
         let mut unknown_variants: std::collections::VecDeque<EnumVariantBuilder> =
             Default::default();
         let mut invalid_found: Option<EnumVariantBuilder> = None;
+        if data.variants.is_empty() {
+            return Err(Error::new(input.span(), "enums must have at least one variant"));
+        }
         let last_variant = data.variants.len() - 1;
         for (var, i) in data.variants.iter().zip(0..data.variants.len()) {
             let test_len = literal_variants.len() + unknown_variants.len();
-- 
2.43.0


From 7bc3af326ca719b706b40f9e92b87a6d2b09ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 34/41] fix: byte enums with all of their 256 values are
 refused

---
 bondrewd-derive/src/enums/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 23c32bc..e23a693 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -600,10 +600,10 @@ impl EnumInfo {
                 }
             } else {
                 match variants.len() {
-                    0_usize..=255_usize => {
+                    0_usize..=256_usize => {
                         format_ident!("u8")
                     }
-                    256_usize..=65535 => {
+                    257_usize..=65535 => {
                         format_ident!("u16")
                     }
                     65536..=4294967296 => {
-- 
2.43.0


From b87a082bbab58c37add17a9369be5d989bd626f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 35/41] fix: write_slice functions of fields named slice_length
 write the length of the slice

---
 bondrewd-derive/src/structs/into_bytes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 8c5b357..1b1369f 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -381,9 +381,9 @@ fn make_set_slice_fn(
         #[inline]
         #[doc = #comment]
         pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> Result<(), bondrewd::BitfieldLengthError> {
-            let slice_length = output_byte_buffer.len();
-            if slice_length < #min_length {
-                Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
+            // the name of the field is the users choice, do not hide it behind another variable.
+            if output_byte_buffer.len() < #min_length {
+                Err(bondrewd::BitfieldLengthError(output_byte_buffer.len(), #min_length))
             } else {
                 #clear_quote
                 #field_quote
-- 
2.43.0


From 9b90c69d6b4aa566fa3369c56ffc0a34b20de154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 36/41] fix: generated functions do not compile next to another
 Result

---
 bondrewd-derive/src/structs/from_bytes.rs | 38 +++++++++++------------
 bondrewd-derive/src/structs/into_bytes.rs | 12 +++----
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 2b9d261..357faba 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -86,14 +86,14 @@ fn get_check_slice_fn(
     );
     quote! {
         #[doc = #comment]
-        pub fn check_slice(buffer: &[u8]) -> Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice(buffer: &[u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #check_size {
-                Ok(#checked_ident {
+                core::result::Result::Ok(#checked_ident {
                     buffer
                 })
             }else{
-                Err(bondrewd::BitfieldLengthError(buf_len, #check_size))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(buf_len, #check_size))
             }
         }
     }
@@ -391,27 +391,27 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let #v_id = Self::#v_id_slice_call(&input_byte_buffer)?;
                 let out = match #v_id {
                     #from_vec_fn
                 };
                 let _ = input_byte_buffer.drain(..Self::BYTE_SIZE);
-                Ok(out)
+                core::result::Result::Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let #v_id = Self::#v_id_slice_call(&input_byte_buffer)?;
                 let out = match #v_id {
                     #from_vec_fn
                 };
-                Ok(out)
+                core::result::Result::Ok(out)
             }
         };
         Ok(FromBytesOptions {
@@ -466,9 +466,9 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let out = {
                     #from_vec_fn
@@ -477,12 +477,12 @@ pub fn create_from_bytes_field_quotes(
                     }
                 };
                 let _ = input_byte_buffer.drain(..Self::BYTE_SIZE);
-                Ok(out)
+                core::result::Result::Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let out = {
                     #from_vec_fn
@@ -490,7 +490,7 @@ pub fn create_from_bytes_field_quotes(
                         #from_bytes_struct_quote
                     }
                 };
-                Ok(out)
+                core::result::Result::Ok(out)
             }
         };
         Ok(FromBytesOptions {
@@ -536,12 +536,12 @@ fn make_peek_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> Result<#type_ident, bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> core::result::Result<#type_ident, bondrewd::BitfieldLengthError> {
             let slice_length = input_byte_buffer.len();
             if slice_length < #min_length {
-                Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
             } else {
-                Ok(
+                core::result::Result::Ok(
                     #field_quote
                 )
             }
@@ -649,7 +649,7 @@ fn get_field_quote(
         }
         FieldDataType::Char(_, _) => {
             quote! {
-                if let Some(c) = char::from_u32({
+                if let core::option::Option::Some(c) = char::from_u32({
                     #value_retrieval
                 }) {
                     c
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 1b1369f..50b8152 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -24,14 +24,14 @@ fn make_checked_mut_func(name: &Ident, struct_size: usize) -> TokenStream {
     let comment = format!("Returns a [{checked_ident}] which allows you to read/write any field for a `{name}` from/to provided mutable slice.");
     quote! {
         #[doc = #comment]
-        pub fn check_slice_mut(buffer: &mut [u8]) -> Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice_mut(buffer: &mut [u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #struct_size {
-                Ok(#checked_ident {
+                core::result::Result::Ok(#checked_ident {
                     buffer
                 })
             }else{
-                Err(bondrewd::BitfieldLengthError(buf_len, #struct_size))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(buf_len, #struct_size))
             }
         }
     }
@@ -380,14 +380,14 @@ fn make_set_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> Result<(), bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> core::result::Result<(), bondrewd::BitfieldLengthError> {
             // the name of the field is the users choice, do not hide it behind another variable.
             if output_byte_buffer.len() < #min_length {
-                Err(bondrewd::BitfieldLengthError(output_byte_buffer.len(), #min_length))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(output_byte_buffer.len(), #min_length))
             } else {
                 #clear_quote
                 #field_quote
-                Ok(())
+                core::result::Result::Ok(())
             }
         }
     })
-- 
2.43.0


From 7ad9e29d8fa01a755d072fad33c74a3c05637a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 37/41] fix: reserve fields and ids do not compile next to
 another Default or PartialEq

---
 bondrewd-derive/src/lib.rs                | 2 +-
 bondrewd-derive/src/structs/from_bytes.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 6730de6..5a85356 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1930,7 +1930,7 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
             #[cfg(feature = "part_eq_enums")]
             let to_bytes_quote = quote! {
                 #to_bytes_quote
-                impl PartialEq<#id_ident> for #struct_name {
+                impl core::cmp::PartialEq<#id_ident> for #struct_name {
                     fn eq(&self, other: &#id_ident) -> bool {
                         self.id() == *other
                     }
diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 357faba..6c2a138 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -185,7 +185,7 @@ fn create_fields_quotes(
                         let #field_name = Self::#fn_field_name(&input_byte_buffer);
                     }
                 } else {
-                    quote! { let #field_name = Default::default(); }
+                    quote! { let #field_name = core::default::Default::default(); }
                 }
             };
             from_bytes_quote = quote! {
@@ -196,7 +196,7 @@ fn create_fields_quotes(
             let from_vec_value = if field.attrs.reserve.read_field() {
                 field_extractor
             } else {
-                quote! { Default::default() }
+                quote! { core::default::Default::default() }
             };
             from_vec_quote = quote! {
                 #from_vec_quote
-- 
2.43.0


From 30132504edce474197b50d17456941878a46f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 38/41] fix: variants with raw names make the macro panic

---
 bondrewd-derive/src/structs/from_bytes.rs | 6 +++---
 bondrewd-derive/src/structs/into_bytes.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 6c2a138..e215f43 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -8,7 +8,7 @@ use crate::structs::common::{
 use convert_case::{Case, Casing};
 use proc_macro2::{Ident, TokenStream};
 use quote::{format_ident, quote};
-use syn::{token::Pub, VisPublic};
+use syn::{ext::IdentExt, token::Pub, VisPublic};
 
 use super::common::{EnumInfo, NumberSignage};
 
@@ -108,7 +108,7 @@ fn create_fields_quotes(
     let lower_name = if enum_name.is_some() {
         Some(format_ident!(
             "{}",
-            info.name.to_string().to_case(Case::Snake)
+            info.name.unraw().to_string().to_case(Case::Snake)
         ))
     } else {
         None
@@ -285,7 +285,7 @@ pub fn create_from_bytes_field_quotes_enum(
         // this is the slice indexing that will fool the set function code into thinking
         // it is looking at a smaller array.
         let v_name = &variant.name;
-        let upper_v_name = v_name.to_string().to_case(Case::UpperSnake);
+        let upper_v_name = v_name.unraw().to_string().to_case(Case::UpperSnake);
         let v_byte_const_name = format_ident!("{upper_v_name}_BYTE_SIZE");
         let v_bit_const_name = format_ident!("{upper_v_name}_BIT_SIZE");
         let v_byte_size = variant.total_bytes();
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 50b8152..c8a4037 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -7,7 +7,7 @@ use crate::structs::common::{
 use convert_case::{Case, Casing};
 use proc_macro2::{Ident, TokenStream};
 use quote::{format_ident, quote};
-use syn::{token::Pub, VisPublic};
+use syn::{ext::IdentExt, token::Pub, VisPublic};
 
 use super::common::EnumInfo;
 
@@ -52,7 +52,7 @@ fn create_fields_quotes(
     let lower_name = if enum_name.is_some() {
         Some(format_ident!(
             "{}",
-            info.name.to_string().to_case(Case::Snake)
+            info.name.unraw().to_string().to_case(Case::Snake)
         ))
     } else {
         None
-- 
2.43.0


From 0e38486e49727e3d4a3f96c6c079885cd53c4471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 39/41] fix: refuse field settings of a wrong form instead of
 ignoring them

---
 bondrewd-derive/src/structs/parse.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/parse.rs b/bondrewd-derive/src/structs/parse.rs
index 31d2eea..02f6dd5 100644
--- a/bondrewd-derive/src/structs/parse.rs
+++ b/bondrewd-derive/src/structs/parse.rs
@@ -591,6 +591,8 @@ impl FieldAttrBuilder {
                             }
                         }
                     }
+                } else {
+                    return Err(Self::not_an_attribute(builder, &value.path));
                 }
             }
             Meta::Path(path) => {
@@ -622,6 +624,8 @@ impl FieldAttrBuilder {
                             ));
                         }
                     }
+                } else {
+                    return Err(Self::not_an_attribute(builder, &path));
                 }
             }
             Meta::List(meta_list) => {
@@ -631,14 +635,29 @@ impl FieldAttrBuilder {
                             NestedMeta::Meta(meta) => {
                                 Self::parse_meta(meta, last_field, builder)?;
                             }
-                            NestedMeta::Lit(_) => {}
+                            NestedMeta::Lit(_) => {
+                                return Err(Error::new(
+                                    builder.span(),
+                                    "a literal is not a valid attribute",
+                                ));
+                            }
                         }
                     }
+                } else {
+                    return Err(Self::not_an_attribute(builder, &meta_list.path));
                 }
             }
         }
         Ok(())
     }
+
+    fn not_an_attribute(builder: &Self, path: &syn::Path) -> Error {
+        let name: Vec<_> = path.segments.iter().map(|x| x.ident.to_string()).collect();
+        Error::new(
+            builder.span(),
+            format!("\"{}\" is not a valid attribute in this form", name.join("::")),
+        )
+    }
 }
 
 impl TryInto<FieldAttrs> for FieldAttrBuilder {
-- 
2.43.0


From 67fbb8adafdd0d251138d26bdb7f7e2ac739ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 40/41] fix: other methods named into_bytes, from_bytes,
 into_primitive or from_primitive of a nested type are called

---
 bondrewd-derive/src/structs/from_bytes.rs |  6 +++---
 bondrewd-derive/src/structs/into_bytes.rs | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index e215f43..f161a54 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -659,10 +659,10 @@ fn get_field_quote(
             }
         }
         FieldDataType::Enum(_, _, ref ident) => {
-            quote! {#ident::from_primitive(#value_retrieval)}
+            quote! {<#ident as bondrewd::BitfieldEnum>::from_primitive(#value_retrieval)}
         }
-        FieldDataType::Struct(_, ref ident) => {
-            quote! {#ident::from_bytes({#value_retrieval})}
+        FieldDataType::Struct(ref size, ref ident) => {
+            quote! {<#ident as bondrewd::Bitfields<#size>>::from_bytes({#value_retrieval})}
         }
         _ => {
             quote! {#value_retrieval}
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index c8a4037..d14d03e 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -476,11 +476,11 @@ fn get_field_quote(
                 quote! {(#field_name as u32)}
             }
         }
-        FieldDataType::Enum(_, _, _) => {
+        FieldDataType::Enum(_, _, ref ident) => {
             if with_self {
-                quote! {((self.#field_name).into_primitive())}
+                quote! {(<#ident as bondrewd::BitfieldEnum>::into_primitive(self.#field_name))}
             } else {
-                quote! {((#field_name).into_primitive())}
+                quote! {(<#ident as bondrewd::BitfieldEnum>::into_primitive(#field_name))}
             }
         }
         FieldDataType::ElementArray(_, _, _) => {
@@ -899,8 +899,8 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Char(_, _) => return Err(syn::Error::new(field.span(), "Char was not given Endianness, please report this.")),
             FieldDataType::Boolean => return Err(syn::Error::new(field.span(), "matched a boolean data type in generate code for bits that span multiple bytes in the output")),
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.span(), "Enum was not given Endianness, please report this.")),
-            FieldDataType::Struct(ref size, _) => {
-                let field_call = quote!{#field_access_quote.into_bytes()};
+            FieldDataType::Struct(ref size, ref ident) => {
+                let field_call = quote!{<#ident as bondrewd::Bitfields<#size>>::into_bytes(#field_access_quote)};
                 let apply_field_to_buffer = quote! {
                     let mut #field_buffer_name = #field_call
                 };
@@ -1084,9 +1084,9 @@ fn apply_ne_math_to_field_access_quote(
             }
             FieldDataType::Char(_, _) => return Err(syn::Error::new(field.ident.span(), "Char not supported for single byte insert logic")),
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.ident.span(), "Enum was given Endianness which should be described by the struct implementing Bitfield")),
-            FieldDataType::Struct(_, _) => {
+            FieldDataType::Struct(ref size, ref ident) => {
                 let used_bits_in_byte = 8 - available_bits_in_first_byte;
-                quote!{output_byte_buffer[#starting_inject_byte] |= ((#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte) & #mask;}
+                quote!{output_byte_buffer[#starting_inject_byte] |= ((<#ident as bondrewd::Bitfields<#size>>::into_bytes(#field_access_quote)[0]) >> #used_bits_in_byte) & #mask;}
             }
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
-- 
2.43.0


From 8d205738aa39e936b274553cb45810d67e5aab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 41/41] fix: from_slice and from_vec use a BYTE_SIZE of the
 user's own and need the traits in scope

---
 bondrewd-derive/src/structs/from_bytes.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index f161a54..c35e7cd 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -392,20 +392,20 @@ pub fn create_from_bytes_field_quotes_enum(
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
             fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
-                if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                if input_byte_buffer.len() < #struct_size {
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), #struct_size));
                 }
                 let #v_id = Self::#v_id_slice_call(&input_byte_buffer)?;
                 let out = match #v_id {
                     #from_vec_fn
                 };
-                let _ = input_byte_buffer.drain(..Self::BYTE_SIZE);
+                let _ = input_byte_buffer.drain(..#struct_size);
                 core::result::Result::Ok(out)
             }
             #[doc = #comment]
             fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
-                if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                if input_byte_buffer.len() < #struct_size {
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), #struct_size));
                 }
                 let #v_id = Self::#v_id_slice_call(&input_byte_buffer)?;
                 let out = match #v_id {
@@ -467,8 +467,8 @@ pub fn create_from_bytes_field_quotes(
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
             fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
-                if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                if input_byte_buffer.len() < #struct_size {
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), #struct_size));
                 }
                 let out = {
                     #from_vec_fn
@@ -476,13 +476,13 @@ pub fn create_from_bytes_field_quotes(
                         #from_bytes_struct_quote
                     }
                 };
-                let _ = input_byte_buffer.drain(..Self::BYTE_SIZE);
+                let _ = input_byte_buffer.drain(..#struct_size);
                 core::result::Result::Ok(out)
             }
             #[doc = #comment]
             fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
-                if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                if input_byte_buffer.len() < #struct_size {
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), #struct_size));
                 }
                 let out = {
                     #from_vec_fn
-- 
2.43.0

