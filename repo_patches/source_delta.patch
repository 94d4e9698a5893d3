From 5e824716362132e0355b5d44529152efa5d0d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 01/20] fix: remove leading zeroes of integers iteratively

The recursive version used one stack frame per zero octet, so a long
zero-filled INTEGER overflowed the stack in unoptimized builds.
---
 src/ber/integer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ber/integer.rs b/src/ber/integer.rs
index 2ddb2a0..9e5d138 100644
--- a/src/ber/integer.rs
+++ b/src/ber/integer.rs
@@ -5,16 +5,16 @@ use crate::error::*;
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn remove_zeroes(bytes: &[u8]) -> Result<&[u8], BerError> {
-    // skip leading 0s
-    match bytes {
-        // [] => Err(BerError::DerConstraintFailed),
-        [0] => Ok(bytes),
-        // [0, byte, ..] if *byte < 0x80 => Err(BerError::DerConstraintFailed),
-        // [0, rest @ ..] => Ok(&rest),
-        [0, rest @ ..] => remove_zeroes(rest),
-        // [byte, ..] if *byte >= 0x80 => Err(BerError::IntegerTooLarge),
-        _ => Ok(bytes),
+    // skip leading 0s, keeping at least one byte
+    // (not recursive: the number of leading zeroes is chosen by the sender)
+    let mut bytes = bytes;
+    while let [0, rest @ ..] = bytes {
+        if rest.is_empty() {
+            break;
+        }
+        bytes = rest;
     }
+    Ok(bytes)
 }
 
 // XXX const generics require rustc >= 1.51
-- 
2.43.0


From 601034828f11e3b907289504b7ed3b9396fee039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:21 +0000
Subject: [PATCH 02/20] fix: return IntegerTooLarge from as_i32/as_i64 instead
 of wrapping

A positive integer above the maximum of the signed type was returned as a
negative number (00 ff ff ff ff read as i32 gave -1).
---
 src/ber/ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 47bb2d6..fed4f9e 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -414,7 +414,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i64>::from_be_bytes(decode_array_int8(bytes)?)
             } else {
-                <u64>::from_be_bytes(decode_array_uint8(bytes)?) as i64
+                i64::try_from(<u64>::from_be_bytes(decode_array_uint8(bytes)?))
+                    .or(Err(BerError::IntegerTooLarge))?
             };
             Ok(result)
         } else {
@@ -441,7 +442,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i32>::from_be_bytes(decode_array_int4(bytes)?)
             } else {
-                <u32>::from_be_bytes(decode_array_uint4(bytes)?) as i32
+                i32::try_from(<u32>::from_be_bytes(decode_array_uint4(bytes)?))
+                    .or(Err(BerError::IntegerTooLarge))?
             };
             Ok(result)
         } else {
-- 
2.43.0


From cbff6b10b575a9c3dc9f07919f38d0f7deaade6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 03/20] fix: reject an empty DER bit string before reading its
 first octet

The unused-bits octet was read from whatever follows the element: at the
end of the buffer the (complete) element was reported as incomplete.
---
 src/der/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 9a35b64..585b8c3 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -583,6 +583,9 @@ fn der_read_element_content_recursive<'a>(
 }
 
 fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectContent<'_>> {
+    if len == 0 {
+        return Err(Err::Error(BerError::InvalidLength));
+    }
     let (i, ignored_bits) = be_u8(i)?;
     if ignored_bits > 7 {
         return Err(Err::Error(BerError::invalid_value(
@@ -590,9 +593,6 @@ fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectCo
             "More than 7 unused bits".to_owned(),
         )));
     }
-    if len == 0 {
-        return Err(Err::Error(BerError::InvalidLength));
-    }
     let (i, data) = take(len - 1)(i)?;
     if len > 1 {
         let mut last_byte = data[len - 2];
-- 
2.43.0


From 43efea956886df122c6ac3391fc0ce50dd894dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 04/20] fix: verify DER constraints of elements nested in
 sequences and sets

The content of sequences and sets was parsed with the BER rules, so
parse_der accepted nested indefinite lengths, booleans other than 00/ff,
integers with leading zeroes, etc. The depth limit is now checked in the
same place for all types, including bit strings.
---
 src/der/parser.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 585b8c3..03740e9 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -485,6 +485,7 @@ pub fn der_read_element_content_as(
     constructed: bool,
     max_depth: usize,
 ) -> BerResult<'_, DerObjectContent<'_>> {
+    custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
     // Indefinite lengths are not allowed in DER (X.690 section 10.1)
     let l = length.definite()?;
     if i.len() < l {
@@ -542,11 +543,41 @@ pub fn der_read_element_content_as(
                 )));
             }
         }
+        Tag::Sequence | Tag::Set => {
+            custom_check!(i, !constructed, BerError::ConstructExpected)?;
+            // the constraints also apply to nested elements
+            let (rem, data) = take(l)(i)?;
+            let objects = der_read_nested_elements(data, max_depth - 1)?;
+            let content = if tag == Tag::Sequence {
+                DerObjectContent::Sequence(objects)
+            } else {
+                DerObjectContent::Set(objects)
+            };
+            return Ok((rem, content));
+        }
         _ => (),
     }
     ber_read_element_content_as(i, tag, length, constructed, max_depth)
 }
 
+/// Read all DER elements contained in `data`
+///
+/// `data` is the complete content of an object, so a truncated element is an error
+fn der_read_nested_elements(
+    data: &[u8],
+    max_depth: usize,
+) -> Result<Vec<DerObject<'_>>, Err<BerError>> {
+    let mut objects = Vec::new();
+    let mut rem = data;
+    while !rem.is_empty() {
+        let (next, obj) =
+            parse_der_recursive(rem, max_depth).map_err(|e| Err::Error(BerError::from(e)))?;
+        objects.push(obj);
+        rem = next;
+    }
+    Ok(objects)
+}
+
 /// Parse DER object content recursively
 ///
 /// *Note: an error is raised if recursion depth exceeds `MAX_RECURSION`.
-- 
2.43.0


From 5d8268b7c0e4f005c4dc980242ecff40a7ef6441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 05/20] fix: use the DER tagged parsers in
 parse_der_explicit_optional/implicit

They delegated to the BER versions, and accepted indefinite lengths.
---
 src/der/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 03740e9..2cdcc8c 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -313,7 +313,12 @@ pub fn parse_der_explicit_optional<F>(i: &[u8], tag: Tag, f: F) -> DerResult<'_>
 where
     F: Fn(&[u8]) -> DerResult,
 {
-    parse_ber_explicit_optional(i, tag, f)
+    parse_ber_optional(parse_der_tagged_explicit_g(tag, |content, hdr| {
+        let (rem, obj) = f(content)?;
+        let content = DerObjectContent::Tagged(hdr.class(), hdr.tag(), Box::new(obj));
+        let tagged = DerObject::from_header_and_content(hdr, content);
+        Ok((rem, tagged))
+    }))(i)
 }
 
 /// Parse an implicit tagged object, applying function to read content
@@ -361,7 +366,7 @@ where
     F: Fn(&'a [u8], &'_ Header, usize) -> BerResult<'a, DerObjectContent<'a>>,
     T: Into<Tag>,
 {
-    parse_ber_implicit(i, tag, f)
+    parse_der_tagged_implicit(tag, f)(i)
 }
 
 /// Parse DER object and try to decode it as a 32-bits signed integer
-- 
2.43.0


From 0d0892fa67cad86475b8b62a691ea53a19aab28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:06 +0000
Subject: [PATCH 06/20] fix: end indefinite-length content only at the
 end-of-contents octets

Any element with tag number 0 and length 0 was taken for the marker, whatever
its class and form: an empty [0] IMPLICIT element inside an indefinite-length
object cut the object short and desynchronized the rest of the stream. The
marker also counted as a nesting level of its own.
---
 src/ber/parser.rs   | 20 +++++++++-----------
 src/ber/wrap_any.rs | 40 ++++++++++++++++++++++------------------
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 7aea9cd..1364a43 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -10,22 +10,19 @@ pub const MAX_RECURSION: usize = 50;
 /// Default maximum object size (2^32)
 pub const MAX_OBJECT_SIZE: usize = 4_294_967_295;
 
-/// Skip object content, and return true if object was End-Of-Content
+/// Skip object content
 pub(crate) fn ber_skip_object_content<'a>(
     i: &'a [u8],
     hdr: &Header,
     max_depth: usize,
-) -> BerResult<'a, bool> {
+) -> BerResult<'a, ()> {
     if max_depth == 0 {
         return Err(Err::Error(BerError::BerMaxDepth));
     }
     match hdr.length() {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag() == Tag::EndOfContent {
-                return Ok((i, true));
-            }
             let (i, _) = take(l)(i)?;
-            Ok((i, false))
+            Ok((i, ()))
         }
         Length::Indefinite => {
             if hdr.is_primitive() {
@@ -35,12 +32,13 @@ pub(crate) fn ber_skip_object_content<'a>(
             // this is recursive
             let mut i = i;
             loop {
-                let (i2, header2) = ber_read_element_header(i)?;
-                let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
-                if eoc {
-                    // return false, since top object was not EndOfContent
-                    return Ok((i3, false));
+                // only these two octets end the content: an element with tag 0 of another class,
+                // or in another form, is part of it (X.690 section 8.1.5)
+                if let [0, 0, rem @ ..] = i {
+                    return Ok((rem, ()));
                 }
+                let (i2, header2) = ber_read_element_header(i)?;
+                let (i3, _) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                 i = i3;
             }
         }
diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index 8d8a878..793e8a4 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -1,7 +1,7 @@
 use alloc::string::String;
 
 use super::{BerObject, BerObjectContent, BitStringObject};
-use crate::ber::{ber_get_object_content, MAX_OBJECT_SIZE};
+use crate::ber::{ber_get_object_content, ber_read_element_header, MAX_OBJECT_SIZE, MAX_RECURSION};
 use crate::error::{BerError, BerResult};
 use alloc::vec::Vec;
 use asn1_rs::*;
@@ -12,7 +12,7 @@ use rusticata_macros::custom_check;
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     any.header.assert_tag(tag)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
@@ -23,14 +23,30 @@ pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResu
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_r(i: &[u8], max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
 }
 
 /// Parse any BER object (not recursive)
 pub fn parse_ber_any(i: &[u8]) -> BerResult<'_, Any<'_>> {
-    Any::from_ber(i)
+    let (i, header) = ber_read_element_header(i)?;
+    let (rem, data) = ber_get_object_content(i, &header, MAX_RECURSION)?;
+    Ok((rem, Any::new(header, data)))
+}
+
+/// Read all BER elements contained in `data`
+///
+/// `data` is the complete content of an object, so a truncated element is an error
+fn read_nested_elements(data: &[u8], max_depth: usize) -> Result<Vec<BerObject<'_>>> {
+    let mut objects = Vec::new();
+    let mut rem = data;
+    while !rem.is_empty() {
+        let (next, any) = parse_ber_any(rem)?;
+        objects.push(try_berobject_from_any(any, max_depth)?);
+        rem = next;
+    }
+    Ok(objects)
 }
 
 macro_rules! from_obj {
@@ -144,24 +160,12 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
         }
         Tag::Sequence => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SequenceIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = read_nested_elements(any.data, max_depth - 1)?;
             Ok(obj_from(header, BerObjectContent::Sequence(objects)))
         }
         Tag::Set => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SetIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = read_nested_elements(any.data, max_depth - 1)?;
             Ok(obj_from(header, BerObjectContent::Set(objects)))
         }
         Tag::TeletexString => from_obj!(STRING TeletexString, T61String, any, header),
-- 
2.43.0


From c5181e175166d078f1b0fff790b5796101369ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:25 +0000
Subject: [PATCH 07/20] fix: report input that ends inside a multiple bytes tag
 as incomplete

The header parser returns InvalidTag in that case, so a receiver had to give
up on a valid message when a fragment ended there.
---
 src/ber/parser.rs | 17 ++++++++++++++++-
 src/der/parser.rs |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 1364a43..81bc3e1 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -2,7 +2,7 @@ use crate::ber::*;
 use crate::error::*;
 use asn1_rs::FromBer;
 use nom::bytes::streaming::take;
-use nom::{Err, Offset};
+use nom::{Err, Needed, Offset};
 
 /// Default maximum recursion limit
 pub const MAX_RECURSION: usize = 50;
@@ -112,9 +112,24 @@ pub(crate) fn bitstring_to_u64(
 /// ```
 #[inline]
 pub fn ber_read_element_header(i: &[u8]) -> BerResult<'_, Header<'_>> {
+    check_tag_complete(i)?;
     Header::from_ber(i)
 }
 
+/// Return `Incomplete` if input ends inside the tag (multiple bytes form)
+pub(crate) fn check_tag_complete(i: &[u8]) -> Result<(), Err<BerError>> {
+    // a tag has at most 5 bytes after the first one, longer values are not supported
+    match i {
+        [b0, rest @ ..] if b0 & 0x1f == 0x1f && rest.len() < 5 => {
+            if rest.iter().all(|b| b & 0x80 != 0) {
+                return Err(Err::Incomplete(Needed::new(1)));
+            }
+            Ok(())
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Parse the next bytes as the *content* of a BER object.
 ///
 /// Content type is *not* checked to match tag, caller is responsible of providing the correct tag
diff --git a/src/der/parser.rs b/src/der/parser.rs
index 2cdcc8c..2e8b4aa 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -664,5 +664,6 @@ fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectCo
 /// Read an object header (DER)
 #[inline]
 pub fn der_read_element_header(i: &[u8]) -> BerResult<'_, Header<'_>> {
+    check_tag_complete(i)?;
     Header::from_der(i)
 }
-- 
2.43.0


From 24eb49710b7e757c7c35f3d5ddc60bc13994e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 08/20] fix: report the number of missing bytes in BER content
 parsing

The full length of the content was reported as missing, even if a part of
it was available.
---
 src/ber/wrap_any.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index 793e8a4..ffbc1a6 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -81,7 +81,7 @@ pub(crate) fn try_read_berobjectcontent_as(
     if let Length::Definite(l) = length {
         custom_check!(i, l > MAX_OBJECT_SIZE, BerError::InvalidLength)?;
         if i.len() < l {
-            return Err(Err::Incomplete(Needed::new(l)));
+            return Err(Err::Incomplete(Needed::new(l - i.len())));
         }
     }
     let header = Header::new(Class::Universal, constructed, tag, length);
-- 
2.43.0


From 8c64989e063bde598288101e6750d5ce587f4092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:36 +0000
Subject: [PATCH 09/20] fix: encode tags above 30 instead of panicking

Objects with such tags can be parsed, but encoding them hit unimplemented!().
---
 src/ber/serialize.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index d446805..3f1fa42 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -44,12 +44,21 @@ pub fn ber_encode_header<'a, 'b: 'a, W: Write + 'a>(hdr: &'b Header) -> impl Ser
         // identifier octets (X.690 8.1.2)
         let class_u8 = (hdr.class() as u8) << 6;
         let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;
-        if hdr.tag().0 > 30 {
-            unimplemented!();
+        let tag = hdr.tag().0;
+        let mut identifier = Vec::new();
+        if tag <= 30 {
+            identifier.push(class_u8 | pc_u8 | (tag as u8));
+        } else {
+            // multiple bytes form (X.690 8.1.2.4): base 128, most significant group first
+            identifier.push(class_u8 | pc_u8 | 0x1f);
+            let groups = (38 - tag.leading_zeros()) / 7;
+            for n in (0..groups).rev() {
+                let more = if n > 0 { 0x80 } else { 0 };
+                identifier.push(more | ((tag >> (7 * n)) as u8 & 0x7f));
+            }
         }
-        let byte_0 = class_u8 | pc_u8 | (hdr.tag().0 as u8);
         // length octets (X.690 8.1.3)
-        tuple((be_u8(byte_0), encode_length(hdr.length())))(out)
+        tuple((slice(identifier), encode_length(hdr.length())))(out)
     }
 }
 
-- 
2.43.0


From 4453cdf46f4e642e262fbea7ccdae6822b7b6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:39 +0000
Subject: [PATCH 10/20] fix: encode end-of-contents as 00 00

An extra content octet was emitted (00 01 00).
---
 src/ber/serialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 3f1fa42..4c937dc 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -126,7 +126,7 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
     c: &'a BerObjectContent,
 ) -> impl SerializeFn<W> + 'a {
     move |out| match c {
-        BerObjectContent::EndOfContent => be_u8(0)(out),
+        BerObjectContent::EndOfContent => Ok(out),
         BerObjectContent::Boolean(b) => {
             let b0 = if *b { 0xff } else { 0x00 };
             be_u8(b0)(out)
-- 
2.43.0


From 1ae96e011231317444eebdc70b72888c20bf9761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:42 +0000
Subject: [PATCH 11/20] fix: encode the enumerated value 0 with one content
 octet

The content was empty, which is not a valid encoding.
---
 src/ber/serialize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 4c937dc..ea85c77 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -144,6 +144,8 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
                 .cloned()
                 .skip_while(|&b| b == 0)
                 .collect();
+            // the value 0 has one content octet (X.690 8.3.1 and 8.4)
+            let v = if v.is_empty() { vec![0] } else { v };
             slice(v)(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-- 
2.43.0


From 46fa7cede25cd29a681fa9b05eeb9aec9fb3c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 12/20] fix: encode an absent optional object as nothing

It was encoded as 00 00, an additional element (or an end-of-contents marker)
in the enclosing object.
---
 src/ber/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index ea85c77..779a385 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -209,6 +209,10 @@ pub fn ber_encode_object<'a, 'b: 'a, W: Write + Default + AsRef<[u8]> + 'a>(
     obj: &'b BerObject,
 ) -> impl SerializeFn<W> + 'a {
     move |out| {
+        // an absent value has no encoding
+        if let BerObjectContent::Optional(None) = obj.content {
+            return Ok(out);
+        }
         // XXX should we make an exception for tagged values here ?
         let v = gen_simple(ber_encode_object_content(&obj.content), W::default())?;
         let len = v.as_ref().len();
-- 
2.43.0


From ceac8de301b246717a05350921d81b6820ee3183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 13/20] fix: encode times in the format of their type

UTCTime was encoded with a 4-digits year (and did not parse any more), the
time zone was always replaced by Z, and fractions of a second lost their
leading zeroes (.005 became .5).
---
 src/ber/serialize.rs | 57 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 779a385..4d904de 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -1,7 +1,7 @@
 #![cfg(feature = "std")]
 use crate::ber::*;
 use crate::oid::Oid;
-use asn1_rs::ASN1DateTime;
+use asn1_rs::{ASN1DateTime, ASN1TimeZone};
 use cookie_factory::bytes::be_u8;
 use cookie_factory::combinator::slice;
 use cookie_factory::gen_simple;
@@ -9,6 +9,7 @@ use cookie_factory::multi::many_ref;
 use cookie_factory::sequence::tuple;
 use cookie_factory::{GenError, SerializeFn};
 use std::io::Write;
+use std::string::{String, ToString};
 
 fn encode_length<'a, W: Write + 'a, Len: Into<Length>>(len: Len) -> impl SerializeFn<W> + 'a {
     let l = len.into();
@@ -69,13 +70,58 @@ fn ber_encode_oid<'a, W: Write + 'a>(oid: &'a Oid) -> impl SerializeFn<W> + 'a {
     }
 }
 
-fn ber_encode_datetime<'a, W: Write + 'a>(time: &'a ASN1DateTime) -> impl SerializeFn<W> + 'a {
+fn ber_encode_utctime<'a, W: Write + 'a>(time: &'a ASN1DateTime) -> impl SerializeFn<W> + 'a {
     move |out| {
-        let s = format!("{}", time);
+        // YYMMDDhhmmss, the time zone is mandatory
+        let s = format!(
+            "{:02}{:02}{:02}{:02}{:02}{:02}{}",
+            time.year % 100,
+            time.month,
+            time.day,
+            time.hour,
+            time.minute,
+            time.second,
+            match time.tz {
+                ASN1TimeZone::Undefined => "Z".to_string(),
+                tz => timezone_to_string(tz),
+            }
+        );
+        slice(s)(out)
+    }
+}
+
+fn ber_encode_generalizedtime<'a, W: Write + 'a>(
+    time: &'a ASN1DateTime,
+) -> impl SerializeFn<W> + 'a {
+    move |out| {
+        // YYYYMMDDhhmmss[.fff]
+        let s = format!(
+            "{:04}{:02}{:02}{:02}{:02}{:02}{}{}",
+            time.year,
+            time.month,
+            time.day,
+            time.hour,
+            time.minute,
+            time.second,
+            time.millisecond
+                .map_or_else(String::new, |ms| format!(".{:03}", ms)),
+            timezone_to_string(time.tz)
+        );
         slice(s)(out)
     }
 }
 
+fn timezone_to_string(tz: ASN1TimeZone) -> String {
+    match tz {
+        ASN1TimeZone::Undefined => String::new(),
+        ASN1TimeZone::Z => "Z".to_string(),
+        ASN1TimeZone::Offset(hh, mm) => {
+            let sign = if hh < 0 { '-' } else { '+' };
+            format!("{}{:02}{:02}", sign, hh.unsigned_abs(), mm.unsigned_abs())
+        }
+    }
+}
+
 fn ber_encode_sequence<'a, W: Write + Default + AsRef<[u8]> + 'a>(
     v: &'a [BerObject],
 ) -> impl SerializeFn<W> + 'a {
@@ -149,9 +195,8 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
             slice(v)(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-        BerObjectContent::UTCTime(time) | BerObjectContent::GeneralizedTime(time) => {
-            ber_encode_datetime(time)(out)
-        }
+        BerObjectContent::UTCTime(time) => ber_encode_utctime(time)(out),
+        BerObjectContent::GeneralizedTime(time) => ber_encode_generalizedtime(time)(out),
         BerObjectContent::NumericString(s)
         | BerObjectContent::GeneralString(s)
         | BerObjectContent::ObjectDescriptor(s)
-- 
2.43.0


From 10fc24a1523e27afea9d700e9fe2a078ed485736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 14/20] fix: iterating over an empty sequence or set yields
 nothing

The consuming iterator returned the container itself as its only item.
---
 src/ber/ber.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index fed4f9e..4b294ab 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -786,8 +786,8 @@ impl<'a> Iterator for BerObjectIntoIterator<'a> {
         //     None
         // };
         let res = match self.val.content {
-            BerObjectContent::Sequence(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
-            BerObjectContent::Set(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
+            BerObjectContent::Sequence(ref v) => v.get(self.idx).cloned(),
+            BerObjectContent::Set(ref v) => v.get(self.idx).cloned(),
             _ => {
                 if self.idx == 0 {
                     Some(self.val.clone())
-- 
2.43.0


From 6f1ff0a138a001dda39f669797861b1d5a9446f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 15/20] fix: convert indefinite-length Any to BerObject

The content of such an object does not include the end-of-contents octets, but
the conversion searched for them and failed.
---
 src/ber/ber.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 4b294ab..17e5cee 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -728,10 +728,15 @@ impl<'a> TryFrom<Any<'a>> for BerObject<'a> {
 
     fn try_from(any: Any<'a>) -> Result<Self, Self::Error> {
         let (header, data) = (any.header, any.data);
+        // data is the content only, without end-of-contents octets
+        let length = match header.length() {
+            Length::Definite(l) => Length::Definite(l),
+            Length::Indefinite => Length::Definite(data.len()),
+        };
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            length,
             header.constructed(),
             MAX_RECURSION,
         )?;
@@ -745,10 +750,15 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for BerObject<'a> {
 
     fn try_from(any: &'b Any<'a>) -> Result<Self, Self::Error> {
         let (header, data) = (any.header.clone(), any.data);
+        // data is the content only, without end-of-contents octets
+        let length = match header.length() {
+            Length::Definite(l) => Length::Definite(l),
+            Length::Indefinite => Length::Definite(data.len()),
+        };
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            length,
             header.constructed(),
             MAX_RECURSION,
         )?;
-- 
2.43.0


From 961abc514aeafb4352782dde6665cca962954f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 16/20] fix: honour a depth limit above 50 for
 indefinite-length objects

parse_ber_recursive applied the default limit when searching for the end of
indefinite-length objects, whatever limit was requested.
---
 src/ber/wrap_any.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index ffbc1a6..653c835 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -12,7 +12,7 @@ use rusticata_macros::custom_check;
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = parse_ber_any(i)?;
+    let (rem, any) = read_any(i, max_depth)?;
     any.header.assert_tag(tag)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
@@ -23,15 +23,21 @@ pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResu
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_r(i: &[u8], max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = parse_ber_any(i)?;
+    let (rem, any) = read_any(i, max_depth)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
 }
 
 /// Parse any BER object (not recursive)
 pub fn parse_ber_any(i: &[u8]) -> BerResult<'_, Any<'_>> {
+    read_any(i, MAX_RECURSION)
+}
+
+fn read_any(i: &[u8], max_depth: usize) -> BerResult<'_, Any<'_>> {
     let (i, header) = ber_read_element_header(i)?;
-    let (rem, data) = ber_get_object_content(i, &header, MAX_RECURSION)?;
+    // finding the end of an indefinite-length object may require more levels than parsing it
+    let max_depth = max_depth.max(MAX_RECURSION);
+    let (rem, data) = ber_get_object_content(i, &header, max_depth)?;
     Ok((rem, Any::new(header, data)))
 }
 
@@ -42,7 +48,7 @@ fn read_nested_elements(data: &[u8], max_depth: usize) -> Result<Vec<BerObject<'
     let mut objects = Vec::new();
     let mut rem = data;
     while !rem.is_empty() {
-        let (next, any) = parse_ber_any(rem)?;
+        let (next, any) = read_any(rem, max_depth)?;
         objects.push(try_berobject_from_any(any, max_depth)?);
         rem = next;
     }
-- 
2.43.0


From 7fcef74a9b03edb9ea830053db8abdaeb763023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:22 +0000
Subject: [PATCH 17/20] fix: reject constructed octet strings in DER

---
 src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 2e8b4aa..ec32ea9 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -527,7 +527,8 @@ pub fn der_read_element_content_as(
                 _ => (),
             }
         }
-        Tag::NumericString
+        Tag::OctetString
+        | Tag::NumericString
         | Tag::VisibleString
         | Tag::PrintableString
         | Tag::Ia5String
-- 
2.43.0


From 69a473b4326c315ed28e0aae75c6ac8fa04b71ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 18/20] fix: print the type of sequences and sets from their
 content

---
 src/ber/print.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index 3553815..3a1e5de 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -3,7 +3,7 @@ use crate::ber::{BerObject, BerObjectContent};
 use alloc::string::{String, ToString};
 use alloc::vec;
 use alloc::vec::Vec;
-use asn1_rs::{Class, Header, Length, Tag};
+use asn1_rs::{Class, Header, Length};
 use core::fmt;
 use core::iter::FromIterator;
 use core::str;
@@ -174,7 +174,7 @@ impl fmt::Debug for PrettyBer<'_> {
             },
             BerObjectContent::Set(ref v) |
             BerObjectContent::Sequence(ref v)        => {
-                let ty = if self.obj.header.tag() == Tag::Sequence { "Sequence" } else { "Set" };
+                let ty = if let BerObjectContent::Set(_) = self.obj.content { "Set" } else { "Sequence" };
                 if self.is_recursive() {
                     writeln!(f, "{}[", ty)?;
                     for o in v {
-- 
2.43.0


From 671e006eec3faf80ecde18937b192207705d0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 19/20] fix: reject null and end-of-contents elements that have
 content

---
 src/ber/wrap_any.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index 653c835..0d6372f 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -135,7 +135,10 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
             let b = any.bool()?;
             Ok(obj_from(header, BerObjectContent::Boolean(b)))
         }
-        Tag::EndOfContent => Ok(obj_from(header, BerObjectContent::EndOfContent)),
+        Tag::EndOfContent => {
+            custom_check!(any.data, !any.data.is_empty(), BerError::InvalidLength)?;
+            Ok(obj_from(header, BerObjectContent::EndOfContent))
+        }
         Tag::Enumerated => {
             let obj = any.enumerated()?;
             Ok(obj_from(header, BerObjectContent::Enum(obj.0 as u64)))
@@ -151,7 +154,11 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
             let obj = obj_from(header, BerObjectContent::Integer(any.data));
             Ok(obj)
         }
-        Tag::Null => Ok(obj_from(header, BerObjectContent::Null)),
+        Tag::Null => {
+            // X.690 8.8.2: the contents octets shall not contain any octets
+            custom_check!(any.data, !any.data.is_empty(), BerError::InvalidLength)?;
+            Ok(obj_from(header, BerObjectContent::Null))
+        }
         Tag::NumericString => from_obj!(STRING NumericString, any, header),
         Tag::ObjectDescriptor => from_obj!(STRING ObjectDescriptor, any, header),
         Tag::OctetString => Ok(obj_from(header, BerObjectContent::OctetString(any.data))),
-- 
2.43.0


From b0478308beeada65ae753620bc8879833dc00757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:11 +0000
Subject: [PATCH 20/20] fix: print indentations above 65535 without panicking

Formatting widths are limited to 16 bits, the width argument panicked
above that.
---
 src/ber/print.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index 3a1e5de..7cee457 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -72,6 +72,14 @@ impl<'a> PrettyBer<'a> {
         }
     }
 
+    // note: a width argument (`{:1$}`) is limited to 65535 and panics above
+    fn write_indent(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        for _ in 0..self.indent {
+            f.write_str(" ")?;
+        }
+        Ok(())
+    }
+
     #[inline]
     fn is_recursive(&self) -> bool {
         self.is_flag_set(PrettyPrinterFlag::Recursive)
@@ -102,9 +110,7 @@ fn dbg_header(header: &Header, f: &mut fmt::Formatter) -> fmt::Result {
 impl fmt::Debug for PrettyBer<'_> {
     #[rustfmt::skip]
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if self.indent > 0 {
-            write!(f, "{:1$}", " ", self.indent)?;
-        };
+        self.write_indent(f)?;
         if self.flags.contains(&PrettyPrinterFlag::ShowHeader) {
             dbg_header(&self.obj.header, f)?;
             write!(f, " ")?;
@@ -166,9 +172,7 @@ impl fmt::Debug for PrettyBer<'_> {
             BerObjectContent::Tagged(class, tag, ref obj) => {
                 writeln!(f, "ContextSpecific [{} {}] {{", class, tag.0)?;
                 write!(f, "{:?}", self.next_indent(obj))?;
-                if self.indent > 0 {
-                    write!(f, "{:1$}", " ", self.indent)?;
-                };
+                self.write_indent(f)?;
                 write!(f, "}}")?;
                 Ok(())
             },
@@ -180,9 +184,7 @@ impl fmt::Debug for PrettyBer<'_> {
                     for o in v {
                         write!(f, "{:?}", self.next_indent(o))?;
                     };
-                    if self.indent > 0 {
-                        write!(f, "{:1$}", " ", self.indent)?;
-                    };
+                    self.write_indent(f)?;
                     write!(f, "]")?;
                 } else {
                     write!(f, "{}", ty)?;
-- 
2.43.0

