From 0703bad874eab202dc9c97854c1a97dd3d78dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 01/20] fix: reject compound values whose size field cannot
 hold the count

---
 src/codec/decode.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ac419d8..7ea3411 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -531,6 +531,9 @@ pub(crate) fn decode_map_header(
 
 fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 2);
+    if input[0] < 1 {
+        return Err(AmqpParseError::InvalidSize);
+    }
     let size = input[0] - 1; // -1 for 1 byte count
     let count = input[1];
     Ok((
@@ -544,7 +547,11 @@ fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseEr
 
 fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    let size = BigEndian::read_u32(input);
+    if size < 4 {
+        return Err(AmqpParseError::InvalidSize);
+    }
+    let size = size - 4; // -4 for 4 byte count
     let count = BigEndian::read_u32(&input[4..]);
     Ok((&input[8..], CompoundHeader { size, count }))
 }
-- 
2.43.0


From 823592e25783f99297eec362e03bd21d0f788839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 02/20] fix: check that the declared size of a map is available
 before slicing

---
 src/codec/decode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 7ea3411..35c3bbe 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -253,6 +253,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
@@ -286,6 +287,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
 impl DecodeFormatted for VecVariantMap {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
-- 
2.43.0


From 2e8b40b9ba84d4fdaa68b0428ecfd4e3ea6a78c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 03/20] fix: confine array decoding to its declared size and to
 the bytes received

---
 src/codec/decode.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 35c3bbe..1128777 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -1,5 +1,5 @@
 use std::hash::{BuildHasher, Hash};
-use std::{char, str, u8};
+use std::{char, cmp, str, u8};
 
 use bytes::{BigEndian, ByteOrder, Bytes};
 use chrono::{DateTime, TimeZone, Utc};
@@ -272,15 +272,17 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
-        let item_fmt = input[0]; // todo: support descriptor
-        let mut input = &input[1..];
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (input, remainder) = input.split_at(size);
+        let (mut input, item_fmt) = codec::decode_format_code(input)?; // todo: support descriptor
+        let mut result: Vec<T> = Vec::with_capacity(cmp::min(header.count as usize, size));
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, result))
+        Ok((remainder, result))
     }
 }
 
-- 
2.43.0


From 4ca64bd6483f476d2da470a855e04f5e30801b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 04/20] fix: confine list decoding to its declared size and to
 the bytes received

---
 src/codec/decode.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 1128777..2c476a1 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -321,14 +321,17 @@ impl<T: ArrayDecode + DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
-        let (mut input, header) = decode_list_header(input, fmt)?;
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let (input, header) = decode_list_header(input, fmt)?;
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut input, remainder) = input.split_at(size);
+        let mut result: Vec<Variant> = Vec::with_capacity(cmp::min(header.count as usize, size));
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, List(result)))
+        Ok((remainder, List(result)))
     }
 }
 
-- 
2.43.0


From 6a8ea40e1f2377fd99d7f1dccb82137faf235621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 05/20] fix: do not reserve memory for map entries that were
 not received

---
 src/codec/decode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 2c476a1..4ec95bf 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -257,7 +257,10 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
-            HashMap::with_capacity_and_hasher(count as usize, Default::default());
+            HashMap::with_capacity_and_hasher(
+                cmp::min(count as usize, map_input.len()),
+                Default::default(),
+            );
         for _ in 0..count {
             let (input1, key) = K::decode(map_input)?;
             let (input2, value) = V::decode(input1)?;
@@ -292,7 +295,7 @@ impl DecodeFormatted for VecVariantMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(cmp::min(count as usize, map_input.len()));
         for _ in 0..count {
             let (input1, key) = Str::decode(map_input)?;
             let (input2, value) = Variant::decode(input1)?;
-- 
2.43.0


From e9cde2aa6d99104f272bdf5556c89efbe5a76975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 06/20] fix: decode timestamps before 1970 correctly and reject
 unrepresentable ones

---
 src/codec/decode.rs | 23 ++++++++++-------------
 src/errors.rs       |  2 ++
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 4ec95bf..33541e4 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -170,7 +170,9 @@ impl DecodeFormatted for char {
 impl DecodeFormatted for DateTime<Utc> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         validate_code!(fmt, codec::FORMATCODE_TIMESTAMP);
-        be_read!(input, read_i64, 8).map(|(i, o)| (i, datetime_from_millis(o)))
+        let result: Result<(&[u8], i64), AmqpParseError> = be_read!(input, read_i64, 8);
+        let (input, millis) = result?;
+        Ok((input, datetime_from_millis(millis)?))
     }
 }
 
@@ -566,18 +568,13 @@ fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseE
     Ok((&input[8..], CompoundHeader { size, count }))
 }
 
-fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds - 1, nanoseconds)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds, nanoseconds)
-    }
+fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
+    // euclidean division keeps the nanoseconds positive for instants before 1970
+    let seconds = millis.div_euclid(1000);
+    let nanoseconds = (millis.rem_euclid(1000) * 1_000_000) as u32;
+    Utc.timestamp_opt(seconds, nanoseconds)
+        .single()
+        .ok_or(AmqpParseError::InvalidTimestamp(millis))
 }
 
 #[cfg(test)]
diff --git a/src/errors.rs b/src/errors.rs
index 1d7ff3b..e2680c3 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -13,6 +13,8 @@ pub enum AmqpParseError {
     InvalidFormatCode(u8),
     #[display(fmt = "Invalid value converting to char: {}", "_0")]
     InvalidChar(u32),
+    #[display(fmt = "Timestamp is out of range: {}", "_0")]
+    InvalidTimestamp(i64),
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From 381f440ba5390a3d4009c2bc21738f4cad9c2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 07/20] fix: comparing an owned with a static string recursed
 forever

---
 src/types/mod.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index e6a45e8..f61722c 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -139,16 +139,8 @@ impl borrow::Borrow<str> for Str {
 
 impl PartialEq<Str> for Str {
     fn eq(&self, other: &Str) -> bool {
-        match self {
-            Str::ByteStr(s) => match other {
-                Str::ByteStr(o) => s == o,
-                Str::Static(o) => s == *o,
-            },
-            Str::Static(s) => match other {
-                Str::ByteStr(o) => o == *s,
-                Str::Static(o) => s == o,
-            },
-        }
+        // `string::String: PartialEq<str>` calls itself endlessly, compare the text
+        self.as_str() == other.as_str()
     }
 }
 
-- 
2.43.0


From e9ab20e8c151ac4c0d121aff91eb6bd414faf873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 08/20] fix: order strings by text, consistently with equality

---
 src/types/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index f61722c..84d2b78 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1,4 +1,4 @@
-use std::{borrow, fmt, hash, ops};
+use std::{borrow, cmp, fmt, hash, ops};
 
 use bytes::Bytes;
 use string::{String, TryFrom};
@@ -70,7 +70,7 @@ impl List {
     }
 }
 
-#[derive(Clone, Eq, Ord, PartialOrd)]
+#[derive(Clone, Eq)]
 pub enum Str {
     ByteStr(String<Bytes>),
     Static(&'static str),
@@ -144,6 +144,18 @@ impl PartialEq<Str> for Str {
     }
 }
 
+impl PartialOrd for Str {
+    fn partial_cmp(&self, other: &Str) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Str {
+    fn cmp(&self, other: &Str) -> cmp::Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
 impl PartialEq<str> for Str {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From d0d1bf25403721599fa88d1fa5a012fc6849dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 09/20] fix: hashing a map value panicked

---
 src/types/variant.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 6fd0f29..4a83a9f 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -136,8 +136,9 @@ impl VariantMap {
 }
 
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // entries have no defined order, equal maps have equal length
+        self.map.len().hash(state);
     }
 }
 
-- 
2.43.0


From 5758a732b8c017a14bdce6c32e90914d8c6a2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 10/20] fix: lists were written with array constructors

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index 76be9ac..b15d747 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -611,11 +611,11 @@ impl Encode for List {
     fn encode(&self, buf: &mut BytesMut) {
         let size = list_encoded_size(self);
         if size + 1 > u8::MAX as usize {
-            buf.put_u8(codec::FORMATCODE_ARRAY32);
+            buf.put_u8(codec::FORMATCODE_LIST32);
             buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follow
             buf.put_u32_be(self.len() as u32);
         } else {
-            buf.put_u8(codec::FORMATCODE_ARRAY8);
+            buf.put_u8(codec::FORMATCODE_LIST8);
             buf.put_u8((size + 1) as u8); // +1 for 1 byte count that follow
             buf.put_u8(self.len() as u8);
         }
-- 
2.43.0


From 4634a77db690860beedb7a80e14a161ec466b115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 11/20] fix: size field of an array of 254 content bytes
 wrapped to zero

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index b15d747..6684f8d 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -545,7 +545,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
     fn encoded_size(&self) -> usize {
         let content_size = array_encoded_size(self);
         // format_code + size + count + item constructor -- todo: support described ctor?
-        (if content_size + 1 > u8::MAX as usize {
+        (if content_size + 2 > u8::MAX as usize {
             10
         } else {
             4
@@ -555,7 +555,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
 
     fn encode(&self, buf: &mut BytesMut) {
         let size = array_encoded_size(self);
-        if size + 1 > u8::MAX as usize {
+        if size + 2 > u8::MAX as usize {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32_be((size + 5) as u32); // +4 for 4 byte count and 1 byte item ctor that follow
             buf.put_u32_be(self.len() as u32);
-- 
2.43.0


From 82a46510b990c06697087648f924223a8b26072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 12/20] fix: accept the zero ulong constructor as descriptor

---
 src/codec/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 33541e4..f000f50 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -461,6 +461,9 @@ impl DecodeFormatted for Descriptor {
             codec::FORMATCODE_ULONG => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
+            codec::FORMATCODE_ULONG_0 => {
+                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
+            }
             codec::FORMATCODE_SYMBOL8 => {
                 Symbol::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Symbol(o)))
             }
-- 
2.43.0


From f06a2bacec1cd32e76b51361f59426218ebf72ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 13/20] fix: setting a message value kept a stale encoded size

---
 src/message/inmessage.rs  | 1 +
 src/message/outmessage.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 34b66b2..a5418e2 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -132,6 +132,7 @@ impl InMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4e9e6fc..f926d23 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -124,6 +124,7 @@ impl OutMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
-- 
2.43.0


From c63d60397a8b16b5454e8a7fe628a919482b58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 14/20] fix: equality of messages depended on whether their
 size was asked for

---
 src/message/inmessage.rs  | 16 +++++++++++++++-
 src/message/outmessage.rs | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index a5418e2..24ee959 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -14,7 +14,7 @@ use super::body::MessageBody;
 use super::outmessage::OutMessage;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct InMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -27,6 +27,20 @@ pub struct InMessage {
     size: Cell<usize>,
 }
 
+// the remembered encoded size is not part of the message
+impl PartialEq for InMessage {
+    fn eq(&self, other: &InMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl InMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> InMessage {
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index f926d23..33aa091 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -10,7 +10,7 @@ use crate::types::{Descriptor, Str, Variant, VecVariantMap};
 use super::body::MessageBody;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct OutMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -23,6 +23,20 @@ pub struct OutMessage {
     size: Cell<usize>,
 }
 
+// the remembered encoded size is not part of the message
+impl PartialEq for OutMessage {
+    fn eq(&self, other: &OutMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl OutMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> OutMessage {
-- 
2.43.0


From ad262953c70c2fb1e3167888a053e50b25ab7052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 15/20] fix: decoding a message returned its last section as
 remainder

---
 src/message/inmessage.rs  | 4 ++--
 src/message/outmessage.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 24ee959..53504b9 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -205,10 +205,10 @@ impl Decode for InMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 33aa091..52bc07a 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -197,10 +197,10 @@ impl Decode for OutMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
-- 
2.43.0


From 63d111475c6c95589089867e030227e8a013d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 16/20] fix: size of a message with a header was overstated by
 the header descriptor

---
 src/message/inmessage.rs  | 2 +-
 src/message/outmessage.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 53504b9..4882807 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -231,7 +231,7 @@ impl Encode for InMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 52bc07a..0d9617b 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -223,7 +223,7 @@ impl Encode for OutMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
-- 
2.43.0


From be02a5b607a46a4a6a8b769fab5de8e804e0c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 17/20] fix: a frame length below the header size made the
 stream decoder panic

---
 src/io.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index aeeaa70..5c0905c 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use bytes::{BigEndian, BufMut, ByteOrder, BytesMut};
 use tokio_io::codec::{Decoder, Encoder};
 
-use super::errors::{AmqpCodecError, ProtocolIdError};
+use super::errors::{AmqpCodecError, AmqpParseError, ProtocolIdError};
 use super::framing::HEADER_LEN;
 use crate::codec::{Decode, Encode};
 use crate::protocol::ProtocolId;
@@ -51,6 +51,10 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     }
                     let size = BigEndian::read_u32(src.as_ref()) as usize;
 
+                    if size < HEADER_LEN {
+                        return Err(AmqpParseError::InvalidSize.into());
+                    }
+
                     // todo: max frame size check
                     self.state = DecodeState::Frame(size - 4);
                     src.split_to(4);
-- 
2.43.0


From df29fbb1b5aeeaf35adf3154b7a7567971517fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 18/20] fix: the stream decoder lost frame synchronisation
 after a malformed frame

---
 src/io.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 5c0905c..207b421 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -72,13 +72,14 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                         return Ok(None);
                     }
 
+                    // the frame is consumed even if it turns out to be malformed
+                    self.state = DecodeState::FrameHeader;
                     let frame_buf = src.split_to(size);
                     let (remainder, frame) = T::decode(frame_buf.as_ref())?;
                     if !remainder.is_empty() {
                         // todo: could it really happen?
                         return Err(AmqpCodecError::UnparsedBytesLeft);
                     }
-                    self.state = DecodeState::FrameHeader;
                     return Ok(Some(frame));
                 }
             }
-- 
2.43.0


From eba017c92dd1abd1f754bdeb4676d3a78316025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 19/20] fix: Variant::StaticSymbol compares equal to its text

---
 src/types/variant.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 4a83a9f..5a5218c 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -101,6 +101,7 @@ impl PartialEq<str> for Variant {
         match self {
             Variant::String(s) => s == other,
             Variant::Symbol(s) => s == other,
+            Variant::StaticSymbol(s) => s.0 == other,
             _ => false,
         }
     }
-- 
2.43.0


From 623f6d9b09e1fa1e25bbb71ca614e77a226c0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 20/20] fix: AmqpCodecError::clone dropped the I/O error

---
 src/errors.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index e2680c3..f5ace80 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -41,7 +41,11 @@ impl Clone for AmqpCodecError {
         match self {
             AmqpCodecError::ParseError(err) => AmqpCodecError::ParseError(err.clone()),
             AmqpCodecError::UnparsedBytesLeft => AmqpCodecError::UnparsedBytesLeft,
-            AmqpCodecError::Io(_) => AmqpCodecError::Io(None),
+            // `std::io::Error` is not `Clone`, keep what it says
+            AmqpCodecError::Io(err) => AmqpCodecError::Io(
+                err.as_ref()
+                    .map(|e| std::io::Error::new(e.kind(), e.to_string())),
+            ),
         }
     }
 }
-- 
2.43.0

