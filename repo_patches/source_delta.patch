From 8a56906cce973dc3dc6f251620b290350abf83ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 01/18] fix: give each anchor definition its own alias id

The id of a newly defined anchor was the number of distinct anchor names
seen so far. Once a name had been redefined, the next new anchor reused the
id of the latest definition, and aliases of the redefined name resolved to
the wrong node.
---
 src/loader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 7c7c7b6..27dfc51 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -88,7 +88,7 @@ impl<'input> Loader<'input> {
                 },
                 YamlEvent::Scalar(mut scalar) => {
                     if let Some(anchor) = scalar.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -96,7 +96,7 @@ impl<'input> Loader<'input> {
                 }
                 YamlEvent::SequenceStart(mut sequence_start) => {
                     if let Some(anchor) = sequence_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -105,7 +105,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::SequenceEnd => Event::SequenceEnd,
                 YamlEvent::MappingStart(mut mapping_start) => {
                     if let Some(anchor) = mapping_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
-- 
2.43.0


From f4f76d062d6475510a9aba88ca59985d087aad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 02/18] fix: stop iterating after a document with an unknown
 anchor

The loader returned the document with its error but kept the parser in the
middle of that document, so the next iteration produced a document made of
whatever nodes came after the offending alias.
---
 src/loader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 27dfc51..39a822f 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -83,6 +83,9 @@ impl<'input> Loader<'input> {
                     Some(id) => Event::Alias(*id),
                     None => {
                         document.error = Some(error::new(ErrorImpl::UnknownAnchor(mark)).shared());
+                        // The rest of this document cannot be told apart from
+                        // the start of a following one.
+                        self.parser = None;
                         return Some(document);
                     }
                 },
-- 
2.43.0


From 0d2c4932a36b967dff54e82f7e1aa0a655416da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 03/18] fix: serialize a one-entry mapping whose key is itself
 a mapping or tagged

The start of a one-entry mapping is held back until it is known that its key
is not a tag. A key which is a one-entry mapping, a tagged value or an enum
variant overwrote that pending state and the start of the outer mapping was
never emitted, so serialization failed or lost the mapping.
---
 src/ser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 23c761b..2be2c4b 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -416,6 +416,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         value.serialize(&mut *self)
     }
@@ -460,6 +461,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_sequence_start()?;
         Ok(self)
@@ -467,6 +469,9 @@ where
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap> {
         if len == Some(1) {
+            if let State::CheckForTag = self.state {
+                self.flush_mapping_start()?;
+            }
             self.state = if let State::FoundTag(_) = self.state {
                 self.emit_mapping_start()?;
                 State::CheckForDuplicateTag
@@ -494,6 +499,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_mapping_start()?;
         Ok(self)
-- 
2.43.0


From 3121f845b33f04a3718e6c41d061c1d47c1a95c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 04/18] fix: compare nested mapping keys independently of
 insertion order

---
 src/mapping.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mapping.rs b/src/mapping.rs
index 667cd4b..0aa8aa5 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -428,6 +428,11 @@ impl PartialOrd for Mapping {
                 (_, Value::Sequence(_)) => Ordering::Greater,
 
                 (Value::Mapping(a), Value::Mapping(b)) => {
+                    // Equal mappings may have been filled in different orders.
+                    let mut a = Vec::from_iter(a);
+                    let mut b = Vec::from_iter(b);
+                    a.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
+                    b.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
                     iter_cmp_by(a, b, |(ak, av), (bk, bv)| {
                         total_cmp(ak, bk).then_with(|| total_cmp(av, bv))
                     })
-- 
2.43.0


From 56cc6a71fa536a417a759ab3b45282939873eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 05/18] fix: read an empty tuple variant from a Value

---
 src/value/de.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b1ff576..816840c 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -586,16 +586,12 @@ impl<'de> Deserializer<'de> for SeqDeserializer {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
@@ -1097,16 +1093,12 @@ impl<'de> Deserializer<'de> for SeqRefDeserializer<'de> {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
-- 
2.43.0


From db7b79bff66d65d04945a6ac54b2ac5f05ba0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 06/18] fix: resolve merge keys inside merged mappings

---
 src/value/mod.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 27a170b..1ba1458 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -624,25 +624,29 @@ impl Value {
     /// assert_eq!(value["tasks"]["start"]["args"], "start");
     /// ```
     pub fn apply_merge(&mut self) -> Result<(), Error> {
+        fn merge_into(mapping: &mut Mapping, merge: Mapping) -> Result<(), Error> {
+            // The merged mapping may have a merge key of its own.
+            let mut merge = Value::Mapping(merge);
+            merge.apply_merge()?;
+            if let Value::Mapping(merge) = merge {
+                for (k, v) in merge {
+                    mapping.entry(k).or_insert(v);
+                }
+            }
+            Ok(())
+        }
+
         let mut stack = Vec::new();
         stack.push(self);
         while let Some(node) = stack.pop() {
             match node {
                 Value::Mapping(mapping) => {
                     match mapping.remove("<<") {
-                        Some(Value::Mapping(merge)) => {
-                            for (k, v) in merge {
-                                mapping.entry(k).or_insert(v);
-                            }
-                        }
+                        Some(Value::Mapping(merge)) => merge_into(mapping, merge)?,
                         Some(Value::Sequence(sequence)) => {
                             for value in sequence {
                                 match value {
-                                    Value::Mapping(merge) => {
-                                        for (k, v) in merge {
-                                            mapping.entry(k).or_insert(v);
-                                        }
-                                    }
+                                    Value::Mapping(merge) => merge_into(mapping, merge)?,
                                     Value::Sequence(_) => {
                                         return Err(error::new(ErrorImpl::SequenceInMergeElement));
                                     }
-- 
2.43.0


From 81dc9f7bedbe4f0bc3264925b8a445f08dae839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 07/18] fix: flush the underlying writer in Serializer::flush

---
 src/libyaml/emitter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 686f06e..99555d7 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -176,8 +176,9 @@ impl<'a> Emitter<'a> {
             if sys::yaml_emitter_flush(emitter).fail {
                 return Err(self.error());
             }
+            let emitter = &mut *self.pin.ptr;
+            emitter.write.flush().map_err(Error::Io)
         }
-        Ok(())
     }
 
     pub fn into_inner(self) -> Box<dyn io::Write + 'a> {
-- 
2.43.0


From b5bdc0db40036623becf0fc504ba3ea3d50a702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 08/18] fix: skip the value of a key whose visitor stops before
 it

---
 src/de.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/de.rs b/src/de.rs
index 566f5f0..22cb2f1 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -558,8 +558,13 @@ impl<'de, 'document> DeserializerFromEvents<'de, 'document> {
                 de,
                 len: 0,
                 key: None,
+                value_pending: false,
             };
             let value = visitor.visit_map(&mut map)?;
+            if map.value_pending {
+                // The visitor stopped between a key and its value.
+                de::MapAccess::next_value::<IgnoredAny>(&mut map)?;
+            }
             Ok((value, map.len))
         })?;
         self.end_mapping(len)?;
@@ -604,6 +609,7 @@ impl<'de, 'document> DeserializerFromEvents<'de, 'document> {
                 de: self,
                 len,
                 key: None,
+                value_pending: false,
             };
             while de::MapAccess::next_entry::<IgnoredAny, IgnoredAny>(&mut map)?.is_some() {}
             map.len
@@ -687,6 +693,7 @@ struct MapAccess<'de, 'document, 'map> {
     de: &'map mut DeserializerFromEvents<'de, 'document>,
     len: usize,
     key: Option<&'document [u8]>,
+    value_pending: bool,
 }
 
 impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map> {
@@ -704,11 +711,13 @@ impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map
             Event::Scalar(scalar) => {
                 self.len += 1;
                 self.key = Some(&scalar.value);
+                self.value_pending = true;
                 seed.deserialize(&mut *self.de).map(Some)
             }
             _ => {
                 self.len += 1;
                 self.key = None;
+                self.value_pending = true;
                 seed.deserialize(&mut *self.de).map(Some)
             }
         }
@@ -718,6 +727,7 @@ impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map
     where
         V: DeserializeSeed<'de>,
     {
+        self.value_pending = false;
         let mut value_de = DeserializerFromEvents {
             document: self.de.document,
             pos: self.de.pos,
@@ -1678,6 +1688,7 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         de: self,
                         len: 0,
                         key: None,
+                        value_pending: false,
                     })
                 } else {
                     Err(invalid_type(other, &visitor))
-- 
2.43.0


From 8cbfa99db01aa84b9b39f4dfeda5ec8828d9e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 09/18] fix: write an empty map announced as having one entry
 as {}

---
 src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 2be2c4b..7c860e9 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -643,7 +643,7 @@ where
 
     fn end(self) -> Result<()> {
         if let State::CheckForTag = self.state {
-            self.emit_mapping_start()?;
+            self.flush_mapping_start()?;
         }
         if !matches!(self.state, State::AlreadyTagged) {
             self.emit_mapping_end()?;
-- 
2.43.0


From b2d25d0bafb0b597474f78f69783bd8d5856bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 10/18] fix: keep the leading ! of a displayed key written in
 several pieces

---
 src/value/tagged.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/value/tagged.rs b/src/value/tagged.rs
index baf6a0a..a22980c 100644
--- a/src/value/tagged.rs
+++ b/src/value/tagged.rs
@@ -10,7 +10,6 @@ use serde::ser::{Serialize, SerializeMap, Serializer};
 use std::cmp::Ordering;
 use std::fmt::{self, Debug, Display};
 use std::hash::{Hash, Hasher};
-use std::mem;
 
 /// A representation of YAML's `!Tag` syntax, used for enums.
 ///
@@ -451,8 +450,7 @@ where
                     *self = CheckForTag::Tag(s.to_owned());
                 }
                 CheckForTag::Tag(string) => {
-                    let mut string = mem::take(string);
-                    string.push_str(s);
+                    let string = format!("!{}{}", string, s);
                     *self = CheckForTag::NotTag(string);
                 }
                 CheckForTag::NotTag(string) => {
-- 
2.43.0


From 148d099c1bdb5bd8801bacd704cefeed734b4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 11/18] fix: read tagged Values below
 with::singleton_map_recursive

---
 src/with.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/with.rs b/src/with.rs
index d0bdc7c..71cd6ce 100644
--- a/src/with.rs
+++ b/src/with.rs
@@ -1868,6 +1868,13 @@ pub mod singleton_map_recursive {
             self.delegate
                 .visit_map(SingletonMapRecursive { delegate: map })
         }
+
+        fn visit_enum<A>(self, data: A) -> Result<Self::Value, A::Error>
+        where
+            A: EnumAccess<'de>,
+        {
+            self.delegate.visit_enum(data)
+        }
     }
 
     impl<'de, T> DeserializeSeed<'de> for SingletonMapRecursive<T>
-- 
2.43.0


From a320d18180eea43d42f9a11fd067f95d6590bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 12/18] fix: locate a non-null scalar tagged as null at its own
 place

---
 src/de.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 22cb2f1..1c4f057 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1528,7 +1528,8 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
     where
         V: Visitor<'de>,
     {
-        let is_some = match self.peek_event()? {
+        let (next, mark) = self.peek_event_mark()?;
+        let is_some = match next {
             Event::Alias(mut pos) => {
                 *self.pos += 1;
                 return self.jump(&mut pos)?.deserialize_option(visitor);
@@ -1541,13 +1542,13 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                     if tag == Tag::NULL {
                         if let Some(()) = parse_null(&scalar.value) {
                             false
-                        } else if let Ok(v) = str::from_utf8(&scalar.value) {
-                            return Err(de::Error::invalid_value(Unexpected::Str(v), &"null"));
                         } else {
-                            return Err(de::Error::invalid_value(
-                                Unexpected::Bytes(&scalar.value),
-                                &"null",
-                            ));
+                            let unexpected = match str::from_utf8(&scalar.value) {
+                                Ok(v) => Unexpected::Str(v),
+                                Err(_) => Unexpected::Bytes(&scalar.value),
+                            };
+                            let err = de::Error::invalid_value(unexpected, &"null");
+                            return Err(error::fix_mark(err, mark, self.path));
                         }
                     } else {
                         true
-- 
2.43.0


From 7d1e0f6529f61cb7bbfe72da22e52aa2dedbb5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 13/18] fix: read a negative zero as an unsigned integer

---
 src/de.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/de.rs b/src/de.rs
index 1c4f057..3f9d04e 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1406,6 +1406,9 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         if let Some(int) = parse_unsigned_int(value, u64::from_str_radix) {
                             break visitor.visit_u64(int);
                         }
+                        if let Some(0) = parse_negative_int(value, i64::from_str_radix) {
+                            break visitor.visit_u64(0);
+                        }
                     }
                 }
                 _ => {}
@@ -1431,6 +1434,9 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         if let Some(int) = parse_unsigned_int(value, u128::from_str_radix) {
                             break visitor.visit_u128(int);
                         }
+                        if let Some(0) = parse_negative_int(value, i128::from_str_radix) {
+                            break visitor.visit_u128(0);
+                        }
                     }
                 }
                 _ => {}
-- 
2.43.0


From 012ea950f2fc8c3c322e53dee733d43612531606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 14/18] fix: entries of a struct variant left over by a visitor
 of a Value are an error

A struct variant read from a tagged Value went to the visitor without a
check that all entries were consumed, unlike tuple variants, plain
mappings and the same enum in text: a visitor that stops early silently
lost the rest.
---
 src/value/de.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 816840c..e3be386 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -683,11 +683,18 @@ impl<'de> Deserializer<'de> for MapDeserializer {
     type Error = Error;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let len = self.iter.len();
+        let ret = visitor.visit_map(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
+        } else {
+            Err(Error::invalid_length(len, &"fewer elements in map"))
+        }
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Error>
@@ -1189,11 +1196,18 @@ impl<'de> Deserializer<'de> for MapRefDeserializer<'de> {
     type Error = Error;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let len = self.iter.as_ref().map_or(0, ExactSizeIterator::len);
+        let ret = visitor.visit_map(&mut self)?;
+        let remaining = self.iter.as_ref().map_or(0, ExactSizeIterator::len);
+        if remaining == 0 {
+            Ok(ret)
+        } else {
+            Err(Error::invalid_length(len, &"fewer elements in map"))
+        }
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Error>
-- 
2.43.0


From f77ef7aff55ada81f7b77f0cd880ab88b3b8ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 15/18] fix: refuse to emit scalars of 2 GiB or more

The emitter passed the length of a scalar to libyaml as an i32: a string
of 4 GiB + 5 bytes was written as its first 5 bytes, and one of 2 to 4 GiB
was measured with strlen, although it is not NUL-terminated, so data was
lost or memory beyond the string was read.
---
 src/libyaml/emitter.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 99555d7..d6d5bf2 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -113,7 +113,17 @@ impl<'a> Emitter<'a> {
                         tag.as_ptr()
                     });
                     let value = scalar.value.as_ptr();
-                    let length = scalar.value.len() as i32;
+                    // libyaml measures scalars with a C int and adds 1 to it for
+                    // a terminating NUL.
+                    let length = match i32::try_from(scalar.value.len()) {
+                        Ok(length) if length < i32::MAX => length,
+                        _ => {
+                            return Err(Error::Io(io::Error::new(
+                                io::ErrorKind::InvalidInput,
+                                "scalar is too long to be written as YAML",
+                            )));
+                        }
+                    };
                     let plain_implicit = tag.is_null();
                     let quoted_implicit = tag.is_null();
                     let style = match scalar.style {
-- 
2.43.0


From 8ee0703718ae2d7fb8997ac60edf24460f005bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 16/18] fix: skip a byte order mark at the start of the input

libyaml counts the mark as a column when the encoding is set by hand, so
the first entry of a block collection on the first line was indented by
one and the entries after it were read as another document or refused.
---
 src/libyaml/error.rs  | 15 +++++++++++++++
 src/libyaml/parser.rs | 21 ++++++++++++++++-----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/libyaml/error.rs b/src/libyaml/error.rs
index 8397f6e..fa53196 100644
--- a/src/libyaml/error.rs
+++ b/src/libyaml/error.rs
@@ -60,6 +60,16 @@ impl Error {
     pub fn mark(&self) -> Mark {
         self.problem_mark
     }
+
+    /// Count from the start of an input of which `len` bytes were skipped.
+    pub fn offset(mut self, len: usize) -> Self {
+        if let sys::YAML_READER_ERROR = self.kind {
+            self.problem_offset += len as u64;
+        }
+        self.problem_mark = self.problem_mark.offset(len);
+        self.context_mark = self.context_mark.offset(len);
+        self
+    }
 }
 
 impl Display for Error {
@@ -131,6 +141,11 @@ impl Mark {
     pub fn column(&self) -> u64 {
         self.sys.column
     }
+
+    pub fn offset(mut self, len: usize) -> Self {
+        self.sys.index += len as u64;
+        self
+    }
 }
 
 impl Display for Mark {
diff --git a/src/libyaml/parser.rs b/src/libyaml/parser.rs
index 3492edd..6d96f00 100644
--- a/src/libyaml/parser.rs
+++ b/src/libyaml/parser.rs
@@ -16,6 +16,8 @@ pub(crate) struct Parser<'input> {
 struct ParserPinned<'input> {
     sys: sys::yaml_parser_t,
     input: Cow<'input, [u8]>,
+    /// Length of the byte order mark at the start of the input.
+    bom: usize,
 }
 
 #[derive(Debug)]
@@ -67,14 +69,19 @@ pub(crate) enum ScalarStyle {
 impl<'input> Parser<'input> {
     pub fn new(input: Cow<'input, [u8]>) -> Parser<'input> {
         let owned = Owned::<ParserPinned>::new_uninit();
+        // libyaml counts a byte order mark as a column, which indents the rest
+        // of the first line and breaks block collections that start there.
+        let bom = if input.starts_with(b"\xEF\xBB\xBF") { 3 } else { 0 };
         let pin = unsafe {
             let parser = addr_of_mut!((*owned.ptr).sys);
             if sys::yaml_parser_initialize(parser).fail {
                 panic!("malloc error: {}", Error::parse_error(parser));
             }
             sys::yaml_parser_set_encoding(parser, sys::YAML_UTF8_ENCODING);
-            sys::yaml_parser_set_input_string(parser, input.as_ptr(), input.len() as u64);
+            let content = &input[bom..];
+            sys::yaml_parser_set_input_string(parser, content.as_ptr(), content.len() as u64);
             addr_of_mut!((*owned.ptr).input).write(input);
+            addr_of_mut!((*owned.ptr).bom).write(bom);
             Owned::assume_init(owned)
         };
         Parser { pin }
@@ -84,17 +91,19 @@ impl<'input> Parser<'input> {
         let mut event = MaybeUninit::<sys::yaml_event_t>::uninit();
         unsafe {
             let parser = addr_of_mut!((*self.pin.ptr).sys);
+            let bom = (*self.pin.ptr).bom;
             if (*parser).error != sys::YAML_NO_ERROR {
-                return Err(Error::parse_error(parser));
+                return Err(Error::parse_error(parser).offset(bom));
             }
             let event = event.as_mut_ptr();
             if sys::yaml_parser_parse(parser, event).fail {
-                return Err(Error::parse_error(parser));
+                return Err(Error::parse_error(parser).offset(bom));
             }
-            let ret = convert_event(&*event, &(*self.pin.ptr).input);
+            let ret = convert_event(&*event, &(*self.pin.ptr).input, bom);
             let mark = Mark {
                 sys: (*event).start_mark,
             };
+            let mark = mark.offset(bom);
             sys::yaml_event_delete(event);
             Ok((ret, mark))
         }
@@ -104,6 +113,7 @@ impl<'input> Parser<'input> {
 unsafe fn convert_event<'input>(
     sys: &sys::yaml_event_t,
     input: &Cow<'input, [u8]>,
+    bom: usize,
 ) -> Event<'input> {
     match sys.type_ {
         sys::YAML_STREAM_START_EVENT => Event::StreamStart,
@@ -128,7 +138,8 @@ unsafe fn convert_event<'input>(
                 sys::YAML_ANY_SCALAR_STYLE | _ => unreachable!(),
             },
             repr: if let Cow::Borrowed(input) = input {
-                Some(&input[sys.start_mark.index as usize..sys.end_mark.index as usize])
+                let content = &input[bom..];
+                Some(&content[sys.start_mark.index as usize..sys.end_mark.index as usize])
             } else {
                 None
             },
-- 
2.43.0


From 10eee76b1ea6c8480aa7d9fcfed320b693d3f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 17/18] fix: refuse to write a variant without a name

---
 src/ser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 7c860e9..9957fee 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -413,6 +413,9 @@ where
     where
         T: ?Sized + ser::Serialize,
     {
+        if variant.is_empty() {
+            return Err(error::new(ErrorImpl::EmptyTag));
+        }
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
@@ -458,6 +461,9 @@ where
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant> {
+        if variant.is_empty() {
+            return Err(error::new(ErrorImpl::EmptyTag));
+        }
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
@@ -496,6 +502,9 @@ where
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant> {
+        if variant.is_empty() {
+            return Err(error::new(ErrorImpl::EmptyTag));
+        }
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
-- 
2.43.0


From a0695c60ed3b86bf130d5801b73595a6fb66e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:24 +0000
Subject: [PATCH 18/18] fix: spread float keys over the hash table

---
 src/number.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 5ebe395..f030ae1 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -536,16 +536,13 @@ impl From<f64> for Number {
     }
 }
 
-// This is fine, because we don't _really_ implement hash for floats
-// all other hash functions should work as expected
+// Numbers that are equal hash alike: all NaNs do, and both zeros.
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for Number {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.n {
-            N::Float(_) => {
-                // you should feel bad for using f64 as a map key
-                3.hash(state);
-            }
+            N::Float(f) if f.is_nan() => f64::NAN.to_bits().hash(state),
+            N::Float(f) => (f + 0.0).to_bits().hash(state),
             N::PosInt(u) => u.hash(state),
             N::NegInt(i) => i.hash(state),
         }
-- 
2.43.0

