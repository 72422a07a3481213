From fce066373866f2314483df920276c8fb77aeec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 01/16] fix: reject malformed UTF-8 in read_utf8 instead of
 misdecoding it or panicking

---
 core/src/text_reader.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2a67561..3cd114d 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -196,19 +196,30 @@ pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Optio
     if x < 0b10000000 {
         return Ok(Some(x.into()));
     } 
-    let ch = if x < 0b11100000 {
+    let ch = if x < 0b11000000 {
+        // Continuation byte without a leading byte
+        None
+    } else if x < 0b11100000 {
         let mut buf = [0u8; 1];
         r.read_exact(&mut buf)?;
         let ch = (x as u32) & 0b00011111;
         let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        char::from_u32(ch)
+        if is_continuation(buf[0]) && ch >= 0x80 {
+            char::from_u32(ch)
+        } else {
+            None
+        }
     } else if x < 0b11110000 {
         let mut buf = [0u8; 2];
         r.read_exact(&mut buf)?;
         let ch = (x as u32) & 0b00001111;
         let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
         let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        char::from_u32(ch)
+        if is_continuation(buf[0]) && is_continuation(buf[1]) && ch >= 0x800 {
+            char::from_u32(ch)
+        } else {
+            None
+        }
     } else if x < 0b11111000 {
         let mut buf = [0u8; 3];
         r.read_exact(&mut buf)?;
@@ -216,18 +227,33 @@ pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Optio
         let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
         let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
         let ch = (ch << 6) | (buf[2] & 0b00111111) as u32;
-        char::from_u32(ch)
+        if is_continuation(buf[0])
+            && is_continuation(buf[1])
+            && is_continuation(buf[2])
+            && ch >= 0x10000
+        {
+            char::from_u32(ch)
+        } else {
+            None
+        }
     } else {
         None
     };
     if let Some(ch) = ch {
         Ok(Some(ch))
     } else {
-        // Error
-        todo!();
+        Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "stream did not contain valid UTF-8",
+        ))
     }
 }
 
+/// Determines whether the given byte is a UTF-8 continuation byte.
+fn is_continuation(x: u8) -> bool {
+    x & 0b11000000 == 0b10000000
+}
+
 #[test]
 fn test_read_utf8() {
     let str = "ab\u{0014}\u{0162}\u{0651}\u{1485}\u{0482}\u{95832}";
-- 
2.43.0


From 632ccf6e6c7f01d0e6ca226b13ddf07fe0934c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 02/16] fix: accept zero with any exponent when reading
 integers

---
 json/src/deserialize/number.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/number.rs b/json/src/deserialize/number.rs
index c7bcd7b..456abec 100644
--- a/json/src/deserialize/number.rs
+++ b/json/src/deserialize/number.rs
@@ -21,7 +21,11 @@ macro_rules! impl_unsigned {
         impl Num for $ty {
             type Builder = Self;
             fn from_builder(value: Self, negate: bool, exp_10: i32) -> Option<Self> {
-                if negate && value != 0 {
+                if value == 0 {
+                    // Zero stays zero, regardless of the exponent
+                    return Some(0);
+                }
+                if negate {
                     return None;
                 }
                 let ten: Self = 10;
@@ -64,6 +68,10 @@ macro_rules! impl_signed {
         impl Num for $ty {
             type Builder = $unsigned_ty;
             fn from_builder(mut value: Self::Builder, negate: bool, exp_10: i32) -> Option<Self> {
+                if value == 0 {
+                    // Zero stays zero, regardless of the exponent
+                    return Some(0);
+                }
                 let ten: Self::Builder = 10;
                 if let Ok(exp_10) = u32::try_from(exp_10) {
                     let pow = ten.checked_pow(exp_10)?;
-- 
2.43.0


From a451fa20fa071d7456d9af78824f9265c25c33c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 03/16] fix: decode \u escape sequences instead of panicking

---
 json/src/deserialize/text.rs | 43 +++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index a38d233..097c878 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1656,12 +1656,53 @@ trait TextReaderExt: TextReader {
             Some('n') => '\n',
             Some('r') => '\r',
             Some('t') => '\t',
-            Some('u') => todo!(),
+            Some('u') => return self.read_unicode_escape(pos),
             Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
             None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
         })
     }
 
+    /// Reads a unicode escape sequence in a quoted string, following the `\\u`. Characters outside of
+    /// the basic multilingual plane are represented using a surrogate pair: two consecutive escape
+    /// sequences.
+    fn read_unicode_escape(
+        &mut self,
+        pos: Self::Position,
+    ) -> Result<char, DeserializeError<Self::Position>> {
+        let mut code = self.read_hex_digits()?;
+        if (0xD800..0xDC00).contains(&code) {
+            if !self.read_exact("\\u") {
+                return Err(DeserializeError::new(pos, UnrecognizedEscape));
+            }
+            let low = self.read_hex_digits()?;
+            if !(0xDC00..0xE000).contains(&low) {
+                return Err(DeserializeError::new(pos, UnrecognizedEscape));
+            }
+            code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+        }
+        match char::from_u32(code) {
+            Some(ch) => Ok(ch),
+            None => Err(DeserializeError::new(pos, UnrecognizedEscape)),
+        }
+    }
+
+    /// Reads the four hexadecimal digits of a unicode escape sequence.
+    fn read_hex_digits(&mut self) -> Result<u32, DeserializeError<Self::Position>> {
+        let mut value = 0;
+        for _ in 0..4 {
+            let pos = self.position();
+            let digit = match self.next() {
+                Some(ch @ '0'..='9') => (ch as u32) - ('0' as u32),
+                Some(ch @ 'a'..='f') => (ch as u32) - ('a' as u32) + 10,
+                Some(ch @ 'A'..='F') => (ch as u32) - ('A' as u32) + 10,
+                Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
+                None => return Err(DeserializeError::new(pos, UnexpectedEof)),
+            };
+            value = value * 16 + digit;
+        }
+        Ok(value)
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
-- 
2.43.0


From d2878455f42c77ededfa480a950c37342a295083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 04/16] fix: escape all control characters when serializing
 strings

---
 json/src/serialize/text.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json/src/serialize/text.rs b/json/src/serialize/text.rs
index c4d4b71..a363bbc 100644
--- a/json/src/serialize/text.rs
+++ b/json/src/serialize/text.rs
@@ -229,6 +229,14 @@ impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
             '\n' => self.writer.write_str("\\n"),
             '\r' => self.writer.write_str("\\r"),
             '\t' => self.writer.write_str("\\t"),
+            '\0'..='\x1F' => {
+                // Other control characters may not appear in a JSON string directly
+                let low = value as u8 & 0xF;
+                let digit = if low < 10 { b'0' + low } else { b'a' + (low - 10) };
+                self.writer
+                    .write_str(if value < '\x10' { "\\u000" } else { "\\u001" })?;
+                self.writer.write_char(digit as char)
+            }
             value => self.writer.write_char(value),
         }
     }
-- 
2.43.0


From 29d8e012a55336901b5f71326fa62057dc8dbc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 05/16] fix: implement get_char for TextDeserializer

---
 json/src/deserialize/text.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 097c878..8cf0943 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -678,7 +678,14 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn get_char(&mut self) -> Result<char, Self::Error> {
-        todo!()
+        self.open_str()?;
+        if let Some(ch) = self.next_char()? {
+            if self.next_char()?.is_none() {
+                return Ok(ch);
+            }
+            self.skip_str()?;
+        }
+        Err(self.error("expected a string with exactly one character".into()))
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
-- 
2.43.0


From 0e07da44a232d60910bb5dd5b655f9209b56f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 06/16] fix: allow comments before values that are read out of
 order

---
 json/src/deserialize/text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 8cf0943..3f32184 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1838,6 +1838,12 @@ trait TextReaderExt: TextReader {
                     self.next();
                     continue;
                 }
+                Some('/') if config.allow_comments => {
+                    // Skip leading comment
+                    self.next();
+                    self.skip_comment()?;
+                    continue;
+                }
                 Some('"') => {
                     let pos = self.position();
                     self.next();
-- 
2.43.0


From 9bfba5f4d855b64dedc92844642e8a92db1ab196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 07/16] fix: skip deeply nested values without overflowing the
 stack

---
 json/src/deserialize/mod.rs | 63 +++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index a2a3b86..11ee95c 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -30,30 +30,53 @@ pub trait JsonDeserializer: JsonOutliner + Deserializer {
 
     /// Assuming that the top item on the stack is a value, pops it without deserialization.
     fn skip_value(&mut self) -> Result<(), Self::Error> {
-        match self.peek_value_type() {
-            ValueType::String => {
-                self.open_str()?;
-                self.skip_str()?;
-            }
-            ValueType::Number => {
-                self.get_f32()?;
-            }
-            ValueType::Object => {
-                self.open_object()?;
-                self.skip_object()?;
-            }
-            ValueType::Array => {
-                self.open_list()?;
-                while self.next_item()? {
-                    self.skip_value()?;
+        // The number of collections that were opened here, and still need to be closed. This is done
+        // without recursion so that deeply nested values can't overflow the call stack.
+        let mut depth: usize = 0;
+        loop {
+            match self.peek_value_type() {
+                ValueType::String => {
+                    self.open_str()?;
+                    self.skip_str()?;
+                }
+                ValueType::Number => {
+                    self.get_f32()?;
+                }
+                ValueType::Object => {
+                    self.open_object()?;
+                    depth += 1;
+                }
+                ValueType::Array => {
+                    self.open_list()?;
+                    depth += 1;
                 }
+                ValueType::Bool => {
+                    self.get_bool()?;
+                }
+                ValueType::Null => self.pop_null()?,
             }
-            ValueType::Bool => {
-                self.get_bool()?;
+
+            // Go to the next value in the opened collections
+            loop {
+                if depth == 0 {
+                    return Ok(());
+                }
+                match self.peek_collection_type() {
+                    CollectionType::Object => {
+                        if self.next_entry()? {
+                            self.skip_str()?;
+                            break;
+                        }
+                    }
+                    CollectionType::Array => {
+                        if self.next_item()? {
+                            break;
+                        }
+                    }
+                }
+                depth -= 1;
             }
-            ValueType::Null => self.pop_null()?,
         }
-        Ok(())
     }
 
     /// Pushes a "virtual" `null` literal as a value onto the stack, assuming that the current top
-- 
2.43.0


From c888b0341ac20c7ea0c172f61f8b1154210b2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 08/16] fix: keep the full exponent of numbers that are read
 out of order

---
 json/src/deserialize/text.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 3f32184..049e427 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -109,7 +109,7 @@ enum LookbackValue {
         negate: bool,
 
         /// The base-10 exponent for this number.
-        exp: i16,
+        exp: i32,
     },
 
     /// A JSON object. The entry data comes from the following items in `lookback_items`.
@@ -290,7 +290,6 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                             ));
                         }
                     }
-                    let exp = i32::from(exp);
                     T::from_builder(builder, negate, exp)
                         .ok_or_else(|| DeserializeError::new(pos.clone(), NumberOverflow))
                 } else {
@@ -1865,12 +1864,6 @@ trait TextReaderExt: TextReader {
                         };
                         self.read_number_into_builder(&mut builder)?
                     };
-                    let Ok(exp) = exp.try_into() else {
-                        return Err(DeserializeError::new(
-                            pos,
-                            DeserializeErrorMessage::NumberOverflow,
-                        ));
-                    };
                     outline.push_item(
                         &mut last_child_index,
                         pos,
-- 
2.43.0


From f24fd81cff608007254835327927492c3405ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 09/16] fix: Struct::with and Tuple::with rejected correct use
 and accepted misuse

---
 core/src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 4dee6dd..c5a7c15 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -405,7 +405,7 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Struct::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
@@ -489,7 +489,7 @@ impl<'a, O: Outliner + ?Sized> Tuple<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Tuple::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
-- 
2.43.0


From 7e84146550a5c5d06e657ca814363ddb0e68a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 10/16] fix: implement close_str for TextDeserializer

---
 json/src/deserialize/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 049e427..0388034 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -452,7 +452,11 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
     }
 
     fn close_str(&mut self) -> Result<(), Self::Error> {
-        todo!()
+        if self.next_char()?.is_some() {
+            self.skip_str()?;
+            return Err(self.error("string has more characters than expected".into()));
+        }
+        Ok(())
     }
 
     fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), Self::Error> {
-- 
2.43.0


From 0be453361b2690c2ee763b976d1d9b0e4c5b69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 11/16] fix: report an unnamed virtual null as an error instead
 of panicking

---
 json/src/deserialize/text.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 0388034..b11c75d 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -327,14 +327,13 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
         &self,
         key: Option<&'static str>,
     ) -> DeserializeError<Reader::Position> {
-        if let Some(key) = key {
-            DeserializeError::new(
-                self.outline.stack_items.last().unwrap().pos.clone(),
-                DeserializeErrorMessage::MissingKey(key.to_owned()),
-            )
-        } else {
-            todo!()
-        }
+        DeserializeError::new(
+            self.outline.stack_items.last().unwrap().pos.clone(),
+            match key {
+                Some(key) => DeserializeErrorMessage::MissingKey(key.to_owned()),
+                None => DeserializeErrorMessage::MissingItems,
+            },
+        )
     }
 }
 
-- 
2.43.0


From 40298202e6e08378b41cf532aa869a0d41b17711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 12/16] fix: check that a value was not consumed yet in all of
 its accessors

---
 core/src/helper.rs | 1 +
 json/src/helper.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index c5a7c15..60aad77 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -341,6 +341,7 @@ impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
         max_index: usize,
         names: &'static NameMap<usize>,
     ) -> Result<usize, D::Error> {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         let res = self.source.get_tag(max_index, names)?;
         *self.done_flag = true;
         Ok(res)
diff --git a/json/src/helper.rs b/json/src/helper.rs
index 40ea3b8..b857fa1 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -16,6 +16,7 @@ pub trait ValueExt<'a, O: JsonOutliner + ?Sized> {
 impl<'a, O: JsonOutliner + ?Sized> ValueExt<'a, O> for Value<'a, O> {
     fn into_null(self) -> Result<(), O::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.pop_null()?;
         *done_flag = true;
         Ok(())
@@ -23,6 +24,7 @@ impl<'a, O: JsonOutliner + ?Sized> ValueExt<'a, O> for Value<'a, O> {
 
     fn into_object(self) -> Result<Object<'a, O>, O::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.open_object()?;
         Ok(Object::new(source, done_flag))
     }
@@ -37,6 +39,7 @@ pub trait ValueSerialierExt<'a, S: JsonSerializer + ?Sized> {
 impl<'a, S: JsonSerializer + ?Sized> ValueSerialierExt<'a, S> for Value<'a, S> {
     fn into_list_streaming(self) -> Result<List<'a, S>, S::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.open_list_streaming()?;
         Ok(List::new(source, done_flag, None))
     }
@@ -61,6 +64,7 @@ impl<'a, D: JsonDeserializer + ?Sized> ValueDeserializerExt<'a, D> for Value<'a,
 
     fn skip(self) -> Result<(), D::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.skip_value()?;
         *done_flag = true;
         Ok(())
@@ -68,6 +72,7 @@ impl<'a, D: JsonDeserializer + ?Sized> ValueDeserializerExt<'a, D> for Value<'a,
 
     fn into_collection(self) -> Result<Collection<'a, D>, D::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         if source.peek_value_type() == ValueType::Object {
             source.open_object()?;
             Ok(Object::new(source, done_flag).into())
-- 
2.43.0


From 0bf35a643a75f785cd0367cc641e6772966b824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 13/16] fix: count items read using List::next against the
 known list length

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 60aad77..383c13f 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -583,6 +583,7 @@ impl<'a, D: Deserializer + ?Sized> List<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         self.ready_flag = false;
         Ok(if self.source.next_item()? {
+            self.rem_len = self.rem_len.wrapping_sub(1);
             Some(Value::new(self.source, &mut self.ready_flag))
         } else {
             *self.done_flag = true;
-- 
2.43.0


From 2375b4f796eb0db680b25c3fb6e8775f9bb90717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 14/16] fix: accept numbers whose exponent does not fit 32 bits

---
 json/src/deserialize/text.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index b11c75d..0f0a5c8 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1637,17 +1637,17 @@ trait TextReaderExt: TextReader {
                 Some(ch @ '0'..='9') => {
                     self.next();
                     if !exp_builder.push_digit((ch as u8) - b'0') {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
+                        // The exact exponent doesn't matter when it is this large
+                        exp_builder = u32::MAX;
                     }
                 }
                 _ => {
-                    let Some(exp) = i32::from_builder(exp_builder, negate_exp, 0) else {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
-                    };
-                    let Some(exp) = exp.checked_add(decimal_exp) else {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
+                    let exp = match i32::from_builder(exp_builder, negate_exp, 0) {
+                        Some(exp) => exp,
+                        None if negate_exp => i32::MIN,
+                        None => i32::MAX,
                     };
-                    return Ok((negate, exp));
+                    return Ok((negate, exp.saturating_add(decimal_exp)));
                 }
             }
         }
-- 
2.43.0


From 1cb087ab62a2b9121b3202a4d441e9056aa4b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 15/16] fix: Object::inline leaves the deserializer in a
 consistent state

A struct implementation that left its last value unread was not noticed: the
next operation on the object reached the deserializer with a value on top of
its stack. Assert that the struct is ready again, as the other wrappers do.
---
 core/src/helper.rs | 6 ++++++
 json/src/helper.rs | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 383c13f..71deb45 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -410,6 +410,12 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
         Ok(res)
     }
 
+    /// Indicates whether the value of the last field that was accessed (if any) has been consumed,
+    /// so that the struct can be used further.
+    pub fn is_ready(&self) -> bool {
+        self.ready_flag
+    }
+
     /// Gets the value of a named field in the struct. Note that fields must be accessed in the
     /// order they are defined.
     pub fn field(&mut self, name: &'static str) -> Result<Value<O>, O::Error> {
diff --git a/json/src/helper.rs b/json/src/helper.rs
index b857fa1..98d8728 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -162,10 +162,13 @@ impl<'a, D: JsonDeserializer + ?Sized> Object<'a, D> {
         context: &mut Ctx,
     ) -> Result<T, D::Error> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
+        self.ready_flag = false;
         let mut done = false;
         let mut st = Struct::new(self.source, &mut done);
-        // TODO: Verify `st.ready_flag`, somehow
-        T::deserialize_content(&mut st, context)
+        let res = T::deserialize_content(&mut st, context)?;
+        assert!(st.is_ready(), "{}", INVALID_STATE_ERROR);
+        self.ready_flag = true;
+        Ok(res)
     }
 }
 
-- 
2.43.0


From 7058ef467bc49cd170d4ee82b75122ab287a286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:34 +0000
Subject: [PATCH 16/16] fix: leave no parts of a broken value in the look-back
 data

An error while a value is kept for later left the digits of numbers behind the
last string in the look-back data. Reading that string afterwards created a
str from bytes which are not valid UTF-8.
---
 json/src/deserialize/text.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 0f0a5c8..d50a79b 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1026,12 +1026,22 @@ impl<Reader: TextReader> JsonDeserializer for TextDeserializer<Reader> {
                             depth,
                             &self.outline.lookback_data[data_index..key_end_index],
                         );
-                        let item = self.reader.read_lookback_value(
+                        let item_index = self.outline.lookback_items.len();
+                        let item = match self.reader.read_lookback_value(
                             &self.config,
                             data_index,
                             key_len_active,
                             &mut self.outline,
-                        )?;
+                        ) {
+                            Ok(item) => item,
+                            Err(err) => {
+                                // Don't leave parts of the value behind. They would count as data
+                                // for the last item.
+                                self.outline.lookback_items.truncate(item_index);
+                                self.outline.lookback_data.truncate(data_index);
+                                return Err(err);
+                            }
+                        };
                         self.outline.lookback_keys.insert_entry(
                             hash,
                             LookbackKey { depth, index: item },
-- 
2.43.0

