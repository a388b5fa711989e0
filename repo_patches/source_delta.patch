From ffae3cfdc9f255d5646387796195a7f4edf1dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 01/21] fix: decode \u escapes instead of panicking

---
 json/src/deserialize/text.rs | 41 +++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index a38d233..4fa932e 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1656,12 +1656,51 @@ trait TextReaderExt: TextReader {
             Some('n') => '\n',
             Some('r') => '\r',
             Some('t') => '\t',
-            Some('u') => todo!(),
+            Some('u') => return self.read_unicode_escape(pos),
             Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
             None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
         })
     }
 
+    /// Reads the remainder of a `\u` escape sequence, following the `u`. A surrogate pair, written
+    /// as two consecutive sequences, is combined into a single character. `pos` is the position
+    /// that is reported if the sequence is malformed.
+    fn read_unicode_escape(
+        &mut self,
+        pos: Self::Position,
+    ) -> Result<char, DeserializeError<Self::Position>> {
+        let mut code = self.read_hex_escape(&pos)?;
+        if let 0xD800..=0xDBFF = code {
+            if self.next() != Some('\\') || self.next() != Some('u') {
+                return Err(DeserializeError::new(pos, UnrecognizedEscape));
+            }
+            let low = self.read_hex_escape(&pos)?;
+            if !matches!(low, 0xDC00..=0xDFFF) {
+                return Err(DeserializeError::new(pos, UnrecognizedEscape));
+            }
+            code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+        }
+        char::from_u32(code).ok_or_else(|| DeserializeError::new(pos, UnrecognizedEscape))
+    }
+
+    /// Reads the four hexadecimal digits of a `\u` escape sequence.
+    fn read_hex_escape(
+        &mut self,
+        pos: &Self::Position,
+    ) -> Result<u32, DeserializeError<Self::Position>> {
+        let mut code = 0;
+        for _ in 0..4 {
+            match self.next() {
+                Some(ch) => match ch.to_digit(16) {
+                    Some(digit) => code = (code << 4) | digit,
+                    None => return Err(DeserializeError::new(pos.clone(), UnrecognizedEscape)),
+                },
+                None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
+            }
+        }
+        Ok(code)
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
-- 
2.43.0


From 14e58c2a3ec8732a7a74d8314a03da261d56102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/21] fix: read characters from JSON instead of panicking

---
 json/src/deserialize/text.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 4fa932e..e93e2f8 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -678,7 +678,13 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn get_char(&mut self) -> Result<char, Self::Error> {
-        todo!()
+        self.open_str()?;
+        if let Some(ch) = self.next_char()? {
+            if self.next_char()?.is_none() {
+                return Ok(ch);
+            }
+        }
+        Err(self.error("expected a string with exactly one character".into()))
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
-- 
2.43.0


From 187541dd74f2ab235ba0ab7a7b9ca489007b09a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 03/21] fix: implement close_str for the JSON deserializer

---
 json/src/deserialize/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index e93e2f8..f06e2ba 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -453,7 +453,11 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
     }
 
     fn close_str(&mut self) -> Result<(), Self::Error> {
-        todo!()
+        if self.next_char()?.is_none() {
+            Ok(())
+        } else {
+            Err(self.error("string has more characters than expected".into()))
+        }
     }
 
     fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), Self::Error> {
-- 
2.43.0


From fb5cbe4908926a904ccc6da4db7b69ffc33880a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/21] fix: report an unnamed virtual null read as another
 type as an error

---
 json/src/deserialize/text.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index f06e2ba..41c4803 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -328,14 +328,14 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
         &self,
         key: Option<&'static str>,
     ) -> DeserializeError<Reader::Position> {
-        if let Some(key) = key {
-            DeserializeError::new(
-                self.outline.stack_items.last().unwrap().pos.clone(),
-                DeserializeErrorMessage::MissingKey(key.to_owned()),
-            )
-        } else {
-            todo!()
-        }
+        DeserializeError::new(
+            self.outline.stack_items.last().unwrap().pos.clone(),
+            if let Some(key) = key {
+                DeserializeErrorMessage::MissingKey(key.to_owned())
+            } else {
+                DeserializeErrorMessage::Custom("missing value".into())
+            },
+        )
     }
 }
 
-- 
2.43.0


From f0c8051c0590bd3ff09712dfb707a07920b9fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 05/21] fix: allow comments before values that are set aside

---
 json/src/deserialize/text.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 41c4803..921e13f 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1833,12 +1833,8 @@ trait TextReaderExt: TextReader {
 
         // Keep reading until we are back to the depth we started at
         'next_value: loop {
+            self.skip_whitespace(config.allow_comments)?;
             match self.peek() {
-                Some(' ' | '\n' | '\r' | '\t') => {
-                    // Skip leading whitespace
-                    self.next();
-                    continue;
-                }
                 Some('"') => {
                     let pos = self.position();
                     self.next();
-- 
2.43.0


From 040d942e094a8cfc4cc8db8dc7ddd6d6e36eb379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 06/21] fix: keep the full exponent of numbers that are set
 aside

---
 json/src/deserialize/text.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 921e13f..865ddd6 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -109,7 +109,7 @@ enum LookbackValue {
         negate: bool,
 
         /// The base-10 exponent for this number.
-        exp: i16,
+        exp: i32,
     },
 
     /// A JSON object. The entry data comes from the following items in `lookback_items`.
@@ -290,7 +290,6 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                             ));
                         }
                     }
-                    let exp = i32::from(exp);
                     T::from_builder(builder, negate, exp)
                         .ok_or_else(|| DeserializeError::new(pos.clone(), NumberOverflow))
                 } else {
@@ -1856,12 +1855,6 @@ trait TextReaderExt: TextReader {
                         };
                         self.read_number_into_builder(&mut builder)?
                     };
-                    let Ok(exp) = exp.try_into() else {
-                        return Err(DeserializeError::new(
-                            pos,
-                            DeserializeErrorMessage::NumberOverflow,
-                        ));
-                    };
                     outline.push_item(
                         &mut last_child_index,
                         pos,
-- 
2.43.0


From 13bc532dd570692644bb1e4f545ce36caea670cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/21] fix: Struct::with and Tuple::with must require that the
 value was closed

---
 core/src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 4dee6dd..c5a7c15 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -405,7 +405,7 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Struct::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
@@ -489,7 +489,7 @@ impl<'a, O: Outliner + ?Sized> Tuple<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Tuple::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
-- 
2.43.0


From 884d3f6a7c251557725a15b620824d6540183a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 08/21] fix: List::next must update the remaining length

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index c5a7c15..932cb3e 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -582,6 +582,7 @@ impl<'a, D: Deserializer + ?Sized> List<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         self.ready_flag = false;
         Ok(if self.source.next_item()? {
+            self.rem_len = self.rem_len.wrapping_sub(1);
             Some(Value::new(self.source, &mut self.ready_flag))
         } else {
             *self.done_flag = true;
-- 
2.43.0


From 7442ea0db05c02a05d8168a467c9e737dbadcc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 09/21] fix: reject invalid UTF-8 and retry interrupted reads

---
 core/src/text_reader.rs | 59 +++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 35 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2a67561..b4d8354 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -189,42 +189,31 @@ impl std::fmt::Display for LineColumnPosition {
 /// Reads a single [`char`] from a stream, assuming UTF-8 encoding. Returns [`None`] if the stream
 /// has no data remaining and returns an error if an invalid or partial character is encountered.
 pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Option<char>> {
-    let mut x = 0;
-    if r.read(std::slice::from_mut(&mut x))? == 0 {
-        return Ok(None);
-    }
-    if x < 0b10000000 {
-        return Ok(Some(x.into()));
-    } 
-    let ch = if x < 0b11100000 {
-        let mut buf = [0u8; 1];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00011111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else if x < 0b11110000 {
-        let mut buf = [0u8; 2];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00001111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else if x < 0b11111000 {
-        let mut buf = [0u8; 3];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00000111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[2] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else {
-        None
+    let mut buf = [0u8; 4];
+    loop {
+        match r.read(&mut buf[..1]) {
+            Ok(0) => return Ok(None),
+            Ok(_) => break,
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err),
+        }
+    }
+    let len = match buf[0] {
+        0x00..=0x7F => 1,
+        0xC2..=0xDF => 2,
+        0xE0..=0xEF => 3,
+        0xF0..=0xF4 => 4,
+        _ => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "invalid UTF-8 sequence",
+            ))
+        }
     };
-    if let Some(ch) = ch {
-        Ok(Some(ch))
-    } else {
-        // Error
-        todo!();
+    r.read_exact(&mut buf[1..len])?;
+    match std::str::from_utf8(&buf[..len]) {
+        Ok(str) => Ok(str.chars().next()),
+        Err(err) => Err(io::Error::new(io::ErrorKind::InvalidData, err)),
     }
 }
 
-- 
2.43.0


From 8312d5edadc0fc4b55398ae3b93152813d3dc3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 10/21] fix: escape control characters in strings

---
 json/src/serialize/text.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json/src/serialize/text.rs b/json/src/serialize/text.rs
index c4d4b71..50045c0 100644
--- a/json/src/serialize/text.rs
+++ b/json/src/serialize/text.rs
@@ -229,6 +229,14 @@ impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
             '\n' => self.writer.write_str("\\n"),
             '\r' => self.writer.write_str("\\r"),
             '\t' => self.writer.write_str("\\t"),
+            '\x00'..='\x1F' => {
+                const DIGITS: &[u8; 16] = b"0123456789abcdef";
+                self.writer.write_str("\\u00")?;
+                self.writer
+                    .write_char(DIGITS[value as usize >> 4].into())?;
+                self.writer
+                    .write_char(DIGITS[value as usize & 0xF].into())
+            }
             value => self.writer.write_char(value),
         }
     }
-- 
2.43.0


From 02b686b0026d14de931e2a004276a945a1b4d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 11/21] fix: reject raw control characters in strings

---
 json/src/deserialize/text.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 865ddd6..c522307 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -691,6 +691,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
+        let pos = self.reader.position();
         match &mut self.state {
             DeserializerState::StreamingString { is_key } => match self.reader.next() {
                 Some('"') => {
@@ -708,6 +709,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
                     Ok(None)
                 }
                 Some('\\') => Ok(Some(self.reader.read_escape_sequence()?)),
+                Some('\0'..='\x1F') => Err(DeserializeError::new(pos, UnexpectedChar)),
                 Some(ch) => Ok(Some(ch)),
                 None => Err(DeserializeError::new(self.reader.position(), UnexpectedEof)),
             },
@@ -1720,6 +1722,7 @@ trait TextReaderExt: TextReader {
     ) -> Result<bool, DeserializeError<Self::Position>> {
         let mut suffix = expected;
         loop {
+            let pos = self.position();
             if let Some(exp_ch) = suffix.peek() {
                 let act_ch = match self.next() {
                     Some('"') => {
@@ -1728,6 +1731,7 @@ trait TextReaderExt: TextReader {
                         return Ok(false);
                     }
                     Some('\\') => self.read_escape_sequence()?,
+                    Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                     Some(ch) => ch,
                     None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
@@ -1746,6 +1750,7 @@ trait TextReaderExt: TextReader {
                         return Ok(true);
                     }
                     Some('\\') => self.read_escape_sequence()?,
+                    Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                     Some(ch) => ch,
                     None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
@@ -1769,9 +1774,11 @@ trait TextReaderExt: TextReader {
         data: &mut Vec<u8>,
     ) -> Result<(), DeserializeError<Self::Position>> {
         loop {
+            let pos = self.position();
             let ch = match self.next() {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
+                Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                 Some(ch) => ch,
                 None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
             };
@@ -1784,9 +1791,11 @@ trait TextReaderExt: TextReader {
     /// ending after the end quote.
     fn read_str_into(&mut self, str: &mut String) -> Result<(), DeserializeError<Self::Position>> {
         loop {
+            let pos = self.position();
             let ch = match self.next() {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
+                Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                 Some(ch) => ch,
                 None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
             };
-- 
2.43.0


From decad42761c59e107d2ac3d6fdd715bc9df3a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 12/21] fix: skip deeply nested values without recursion

---
 json/src/deserialize/mod.rs | 63 +++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index a2a3b86..d969685 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -30,30 +30,53 @@ pub trait JsonDeserializer: JsonOutliner + Deserializer {
 
     /// Assuming that the top item on the stack is a value, pops it without deserialization.
     fn skip_value(&mut self) -> Result<(), Self::Error> {
-        match self.peek_value_type() {
-            ValueType::String => {
-                self.open_str()?;
-                self.skip_str()?;
-            }
-            ValueType::Number => {
-                self.get_f32()?;
-            }
-            ValueType::Object => {
-                self.open_object()?;
-                self.skip_object()?;
-            }
-            ValueType::Array => {
-                self.open_list()?;
-                while self.next_item()? {
-                    self.skip_value()?;
+        // Containers are tracked by depth, rather than using recursion, so that deeply nested
+        // values can't overflow the call stack.
+        let mut depth: usize = 0;
+        loop {
+            match self.peek_value_type() {
+                ValueType::String => {
+                    self.open_str()?;
+                    self.skip_str()?;
+                }
+                ValueType::Number => {
+                    self.get_f32()?;
+                }
+                ValueType::Object => {
+                    self.open_object()?;
+                    depth += 1;
+                }
+                ValueType::Array => {
+                    self.open_list()?;
+                    depth += 1;
                 }
+                ValueType::Bool => {
+                    self.get_bool()?;
+                }
+                ValueType::Null => self.pop_null()?,
             }
-            ValueType::Bool => {
-                self.get_bool()?;
+
+            // Go to the next nested value, closing any containers that don't have one
+            loop {
+                if depth == 0 {
+                    return Ok(());
+                }
+                let has_next = match self.peek_collection_type() {
+                    CollectionType::Object => {
+                        let has_next = self.next_entry()?;
+                        if has_next {
+                            self.skip_str()?;
+                        }
+                        has_next
+                    }
+                    CollectionType::Array => self.next_item()?,
+                };
+                if has_next {
+                    break;
+                }
+                depth -= 1;
             }
-            ValueType::Null => self.pop_null()?,
         }
-        Ok(())
     }
 
     /// Pushes a "virtual" `null` literal as a value onto the stack, assuming that the current top
-- 
2.43.0


From 2814e3aef35e2604a833ec26d5d23f5ef6377b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 13/21] fix: accept integer zeros with any exponent

---
 json/src/deserialize/number.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/number.rs b/json/src/deserialize/number.rs
index c7bcd7b..2d74be5 100644
--- a/json/src/deserialize/number.rs
+++ b/json/src/deserialize/number.rs
@@ -21,7 +21,10 @@ macro_rules! impl_unsigned {
         impl Num for $ty {
             type Builder = Self;
             fn from_builder(value: Self, negate: bool, exp_10: i32) -> Option<Self> {
-                if negate && value != 0 {
+                if value == 0 {
+                    return Some(0);
+                }
+                if negate {
                     return None;
                 }
                 let ten: Self = 10;
@@ -64,6 +67,9 @@ macro_rules! impl_signed {
         impl Num for $ty {
             type Builder = $unsigned_ty;
             fn from_builder(mut value: Self::Builder, negate: bool, exp_10: i32) -> Option<Self> {
+                if value == 0 {
+                    return Some(0);
+                }
                 let ten: Self::Builder = 10;
                 if let Ok(exp_10) = u32::try_from(exp_10) {
                     let pow = ten.checked_pow(exp_10)?;
-- 
2.43.0


From 657dc0a2d95588747af8b56d867f7ed31edff702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 14/21] fix: position validation errors for strings at the
 string

---
 json/src/deserialize/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index c522307..3f4b324 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -413,6 +413,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 match self.reader.next() {
                     Some('"') => {
                         self.state = DeserializerState::StreamingString { is_key: false };
+                        self.error_pos = pos;
                         Ok(())
                     }
                     Some(_) => Err(DeserializeError::new(
@@ -428,6 +429,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
             } => {
                 let (pos, value, data) = self.outline.take_value(index);
                 if let LookbackValue::String = value {
+                    self.error_pos = pos.clone();
                     let data = data.as_ptr_range();
                     let base_ptr = self.outline.lookback_data.as_ptr();
                     self.state = DeserializerState::LookbackString {
-- 
2.43.0


From 4fca5a9fccace7fcbc78db05696974a6f2c8bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 15/21] fix: position syntax errors in set-aside values at the
 offending character

---
 json/src/deserialize/text.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 3f4b324..5683403 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1835,7 +1835,6 @@ trait TextReaderExt: TextReader {
         mut key_len_active: u32,
         outline: &mut Outline<Self::Position>,
     ) -> Result<usize, DeserializeError<Self::Position>> {
-        let pos = self.position();
         let mut depth = outline.top_depth().unwrap();
         let mut last_child_index = usize::MAX;
         let mut collection_type = CollectionType::Object; // Default value prior to being set.
@@ -2005,13 +2004,13 @@ trait TextReaderExt: TextReader {
                 }
                 Some(_) => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedChar,
                     ))
                 }
                 None => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedEof,
                     ))
                 }
-- 
2.43.0


From 16f16e64c84e0e108d8d1b47fb9f9fdf34bc77e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 16/21] fix: stop wrapped values from being used after they
 were consumed

---
 core/src/helper.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 932cb3e..52de1bc 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -42,6 +42,7 @@ impl<'a, O: Outliner + ?Sized> Value<'a, O> {
     /// should be set to `true` when the value at the top of the stack has been popped, and no
     /// lower stack items should be affected.
     pub fn into_raw(self) -> (&'a mut O, &'a mut bool) {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         (self.source, self.done_flag)
     }
 
@@ -341,6 +342,7 @@ impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
         max_index: usize,
         names: &'static NameMap<usize>,
     ) -> Result<usize, D::Error> {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         let res = self.source.get_tag(max_index, names)?;
         *self.done_flag = true;
         Ok(res)
-- 
2.43.0


From 83bd6aff86b776ec6c437a5f41d842cd4efca8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 17/21] fix: require that the root value is written

---
 json/src/serialize/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json/src/serialize/mod.rs b/json/src/serialize/mod.rs
index cae5d35..fb5e807 100644
--- a/json/src/serialize/mod.rs
+++ b/json/src/serialize/mod.rs
@@ -49,9 +49,7 @@ pub fn to_writer_using<
     context: &mut Ctx,
 ) -> Result<(), Writer::Error> {
     let mut s = TextSerializer::new(TextSerializerConfig::default(), writer);
-    let mut done_flag = false;
-    value.serialize(Value::new(&mut s, &mut done_flag), context)?;
-    Ok(())
+    Value::with(&mut s, |target| value.serialize(target, context))
 }
 
 /// Serializes a value of type `T` as a JSON string.
-- 
2.43.0


From 2c686a99458be67600b3a06ee53bb6173847588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 18/21] fix: require that inlined structs consume their last
 field

---
 core/src/helper.rs | 5 +++++
 json/src/helper.rs | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 52de1bc..86dd143 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -420,6 +420,11 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
         Ok(Value::new(self.source, &mut self.ready_flag))
     }
 
+    /// Panics if the value of the most recently accessed field has not been consumed yet.
+    pub fn assert_ready(&self) {
+        assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
+    }
+
     /// Asserts that there are no more fields in the struct and closes it.
     pub fn close(self) -> Result<(), O::Error> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
diff --git a/json/src/helper.rs b/json/src/helper.rs
index 40ea3b8..4bf6da5 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -159,8 +159,9 @@ impl<'a, D: JsonDeserializer + ?Sized> Object<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         let mut done = false;
         let mut st = Struct::new(self.source, &mut done);
-        // TODO: Verify `st.ready_flag`, somehow
-        T::deserialize_content(&mut st, context)
+        let res = T::deserialize_content(&mut st, context)?;
+        st.assert_ready();
+        Ok(res)
     }
 }
 
-- 
2.43.0


From f6a567a0bc0924d948374a8cd994990c42b2a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 19/21] fix: stop consumed values from being peeked at

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 86dd143..37c58b7 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -34,6 +34,7 @@ impl<'a, O: Outliner + ?Sized> Value<'a, O> {
 
     /// Gets an immutable reference to the underlying [`Outliner`] for this  [`Value`].
     pub fn as_raw(&self) -> &O {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         self.source
     }
 
-- 
2.43.0


From 17c95c8d6d45535d082a965b9b2bbed94978073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 20/21] fix: let derived types have fields named like the
 variables of the expansion

---
 derive/src/serialize.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 9b3afe8..08a3d68 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -229,9 +229,11 @@ fn serialize_fields(
             let mut body = TokenStream::new();
             for field in &fields.named {
                 let field_ident = field.ident.as_ref().unwrap();
+                // Fields are bound to prefixed names so that they can't shadow `st` or `ctx`
+                let binding = quote::format_ident!("field_{}", field_ident);
                 let field_repr = FieldRepr::get(field)?;
-                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #field_ident });
-                cons.extend(quote! { #field_ident, });
+                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #binding });
+                cons.extend(quote! { #field_ident: #binding, });
                 body.extend(serialize);
             }
             (quote! { { #cons } }, body)
-- 
2.43.0


From 9deaf2eca8d70a8dc5b02ace326e6f89607a387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 21/21] fix: wrong-type error for a tag names both of the
 accepted types

---
 json/src/deserialize/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index d969685..7cf045d 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -131,7 +131,7 @@ pub fn get_tag<D: JsonDeserializer + ?Sized>(
 ) -> Result<usize, D::Error> {
     if let ValueType::String = deserializer.peek_value_type() {
         deserializer.get_name(names)
-    } else {
+    } else if let ValueType::Number = deserializer.peek_value_type() {
         let index = deserializer.get_u64()?;
         if let Ok(index) = index.try_into() {
             if index <= max_index {
@@ -142,6 +142,8 @@ pub fn get_tag<D: JsonDeserializer + ?Sized>(
         } else {
             Err(deserializer.error_invalid_index(usize::MAX))
         }
+    } else {
+        Err(deserializer.error_expected_type(&[ValueType::String, ValueType::Number]))
     }
 }
 
-- 
2.43.0

