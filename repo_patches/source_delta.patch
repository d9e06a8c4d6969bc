From 984d0fe8867ba0467999c388682ad90ac2321eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 01/15] fix: Pool::get rejects the index equal to the pool's
 length instead of panicking

---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9861e95..3dcfb1f 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -349,7 +349,7 @@ impl Pool {
     /// If the index is 0 or greater than the size of the pool, an error is returned.
     pub fn get(&self, index: u16) -> Result<&Item> {
         // bounds checking
-        if index != 0 && index <= self.len() {
+        if index != 0 && index < self.len() {
             if let Some(ref item) = self.by_index[index as usize - 1] {
                 return Ok(item);
             }
-- 
2.43.0


From 9095adde5b2ec217a954b43687546727d896c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 02/15] fix: a default Pool is an empty pool of encoded length
 1

---
 src/basic/constpool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 3dcfb1f..331a528 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -309,13 +309,18 @@ pub enum ReferenceKind {
 /// A `Vec` and a `HashMap` is used internally to have fast lookups by index and value.
 /// To connect both, `Rc`s are used.
 /// As a result, we will have a little overhead, but this should be negligible.
-#[derive(Default)]
 pub struct Pool {
     length: u16,
     by_index: Vec<Option<Rc<Item>>>,
     by_entry: HashMap<Rc<Item>, u16>,
 }
 
+impl Default for Pool {
+    fn default() -> Self {
+        Pool::new()
+    }
+}
+
 impl Pool {
     pub fn new() -> Self {
         Pool {
-- 
2.43.0


From 4043901a2188b0b3d8674bd9413550c78aecd7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 03/15] fix: Pool::push finds present items in a full pool and
 refuses a long or double that does not fit

---
 src/basic/constpool.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 331a528..663e636 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -396,33 +396,31 @@ impl Pool {
     }
 
     /// Pushes an item on the pool.
+    /// If an equal item is already in the pool, its index is returned.
     pub fn push(&mut self, item: Item) -> Result<u16> {
-        if self.len() == u16::max_value() {
-            return Err(Error::CPTooLarge);
+        // check if in pool, if not insert it
+        if let Some(&index) = self.by_entry.get(&item) {
+            return Ok(index);
         }
 
+        // long and double take an additional space
         let double = item.is_double();
-        let length = &mut self.length;
+        let size = if double { 2 } else { 1 };
+        if size > u16::max_value() - self.len() {
+            return Err(Error::CPTooLarge);
+        }
 
+        let index = self.length;
         let rc_item = Rc::new(item);
-        let rc_item1 = Rc::clone(&rc_item);
 
-        let by_index = &mut self.by_index;
+        self.by_index.push(Some(Rc::clone(&rc_item)));
+        if double {
+            self.by_index.push(None);
+        }
+        self.length += size;
+        self.by_entry.insert(rc_item, index);
 
-        // check if in pool, if not insert it
-        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
-            by_index.push(Some(Rc::clone(&rc_item1)));
-
-            let prev_length = *length;
-            if double {
-                // long and double take an additional space
-                by_index.push(None);
-                *length += 2;
-            } else {
-                *length += 1;
-            }
-            prev_length
-        }))
+        Ok(index)
     }
 
     pub fn iter(&self) -> PoolIter {
-- 
2.43.0


From 8b766a90499331ea2f3680d29ec1263e5e41491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 04/15] fix: PoolIter yields the index of each item and does
 not overflow at the end of a full pool

---
 src/basic/constpool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 663e636..ef7ded0 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -451,10 +451,10 @@ impl<'a> Iterator for PoolIter<'a> {
     type Item = (u16, &'a Item);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.index += 1;
         if let Some(rc_item) = self.iter.next() {
+            self.index += 1;
             if let Some(ref item) = *rc_item {
-                Some((self.index + 1, item))
+                Some((self.index, item))
             } else {
                 self.next()
             }
-- 
2.43.0


From 748d5570c6a7bb8cde5c3dbe4b663ae543d62d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 05/15] fix: constant pool entries keep the indices the class
 file gives them

---
 src/basic/constpool.rs  |  8 +++++++-
 src/basic/parser/mod.rs | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index ef7ded0..fd1fcb0 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -403,6 +403,11 @@ impl Pool {
             return Ok(index);
         }
 
+        self.append(item)
+    }
+
+    /// Appends an item at the next index, even if the pool already contains an equal one.
+    pub(super) fn append(&mut self, item: Item) -> Result<u16> {
         // long and double take an additional space
         let double = item.is_double();
         let size = if double { 2 } else { 1 };
@@ -418,7 +423,8 @@ impl Pool {
             self.by_index.push(None);
         }
         self.length += size;
-        self.by_entry.insert(rc_item, index);
+        // equal items are found under their first index
+        self.by_entry.entry(rc_item).or_insert(index);
 
         Ok(index)
     }
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index f620734..6bb2f84 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -156,8 +156,14 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
             _ => return Err(Error::InvalidCPItem(index)),
         };
 
-        pool.push(item)?;
-        index += 1;
+        // every entry keeps its own index, even if it repeats an earlier one
+        pool.append(item)?;
+
+        // a long or double also needs the following index
+        if pool.len() > size {
+            return Err(Error::InvalidCPItem(index));
+        }
+        index = pool.len();
     }
 
     Ok(pool)
-- 
2.43.0


From 5ecc28de08f16fc83676f0a8ce56e59c713487eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 06/15] fix: read_str rejects bad continuation bytes and
 unpaired surrogates

---
 src/basic/parser/decode.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 8029079..40a046d 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -123,19 +123,23 @@ impl<'a> Decoder<'a> {
             } else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {
                 // 2 bytes
                 i -= 2;
-                let r2 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
                 (r1 & 0x1F) << 6 | (r2 & 0x3F)
             } else if r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {
                 i -= 3;
-                let r2 = u32::from(self.read_u8()?);
-                let r3 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
+                let r3 = self.read_continuation()?;
                 if r1 == 0xED && r2 >= 0xA0 && r2 <= 0xAF {
                     if i >= 3 {
                         i -= 3;
 
-                        self.read_u8()?;
-                        let r5 = u32::from(self.read_u8()?);
-                        let r6 = u32::from(self.read_u8()?);
+                        // the low surrogate has to follow
+                        let r4 = self.read_u8()?;
+                        let r5 = self.read_continuation()?;
+                        let r6 = self.read_continuation()?;
+                        if r4 != 0xED || r5 < 0xB0 {
+                            return Err(Error::InvalidUTF8);
+                        }
                         // r1 and r4 can be ignored
                         0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                             + (r6 & 0x3F)
@@ -158,6 +162,16 @@ impl<'a> Decoder<'a> {
         Ok(out)
     }
 
+    /// Reads a continuation byte of a modified UTF-8 string
+    fn read_continuation(&mut self) -> Result<u32> {
+        let byte = self.read_u8()?;
+        if byte & 0xC0 == 0x80 {
+            Ok(u32::from(byte))
+        } else {
+            Err(Error::InvalidUTF8)
+        }
+    }
+
     /// Checks for bounds
     fn check(&self, location: usize) -> Result<()> {
         if location <= self.limit {
-- 
2.43.0


From 523f7eb02c038eab9fc0412b4b430b7fca4a44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 07/15] fix: recognise the EnclosingMethod attribute by its
 name

---
 src/basic/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 6bb2f84..3e5db7e 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -234,7 +234,7 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
                 Attribute::ConstantValue(index)
             }
             "Deprecated" => Attribute::Deprecated,
-            "EnclosingMethods" => parse_enclosing_method(&mut attr_decoder)?,
+            "EnclosingMethod" => parse_enclosing_method(&mut attr_decoder)?,
             "Exceptions" => parse_exceptions(&mut attr_decoder)?,
             "InnerClasses" => parse_inner_classes(&mut attr_decoder)?,
             "LineNumberTable" => parse_line_number_table(&mut attr_decoder)?,
-- 
2.43.0


From 0efd655a3383f453769d8ac8e1c3ec0b69a4c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 08/15] fix: the parameter count of MethodParameters is one
 byte

---
 src/basic/parser/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 01ca8a6..22333a7 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -155,7 +155,7 @@ fn parse_verification_type(decoder: &mut Decoder) -> Result<VerificationType> {
 
 /// Parses the `MethodParameters` attribute.
 pub fn parse_method_parameters(decoder: &mut Decoder) -> Result<Attribute> {
-    let count = decoder.read_u16()?;
+    let count = decoder.read_u8()?;
     let mut params = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let name = decoder.read_u16()?;
-- 
2.43.0


From dd3fa2f1036533ff75f86fb05ed85562917ae39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 09/15] fix: the table length of a local variable target is two
 bytes

---
 src/basic/parser/annotation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index b4bfced..d7717dd 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -155,7 +155,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
-    let length = decoder.read_u8()?;
+    let length = decoder.read_u16()?;
     let mut table = Vec::with_capacity(length as usize);
 
     for _ in 0..length {
-- 
2.43.0


From ead6919eecabf7205cc6b956f7713ebf78ad84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 10/15] fix: decode wide astore by its opcode

---
 src/basic/parser/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 8227f42..3cd6517 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -329,7 +329,7 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             0x37 => LStore(decoder.read_u16()?),
             0x38 => FStore(decoder.read_u16()?),
             0x39 => DStore(decoder.read_u16()?),
-            0x40 => AStore(decoder.read_u16()?),
+            0x3A => AStore(decoder.read_u16()?),
             0x84 => {
                 let index = decoder.read_u16()?;
                 let value = decoder.read_i16()?;
-- 
2.43.0


From 07bcf597ad9e0cce08d0f5657ce74eca5f297b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 11/15] fix: tableswitch bounds cannot overflow, low must not
 exceed high

---
 src/basic/parser/code.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 3cd6517..bbd9774 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -248,8 +248,12 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             let low = decoder.read_i32()?;
             let high = decoder.read_i32()?;
 
-            let mut offsets = Vec::with_capacity((high - low + 1) as usize);
-            for _ in low..(high + 1) {
+            if low > high {
+                return Err(Error::InvalidInstruction { op_code, at });
+            }
+
+            let mut offsets = Vec::new();
+            for _ in low..=high {
                 offsets.push(decoder.read_i32()?);
             }
 
-- 
2.43.0


From c160ddd2de81b0aea52690fd5ae1edfdbf28e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 12/15] fix: MODULE and MANDATED are the single bit 0x8000

---
 src/basic/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/tree.rs b/src/basic/tree.rs
index ff92693..2c7e173 100644
--- a/src/basic/tree.rs
+++ b/src/basic/tree.rs
@@ -110,8 +110,8 @@ bitflags! {
         const SYNTHETIC    = 0b0001_0000_0000_0000;
         const ANNOTATION   = 0b0010_0000_0000_0000;
         const ENUM         = 0b0100_0000_0000_0000;
-        const MODULE       = 0b1000_0000_0000_0001;
-        const MANDATED     = 0b1000_0000_0000_0001;
+        const MODULE       = 0b1000_0000_0000_0000;
+        const MANDATED     = 0b1000_0000_0000_0000;
     }
 }
 
-- 
2.43.0


From 7d2846c1746fd1dd285320ddbcfb25aae89a087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 13/15] fix: element counts read from the input do not reserve
 memory

---
 src/basic/parser/annotation.rs | 14 +++++++-------
 src/basic/parser/class.rs      | 24 ++++++++++++------------
 src/basic/parser/code.rs       |  2 +-
 src/basic/parser/method.rs     | 16 ++++++++--------
 src/basic/parser/mod.rs        |  8 ++++----
 5 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index d7717dd..b666480 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -3,7 +3,7 @@ use super::*;
 /// Reads the next few parameter annotations.
 pub fn parse_parameter_annotations(decoder: &mut Decoder) -> Result<Vec<Vec<Annotation>>> {
     let count = decoder.read_u8()?;
-    let mut annotations = Vec::with_capacity(count as usize);
+    let mut annotations = Vec::new();
     for _ in 0..count {
         annotations.push(parse_annotations(decoder)?);
     }
@@ -13,7 +13,7 @@ pub fn parse_parameter_annotations(decoder: &mut Decoder) -> Result<Vec<Vec<Anno
 /// Reads the next few annotations.
 pub fn parse_annotations(decoder: &mut Decoder) -> Result<Vec<Annotation>> {
     let count = decoder.read_u16()?;
-    let mut annotations = Vec::with_capacity(count as usize);
+    let mut annotations = Vec::new();
     for _ in 0..count {
         annotations.push(parse_annotation(decoder)?);
     }
@@ -23,7 +23,7 @@ pub fn parse_annotations(decoder: &mut Decoder) -> Result<Vec<Annotation>> {
 /// Reads the next few type annotations.
 pub fn parse_type_annotations(decoder: &mut Decoder) -> Result<Vec<TypeAnnotation>> {
     let count = decoder.read_u16()?;
-    let mut annotations = Vec::with_capacity(count as usize);
+    let mut annotations = Vec::new();
     for _ in 0..count {
         annotations.push(parse_type_annotation(decoder)?);
     }
@@ -34,7 +34,7 @@ pub fn parse_type_annotations(decoder: &mut Decoder) -> Result<Vec<TypeAnnotatio
 fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
     let type_index = decoder.read_u16()?;
     let count = decoder.read_u16()?;
-    let mut element_value_pairs = Vec::with_capacity(count as usize);
+    let mut element_value_pairs = Vec::new();
 
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
@@ -75,7 +75,7 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
         )?))),
         b'[' => {
             let count = decoder.read_u16()?;
-            let mut element_values = Vec::with_capacity(count as usize);
+            let mut element_values = Vec::new();
 
             for _ in 0..count {
                 element_values.push(parse_element_value(decoder)?);
@@ -156,7 +156,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
     let length = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(length as usize);
+    let mut table = Vec::new();
 
     for _ in 0..length {
         let start = decoder.read_u16()?;
@@ -175,7 +175,7 @@ fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget
 /// Parses the type path of a type annotation
 fn parse_type_path(decoder: &mut Decoder) -> Result<Vec<TypePathElement>> {
     let length = decoder.read_u8()?;
-    let mut type_path = Vec::with_capacity(length as usize);
+    let mut type_path = Vec::new();
 
     for _ in 0..length {
         let path_kind = match decoder.read_u8()? {
diff --git a/src/basic/parser/class.rs b/src/basic/parser/class.rs
index a9f39e0..330251e 100644
--- a/src/basic/parser/class.rs
+++ b/src/basic/parser/class.rs
@@ -4,10 +4,10 @@ use self::decode::Decoder;
 /// Parses the `BootstrapMethods` attribute
 pub fn parse_bootstrap_methods(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut bootstrap_methods = Vec::with_capacity(count as usize);
+    let mut bootstrap_methods = Vec::new();
     for _ in 0..count {
         let method_ref = decoder.read_u16()?;
-        let mut arguments = Vec::with_capacity(count as usize);
+        let mut arguments = Vec::new();
         let count = decoder.read_u16()?;
         for _ in 0..count {
             arguments.push(decoder.read_u16()?);
@@ -31,7 +31,7 @@ pub fn parse_enclosing_method(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `InnerClasses` attribute
 pub fn parse_inner_classes(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut inner_classes = Vec::with_capacity(count as usize);
+    let mut inner_classes = Vec::new();
     for _ in 0..count {
         let inner_class_info = decoder.read_u16()?;
         let outer_class_info = decoder.read_u16()?;
@@ -50,7 +50,7 @@ pub fn parse_inner_classes(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `ModulePackages` attribute.
 pub fn parse_module_packages(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut packages = Vec::with_capacity(count as usize);
+    let mut packages = Vec::new();
     for _ in 0..count {
         packages.push(decoder.read_u16()?);
     }
@@ -65,7 +65,7 @@ pub fn parse_module(decoder: &mut Decoder) -> Result<Attribute> {
 
     // read requires
     let requires_count = decoder.read_u16()?;
-    let mut requires = Vec::with_capacity(requires_count as usize);
+    let mut requires = Vec::new();
     for _ in 0..requires_count {
         let index = decoder.read_u16()?;
         let flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
@@ -79,13 +79,13 @@ pub fn parse_module(decoder: &mut Decoder) -> Result<Attribute> {
 
     // read exports
     let exports_count = decoder.read_u16()?;
-    let mut exports = Vec::with_capacity(exports_count as usize);
+    let mut exports = Vec::new();
     for _ in 0..exports_count {
         let index = decoder.read_u16()?;
         let flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
 
         let to_count = decoder.read_u16()?;
-        let mut to = Vec::with_capacity(to_count as usize);
+        let mut to = Vec::new();
         for _ in 0..to_count {
             to.push(decoder.read_u16()?);
         }
@@ -95,13 +95,13 @@ pub fn parse_module(decoder: &mut Decoder) -> Result<Attribute> {
 
     // read opens
     let opens_count = decoder.read_u16()?;
-    let mut opens = Vec::with_capacity(opens_count as usize);
+    let mut opens = Vec::new();
     for _ in 0..opens_count {
         let index = decoder.read_u16()?;
         let flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
 
         let to_count = decoder.read_u16()?;
-        let mut to = Vec::with_capacity(to_count as usize);
+        let mut to = Vec::new();
         for _ in 0..to_count {
             to.push(decoder.read_u16()?);
         }
@@ -111,19 +111,19 @@ pub fn parse_module(decoder: &mut Decoder) -> Result<Attribute> {
 
     // read uses
     let uses_count = decoder.read_u16()?;
-    let mut uses = Vec::with_capacity(uses_count as usize);
+    let mut uses = Vec::new();
     for _ in 0..uses_count {
         uses.push(decoder.read_u16()?);
     }
 
     // read provides
     let provides_count = decoder.read_u16()?;
-    let mut provides = Vec::with_capacity(provides_count as usize);
+    let mut provides = Vec::new();
     for _ in 0..provides_count {
         let index = decoder.read_u16()?;
 
         let with_count = decoder.read_u16()?;
-        let mut with = Vec::with_capacity(with_count as usize);
+        let mut with = Vec::new();
         for _ in 0..with_count {
             with.push(decoder.read_u16()?);
         }
diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index bbd9774..328394a 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -35,7 +35,7 @@ pub fn parse_code(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Attribu
 
     // Read all exceptions
     let exception_count = decoder.read_u16()?;
-    let mut exceptions = Vec::with_capacity(exception_count as usize);
+    let mut exceptions = Vec::new();
     for _ in 0..exception_count {
         let start = decoder.read_u16()?;
         let end = decoder.read_u16()?;
diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 22333a7..0faeb2a 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -4,7 +4,7 @@ use self::decode::Decoder;
 /// Parses the `Exceptions` attribute.
 pub fn parse_exceptions(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut exceptions = Vec::with_capacity(count as usize);
+    let mut exceptions = Vec::new();
     for _ in 0..count {
         exceptions.push(decoder.read_u16()?);
     }
@@ -14,7 +14,7 @@ pub fn parse_exceptions(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `LineNumberTable` attribute.
 pub fn parse_line_number_table(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(count as usize);
+    let mut table = Vec::new();
     for _ in 0..count {
         let start = decoder.read_u16()?;
         let line_number = decoder.read_u16()?;
@@ -26,7 +26,7 @@ pub fn parse_line_number_table(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `LocalVariableTable` attribute.
 pub fn parse_local_variable_table(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(count as usize);
+    let mut table = Vec::new();
     for _ in 0..count {
         let start = decoder.read_u16()?;
         let length = decoder.read_u16()?;
@@ -47,7 +47,7 @@ pub fn parse_local_variable_table(decoder: &mut Decoder) -> Result<Attribute> {
 /// Parses the `LocalVariableTypeTable` attribute.
 pub fn parse_local_variable_type_table(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(count as usize);
+    let mut table = Vec::new();
     for _ in 0..count {
         let start = decoder.read_u16()?;
         let length = decoder.read_u16()?;
@@ -68,7 +68,7 @@ pub fn parse_local_variable_type_table(decoder: &mut Decoder) -> Result<Attribut
 /// Parses the `StackMapTable` attribute.
 pub fn parse_stack_map_table(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u16()?;
-    let mut table = Vec::with_capacity(count as usize);
+    let mut table = Vec::new();
 
     for _ in 0..count {
         let frame_type = decoder.read_u8()?;
@@ -107,13 +107,13 @@ pub fn parse_stack_map_table(decoder: &mut Decoder) -> Result<Attribute> {
             255 => {
                 let offset_delta = decoder.read_u16()?;
                 let local_count = decoder.read_u16()? as usize;
-                let mut locals = Vec::with_capacity(local_count);
+                let mut locals = Vec::new();
                 for _ in 0..local_count {
                     locals.push(parse_verification_type(decoder)?);
                 }
 
                 let stack_size = decoder.read_u16()? as usize;
-                let mut stack = Vec::with_capacity(stack_size);
+                let mut stack = Vec::new();
                 for _ in 0..stack_size {
                     stack.push(parse_verification_type(decoder)?);
                 }
@@ -156,7 +156,7 @@ fn parse_verification_type(decoder: &mut Decoder) -> Result<VerificationType> {
 /// Parses the `MethodParameters` attribute.
 pub fn parse_method_parameters(decoder: &mut Decoder) -> Result<Attribute> {
     let count = decoder.read_u8()?;
-    let mut params = Vec::with_capacity(count as usize);
+    let mut params = Vec::new();
     for _ in 0..count {
         let name = decoder.read_u16()?;
         let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 3e5db7e..fc719a0 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -41,7 +41,7 @@ pub fn parse(input: &[u8]) -> Result<(Pool, Class)> {
 
     // Read interfaces
     let interface_count = decoder.read_u16()?;
-    let mut interfaces = Vec::with_capacity(interface_count as usize);
+    let mut interfaces = Vec::new();
     for _ in 0..interface_count {
         interfaces.push(decoder.read_u16()?);
     }
@@ -172,7 +172,7 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
 /// Parses all fields and their attributes
 fn parse_fields(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Field>> {
     let count = decoder.read_u16()?;
-    let mut fields = Vec::with_capacity(count as usize);
+    let mut fields = Vec::new();
     for _ in 0..count {
         let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
         let name = decoder.read_u16()?;
@@ -193,7 +193,7 @@ fn parse_fields(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Field
 /// Parses all methods and their attributes
 fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Method>> {
     let count = decoder.read_u16()?;
-    let mut fields = Vec::with_capacity(count as usize);
+    let mut fields = Vec::new();
     for _ in 0..count {
         let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
         let name = decoder.read_u16()?;
@@ -214,7 +214,7 @@ fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Meth
 /// Parses all attributes
 fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Attribute>> {
     let count = decoder.read_u16()?;
-    let mut attributes = Vec::with_capacity(count as usize);
+    let mut attributes = Vec::new();
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
         let name = constant_pool.get_utf8(name_index)?;
-- 
2.43.0


From 20aea32b632fa4e8624212090f84d003d7750056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:02 +0000
Subject: [PATCH 14/15] fix: limit how deep annotations, element arrays and
 code may nest

---
 src/basic/parser/annotation.rs | 12 +++++++++---
 src/basic/parser/code.rs       |  2 ++
 src/basic/parser/decode.rs     | 21 +++++++++++++++++++++
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index b666480..e43491b 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -70,16 +70,22 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
                 const_name,
             })
         }
-        b'@' => Ok(ElementValue::Annotation(Box::new(parse_annotation(
-            decoder,
-        )?))),
+        b'@' => {
+            decoder.enter()?;
+            let annotation = parse_annotation(decoder)?;
+            decoder.leave();
+
+            Ok(ElementValue::Annotation(Box::new(annotation)))
+        }
         b'[' => {
+            decoder.enter()?;
             let count = decoder.read_u16()?;
             let mut element_values = Vec::new();
 
             for _ in 0..count {
                 element_values.push(parse_element_value(decoder)?);
             }
+            decoder.leave();
 
             Ok(ElementValue::Array(element_values))
         }
diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 328394a..0e50c00 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -49,7 +49,9 @@ pub fn parse_code(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Attribu
         });
     }
 
+    decoder.enter()?;
     let attributes = parse_attributes(decoder, constant_pool)?;
+    decoder.leave();
 
     Ok(Attribute::Code {
         max_stack,
diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 40a046d..74033b8 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -9,8 +9,12 @@ pub struct Decoder<'a> {
     bytes: &'a [u8],
     cursor: &'a mut usize,
     limit: usize,
+    depth: usize,
 }
 
+/// The maximum number of structures, that may be nested inside each other
+const MAX_DEPTH: usize = 64;
+
 impl<'a> Decoder<'a> {
     /// Creates a new decoder,
     /// the cursor has to be a mutable pointer to support limits without copying
@@ -19,6 +23,7 @@ impl<'a> Decoder<'a> {
             bytes,
             cursor,
             limit: bytes.len(),
+            depth: 0,
         }
     }
 
@@ -30,9 +35,25 @@ impl<'a> Decoder<'a> {
             bytes: self.bytes,
             cursor: self.cursor,
             limit: end,
+            depth: self.depth,
         })
     }
 
+    /// Enters a structure, that may contain itself.
+    /// An error is returned if too many structures are nested inside each other.
+    pub fn enter(&mut self) -> Result<()> {
+        if self.depth == MAX_DEPTH {
+            return Err(Error::LimitExceeded);
+        }
+        self.depth += 1;
+        Ok(())
+    }
+
+    /// Leaves a structure, which was entered before
+    pub fn leave(&mut self) {
+        self.depth -= 1;
+    }
+
     /// Removes the limit and returns an error if the limit was exceeded, or not reached
     pub fn remove_limit(self) -> Result<()> {
         if self.limit == *self.cursor {
-- 
2.43.0


From 447be81f27befc7bf98dec0c9abdc6fb9575ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 15/15] fix: a claimed string length does not reserve memory

---
 src/basic/parser/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 74033b8..df244ce 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -131,7 +131,7 @@ impl<'a> Decoder<'a> {
     /// Length is the amount of bytes the String was encoded in.
     /// The length used here may differ from the count of all chars.
     pub fn read_str(&mut self, length: usize) -> Result<String> {
-        let mut out = String::with_capacity(length);
+        let mut out = String::new();
 
         let mut i = length;
         while i > 0 {
-- 
2.43.0

