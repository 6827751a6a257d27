From d3b9b8f38a722544283c865e15a0acdbe88977ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 01/38] fix: keep keys whose strings contain NUL apart and
 readable

A NUL character inside a String or Symbol key ended the key early, so index
entries could not be read back and different values produced entangled keys.
---
 src/polodb_core/utils/bson.rs | 43 ++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index a5cd629..6d57a15 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -41,9 +41,7 @@ pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
         Bson::String(str) => {
             writer.write_u8(ElementType::String as u8)?;
 
-            writer.write_all(str.as_bytes())?;
-
-            writer.write_u8(0)?;
+            write_str_bytes(writer, str)?;
         }
         Bson::Boolean(bl) => {
             writer.write_u8(ElementType::Boolean as u8)?;
@@ -86,9 +84,7 @@ pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
         Bson::Symbol(str) => {
             writer.write_u8(ElementType::Symbol as u8)?;
 
-            writer.write_all(str.as_bytes())?;
-
-            writer.write_u8(0)?;
+            write_str_bytes(writer, str)?;
         }
         Bson::Decimal128(dcl) => {
             writer.write_u8(ElementType::Decimal128 as u8)?;
@@ -110,6 +106,37 @@ pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
     Ok(())
 }
 
+/// A string is terminated by a zero byte, so a NUL character inside of it
+/// is written as `C0 80`, which never occurs in valid UTF-8.
+fn write_str_bytes<W: Write>(writer: &mut W, str: &str) -> Result<()> {
+    for byte in str.as_bytes() {
+        if *byte == 0 {
+            writer.write_u8(0xC0)?;
+            writer.write_u8(0x80)?;
+        } else {
+            writer.write_u8(*byte)?;
+        }
+    }
+    writer.write_u8(0)?;
+    Ok(())
+}
+
+/// The opposite of [write_str_bytes], `bytes` comes without the terminator.
+fn unescape_str_bytes(bytes: Vec<u8>) -> Vec<u8> {
+    let mut result = Vec::<u8>::with_capacity(bytes.len());
+    let mut i: usize = 0;
+    while i < bytes.len() {
+        if bytes[i] == 0xC0 && i + 1 < bytes.len() && bytes[i + 1] == 0x80 {
+            result.push(0);
+            i += 2;
+        } else {
+            result.push(bytes[i]);
+            i += 1;
+        }
+    }
+    result
+}
+
 pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
     let mut result = Vec::<Bson>::new();
     let mut reader = buffer;
@@ -128,7 +155,7 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
             reader.read_until(0, &mut bytes)?;
             // remove last byte of bytes
             bytes.pop();
-            result.push(Bson::String(String::from_utf8(bytes)?));
+            result.push(Bson::String(String::from_utf8(unescape_str_bytes(bytes))?));
         } else if ch == ElementType::Boolean as u8 {
             let val = reader.read_u8()?;
             result.push(Bson::Boolean(val != 0));
@@ -159,7 +186,7 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
             let mut bytes = Vec::<u8>::new();
             reader.read_until(0, &mut bytes)?;
             bytes.pop();
-            result.push(Bson::Symbol(String::from_utf8(bytes)?));
+            result.push(Bson::Symbol(String::from_utf8(unescape_str_bytes(bytes))?));
         } else if ch == ElementType::Decimal128 as u8 {
             let mut bytes = [0u8; 16];
             reader.read_exact(&mut bytes)?;
-- 
2.43.0


From dfc1624f4b11eba9f1e6cb111f783721c9183af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 02/38] fix: compare values exactly and totally

Integers were rounded when compared with doubles, 0.0 and -0.0 differed, int32
and int64 were of different kinds against other types and several types could
not be compared at all, which made $sort panic.
---
 src/polodb_core/utils/bson.rs | 101 ++++++++++++++++++++++++++--------
 1 file changed, 77 insertions(+), 24 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index 6d57a15..84f0000 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -18,7 +18,6 @@ use bson::{Bson, DateTime, Decimal128, Document, Timestamp};
 use bson::oid::ObjectId;
 use bson::spec::ElementType;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
-use bson::ser::Error as BsonErr;
 use bson::ser::Result as BsonResult;
 use crate::{Error, Result};
 
@@ -217,39 +216,93 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
             let i1_64 = *i1 as i64;
             Ok(i1_64.cmp(i2))
         },
-        (Bson::Double(d1), Bson::Double(d2)) => Ok(d1.total_cmp(d2)),
-        (Bson::Double(d1), Bson::Int32(d2)) => {
-            let f = *d2 as f64;
-            Ok(d1.total_cmp(&f))
-        },
-        (Bson::Double(d1), Bson::Int64(d2)) => {
-            let f = *d2 as f64;
-            Ok(d1.total_cmp(&f))
-        },
-        (Bson::Int32(i1), Bson::Double(d2)) => {
-            let f = *i1 as f64;
-            Ok(f.total_cmp(d2))
-        }
-        (Bson::Int64(i1), Bson::Double(d2)) => {
-            let f = *i1 as f64;
-            Ok(f.total_cmp(d2))
-        }
+        (Bson::Double(d1), Bson::Double(d2)) => Ok(double_cmp(*d1, *d2)),
+        (Bson::Double(d1), Bson::Int32(i2)) => Ok(integer_double_cmp(i64::from(*i2), *d1).reverse()),
+        (Bson::Double(d1), Bson::Int64(i2)) => Ok(integer_double_cmp(*i2, *d1).reverse()),
+        (Bson::Int32(i1), Bson::Double(d2)) => Ok(integer_double_cmp(i64::from(*i1), *d2)),
+        (Bson::Int64(i1), Bson::Double(d2)) => Ok(integer_double_cmp(*i1, *d2)),
         (Bson::Binary(b1), Bson::Binary(b2)) => Ok(b1.bytes.cmp(&b2.bytes)),
         (Bson::String(str1), Bson::String(str2)) => Ok(str1.cmp(str2)),
+        (Bson::Symbol(str1), Bson::Symbol(str2)) => Ok(str1.cmp(str2)),
         (Bson::ObjectId(oid1), Bson::ObjectId(oid2)) => Ok(oid1.cmp(oid2)),
+        (Bson::Timestamp(t1), Bson::Timestamp(t2)) => {
+            Ok((t1.time, t1.increment).cmp(&(t2.time, t2.increment)))
+        }
+        (Bson::Decimal128(d1), Bson::Decimal128(d2)) => Ok(d1.bytes().cmp(&d2.bytes())),
+        (Bson::Array(arr1), Bson::Array(arr2)) => {
+            for (item1, item2) in arr1.iter().zip(arr2.iter()) {
+                let ordering = value_cmp(item1, item2)?;
+                if ordering != Ordering::Equal {
+                    return Ok(ordering);
+                }
+            }
+            Ok(arr1.len().cmp(&arr2.len()))
+        }
+        (Bson::Document(doc1), Bson::Document(doc2)) => {
+            for ((key1, item1), (key2, item2)) in doc1.iter().zip(doc2.iter()) {
+                let ordering = key1.cmp(key2);
+                if ordering != Ordering::Equal {
+                    return Ok(ordering);
+                }
+                let ordering = value_cmp(item1, item2)?;
+                if ordering != Ordering::Equal {
+                    return Ok(ordering);
+                }
+            }
+            Ok(doc1.len().cmp(&doc2.len()))
+        }
+        (Bson::RegularExpression(r1), Bson::RegularExpression(r2)) => {
+            Ok(r1.pattern.cmp(&r2.pattern).then_with(|| r1.options.cmp(&r2.options)))
+        }
+        (Bson::MinKey, Bson::MinKey) => Ok(Ordering::Equal),
+        (Bson::MaxKey, Bson::MaxKey) => Ok(Ordering::Equal),
         _ => {
-            // compare the numeric type
-            let a_type = a.element_type() as u8;
-            let b_type = b.element_type() as u8;
-            if a_type != b_type {
-                return Ok(a_type.cmp(&b_type));
+            let a_rank = type_rank(a);
+            let b_rank = type_rank(b);
+            if a_rank != b_rank {
+                return Ok(a_rank.cmp(&b_rank));
             }
 
-            Err(BsonErr::InvalidCString("Unsupported types".to_string()))
+            // two values of the same type which has no order of its own
+            Ok(a.to_string().cmp(&b.to_string()))
         },
     }
 }
 
+/// The order of the types, all the numbers are of the same type.
+fn type_rank(val: &Bson) -> u8 {
+    match val {
+        Bson::Double(_) | Bson::Int64(_) => ElementType::Int32 as u8,
+        _ => val.element_type() as u8,
+    }
+}
+
+/// NaN is equal to itself and less than all the other numbers.
+fn double_cmp(d1: f64, d2: f64) -> Ordering {
+    match d1.partial_cmp(&d2) {
+        Some(ordering) => ordering,
+        None => d2.is_nan().cmp(&d1.is_nan()),
+    }
+}
+
+/// Compare without rounding the integer to a double.
+fn integer_double_cmp(integer: i64, double: f64) -> Ordering {
+    const I64_LOWER_BOUND: f64 = -9_223_372_036_854_775_808.0;
+    const I64_UPPER_BOUND: f64 = 9_223_372_036_854_775_808.0;
+
+    if double.is_nan() || double < I64_LOWER_BOUND {
+        return Ordering::Greater;
+    }
+    if double >= I64_UPPER_BOUND {
+        return Ordering::Less;
+    }
+
+    let truncated = double.trunc();
+    integer
+        .cmp(&(truncated as i64))
+        .then_with(|| double_cmp(truncated, double))
+}
+
 pub fn try_get_document_value(doc: &Document, key: &str) -> Option<Bson> {
     let keys = key.split('.').collect::<Vec<&str>>();
     let keys_slice = keys.as_slice();
-- 
2.43.0


From 88afc4a818ddb9d6467bceb64be9ff7523764088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 03/38] fix: let conditions see embedded documents

GetField reported a field whose value is a document as missing.
---
 src/polodb_core/vm/vm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index bc1fa9c..9fa2c9f 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -659,7 +659,7 @@ impl VM {
                             }
                         };
 
-                        match crate::utils::bson::try_get_document_value(doc, key_name) {
+                        match field_path_value(doc, key_name) {
                             Some(val) => {
                                 self.r0 = 1;
                                 self.stack.push(val);
-- 
2.43.0


From cddb5b57e52621da4ed7150183434d71f24de0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 04/38] fix: match $regex against the string itself

The expression was matched against the printed form of the value, which
includes the quotes of a string and matches values which are no strings.
---
 src/polodb_core/vm/query_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/query_matcher.rs b/src/polodb_core/vm/query_matcher.rs
index df76a3a..e097602 100644
--- a/src/polodb_core/vm/query_matcher.rs
+++ b/src/polodb_core/vm/query_matcher.rs
@@ -55,7 +55,7 @@ pub(super) fn validate_membership_candidates(candidates: &[Bson]) -> Result<()>
 
 pub(super) fn matches_regex(field_value: &Bson, expression: &Regex) -> Result<bool> {
     let regex = compile_regex(expression)?;
-    Ok(regex.is_match(&field_value.to_string()))
+    Ok(matches_compiled_regex(field_value, &regex))
 }
 
 fn matches_compiled_regex(field_value: &Bson, regex: &CompiledRegex) -> bool {
-- 
2.43.0


From ed0eb68471ea2467aa1a97b1d7de311aea3984c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 05/38] fix: make $ne the negation of $eq

---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 5a9374d..c075ed0 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -761,7 +761,7 @@ impl Codegen {
 
                 let stat_val_id = self.push_static(sub_value.clone());
                 self.emit_push_value(stat_val_id);
-                self.emit_logical(DbOp::Equal, is_in_not);
+                self.emit_logical(DbOp::Equal, !is_in_not);
 
                 // if equal，go to next
                 self.emit_goto(DbOp::IfFalse, not_found_label);
-- 
2.43.0


From c1ce73136b0aae57735f8200ccdf1c121ef9340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 06/38] fix: let $size leave the stack as it found it

It left the field on the stack, so that the next condition read the array
instead of the document, failed on values which are no arrays and refused
int32 sizes.
---
 src/polodb_core/vm/codegen.rs |  4 +++-
 src/polodb_core/vm/vm.rs      | 14 ++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index c075ed0..c38d2cb 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -787,6 +787,7 @@ impl Codegen {
 
             "$size" => {
                 let expected_size = match sub_value {
+                    Bson::Int32(i) => i64::from(*i),
                     Bson::Int64(i) => *i,
                     _ => {
                         return Err(Error::InvalidField(mk_invalid_query_field(
@@ -806,8 +807,9 @@ impl Codegen {
 
                 self.emit_goto(DbOp::IfFalse, not_found_label);
 
+                // the field, its size and the expected size
                 self.emit(DbOp::Pop2);
-                self.emit_u32((field_size + 1) as u32);
+                self.emit_u32((field_size + 2) as u32);
             }
 
             "$regex" => {
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 9fa2c9f..40f32be 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -315,10 +315,12 @@ impl VM {
         Ok(())
     }
 
-    fn array_size(&mut self) -> Result<usize> {
-        let top = self.stack.len() - 1;
-        let doc = crate::try_unwrap_array!("ArraySize", &self.stack[top]);
-        Ok(doc.len())
+    // Null stands for the size of a value which is no array
+    fn array_size(&self) -> Bson {
+        match self.stack_top() {
+            Bson::Array(arr) => Bson::from(arr.len() as i64),
+            _ => Bson::Null,
+        }
     }
 
     fn array_push(&mut self) -> Result<()> {
@@ -716,9 +718,9 @@ impl VM {
                     }
 
                     DbOp::ArraySize => {
-                        let size = try_vm!(self, self.array_size());
+                        let size = self.array_size();
 
-                        self.stack.push(Bson::from(size as i64));
+                        self.stack.push(size);
 
                         self.pc = self.pc.add(1);
                     }
-- 
2.43.0


From 300a5c4801df112048ca65aea5696f2ce7922eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 07/38] fix: combine $or with the conditions beside it

A matching $or ended the whole comparison with success and a failing one was
ignored when another condition followed; empty lists took over the result of
an earlier comparison.
---
 src/polodb_core/vm/codegen.rs | 57 +++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index c38d2cb..87ed58c 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -296,7 +296,7 @@ impl Codegen {
 
         self.emit_label_with_name(compare_fun, "compare_function");
 
-        self.emit_standard_query_doc(query, result_label, compare_fun_clean)?;
+        self.emit_standard_query_doc(query, result_label, compare_fun_clean, true)?;
 
         self.emit_label_with_name(compare_fun_clean, "compare_function_clean");
         self.emit_ret(0);
@@ -437,20 +437,27 @@ impl Codegen {
         Ok(())
     }
 
+    // The code jumps to the not_found_label if the document does not match,
+    // otherwise it goes on behind the emitted code.
+    //
+    // is_last: not_found_label directly follows and returns the content of r0
     fn emit_standard_query_doc(
         &mut self,
         query_doc: &Document,
         result_label: Label,
         not_found_label: Label,
+        is_last: bool,
     ) -> Result<()> {
         if query_doc.is_empty() {
             self.emit(DbOp::StoreR0_2);
             self.emit_u8(1);
             return Ok(());
         }
-        for (key, value) in query_doc.iter() {
+        let len = query_doc.len();
+        for (index, (key, value)) in query_doc.iter().enumerate() {
+            let is_last = is_last && index + 1 == len;
             crate::path_hint!(self, key.clone(), {
-                self.emit_query_tuple(key, value, result_label, not_found_label)?;
+                self.emit_query_tuple(key, value, result_label, not_found_label, is_last)?;
             });
         }
 
@@ -478,19 +485,31 @@ impl Codegen {
         arr: &Array,
         result_label: Label,
         not_found_label: Label,
+        is_last: bool,
     ) -> Result<()> {
+        if arr.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(1);
+            return Ok(());
+        }
         for (index, item_doc_value) in arr.iter().enumerate() {
+            let is_last = is_last && index + 1 == arr.len();
             let path_msg = format!("[{}]", index);
             crate::path_hint!(self, path_msg, {
                 let item_doc = crate::try_unwrap_document!("$and", item_doc_value);
-                self.emit_standard_query_doc(item_doc, result_label, not_found_label)?;
+                self.emit_standard_query_doc(item_doc, result_label, not_found_label, is_last)?;
             });
         }
 
         Ok(())
     }
 
-    fn emit_logic_or(&mut self, arr: &Array, ret_label: Label) -> Result<()> {
+    fn emit_logic_or(
+        &mut self,
+        arr: &Array,
+        not_found_label: Label,
+        is_last: bool,
+    ) -> Result<()> {
         let cmp_label = self.new_label();
         self.emit_goto(DbOp::Goto, cmp_label);
 
@@ -504,7 +523,7 @@ impl Codegen {
                 let ret_label = self.new_label();
 
                 self.emit_label(query_label);
-                self.emit_standard_query_doc(item_doc, ret_label, ret_label)?;
+                self.emit_standard_query_doc(item_doc, ret_label, ret_label, true)?;
 
                 self.emit_label(ret_label);
                 self.emit_ret(0);
@@ -514,11 +533,25 @@ impl Codegen {
         }
 
         self.emit_label(cmp_label);
+        if is_last && !functions.is_empty() {
+            for fun in functions {
+                self.emit_goto(DbOp::Call, fun);
+                self.emit_u32(0);
+                self.emit_goto(DbOp::IfTrue, not_found_label);
+            }
+            return Ok(());
+        }
+
+        let match_label = self.new_label();
         for fun in functions {
             self.emit_goto(DbOp::Call, fun);
             self.emit_u32(0);
-            self.emit_goto(DbOp::IfTrue, ret_label);
+            self.emit_goto(DbOp::IfTrue, match_label);
         }
+        self.emit(DbOp::StoreR0_2);
+        self.emit_u8(0);
+        self.emit_goto(DbOp::Goto, not_found_label);
+        self.emit_label(match_label);
 
         Ok(())
     }
@@ -531,17 +564,23 @@ impl Codegen {
         value: &Bson,
         result_label: Label,
         not_found_label: Label,
+        is_last: bool,
     ) -> Result<()> {
         if key.starts_with('$') {
             match key {
                 "$and" => {
                     let sub_arr = crate::try_unwrap_array!("$and", value);
-                    self.emit_logic_and(sub_arr.as_ref(), result_label, not_found_label)?;
+                    self.emit_logic_and(
+                        sub_arr.as_ref(),
+                        result_label,
+                        not_found_label,
+                        is_last,
+                    )?;
                 }
 
                 "$or" => {
                     let sub_arr = crate::try_unwrap_array!("$or", value);
-                    self.emit_logic_or(sub_arr.as_ref(), not_found_label)?;
+                    self.emit_logic_or(sub_arr.as_ref(), not_found_label, is_last)?;
                 }
 
                 _ => {
-- 
2.43.0


From 985b05166c8dc31f25bbb5dfc39a54a15dfcc20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 08/38] fix: negate all the operators of a $not together

Every operator was negated on its own, and a condition without any operator
took over the result of an earlier comparison.
---
 src/polodb_core/vm/codegen.rs | 51 +++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 87ed58c..a82bf57 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -53,6 +53,16 @@ fn is_all_literal_dollar_document(document: &Document) -> bool {
         .is_some_and(|key| matches!(key.as_str(), "$ref" | "$id" | "$db"))
 }
 
+/// $in, $nin and $all see a missing field as null, all the other operators
+/// never match it, negated or not.
+fn is_field_required(operators: &Document) -> bool {
+    operators.iter().any(|(key, value)| match key.as_str() {
+        "$in" | "$nin" | "$all" => false,
+        "$not" => value.as_document().is_some_and(is_field_required),
+        _ => true,
+    })
+}
+
 pub(super) struct Codegen {
     program: Box<SubProgram>,
     jump_table: Vec<JumpTableRecord>,
@@ -910,6 +920,15 @@ impl Codegen {
         is_in_not: bool,
         not_found_label: Label,
     ) -> Result<()> {
+        if value.is_empty() {
+            return Err(Error::InvalidField(mk_invalid_query_field(
+                self.last_key().into(),
+                self.gen_path(),
+            )));
+        }
+        if is_in_not && value.len() > 1 {
+            return self.emit_not_query_tuple_document(key, value, not_found_label);
+        }
         for (sub_key, sub_value) in value.iter() {
             crate::path_hint!(self, sub_key.clone(), {
                 self.emit_query_tuple_document_kv(
@@ -924,6 +943,38 @@ impl Codegen {
         Ok(())
     }
 
+    // negate the conjunction of the operators
+    fn emit_not_query_tuple_document(
+        &mut self,
+        key: &str,
+        value: &Document,
+        not_found_label: Label,
+    ) -> Result<()> {
+        let query_label = self.new_label();
+        let ret_label = self.new_label();
+        let cmp_label = self.new_label();
+
+        self.emit_goto(DbOp::Goto, cmp_label);
+
+        self.emit_label(query_label);
+        self.emit_query_tuple_document(key, value, false, ret_label)?;
+        self.emit_label(ret_label);
+        self.emit_ret(0);
+
+        self.emit_label(cmp_label);
+        if is_field_required(value) {
+            let field_size = self.get_field(key, not_found_label);
+            self.emit(DbOp::Pop2);
+            self.emit_u32(field_size as u32);
+        }
+        self.emit_goto(DbOp::Call, query_label);
+        self.emit_u32(0);
+        self.emit(DbOp::Not);
+        self.emit_goto(DbOp::IfFalse, not_found_label);
+
+        Ok(())
+    }
+
     // There are two stage of compiling pipeline
     // 1. Generate the layout code of the pipeline
     // 2. Generate the implementation code of the pipeline
-- 
2.43.0


From feb3d31d50512e8a1192abf3d4b0036e7796b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 09/38] fix: apply all conditions and stages after a lookup by
 _id or index

The conditions beside the key were compared literally, operators and $and/$or
included, and the stages of an aggregation were never completed.
---
 src/polodb_core/vm/codegen.rs | 87 +++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 34 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index a82bf57..46371fc 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -63,6 +63,15 @@ fn is_field_required(operators: &Document) -> bool {
     })
 }
 
+/// Does the query consist of comparisons of fields with plain values only?
+fn is_equality_query(query: &Document) -> bool {
+    query.iter().all(|(key, value)| {
+        !key.starts_with('$') && !matches!(value, Bson::Document(_) | Bson::Array(_))
+    })
+}
+
+type BeforeClose = Box<dyn FnOnce(&mut Codegen) -> Result<()>>;
+
 pub(super) struct Codegen {
     program: Box<SubProgram>,
     jump_table: Vec<JumpTableRecord>,
@@ -177,6 +186,7 @@ impl Codegen {
         pkey: Bson,
         query: &Document,
         result_callback: F,
+        before_close: Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -193,6 +203,9 @@ impl Codegen {
 
         self.emit_label(close_label);
         self.emit(DbOp::Pop);
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
@@ -202,18 +215,9 @@ impl Codegen {
                 continue;
             }
 
-            let key_static_id = self.push_static(Bson::String(key.clone()));
-            let value_static_id = self.push_static(value.clone());
-
-            self.emit_goto2(DbOp::GetField, key_static_id, close_label); // push a value1
-            self.emit_push_value(value_static_id); // push a value2
-
-            self.emit(DbOp::Equal);
-            // if not equal，go to next
-            self.emit_goto(DbOp::IfFalse, close_label);
-
-            self.emit(DbOp::Pop); // pop a value2
-            self.emit(DbOp::Pop); // pop a value1
+            crate::path_hint!(self, key.clone(), {
+                self.emit_query_tuple(key, value, result_label, close_label, false)?;
+            });
         }
 
         result_callback(self)?;
@@ -228,28 +232,28 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-        before_close: Option<Box<dyn FnOnce(&mut Codegen) -> Result<()>>>,
+        before_close: Option<BeforeClose>,
         is_many: bool,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
-        let try_pkey_result = self.try_query_by_pkey(col_spec, query, result_callback)?;
-        if try_pkey_result.is_none() {
-            return Ok(());
-        }
-
-        let result_callback: F = try_pkey_result.unwrap();
+        let try_pkey_result =
+            self.try_query_by_pkey(col_spec, query, result_callback, before_close)?;
+        let (result_callback, before_close) = match try_pkey_result {
+            Some(callbacks) => callbacks,
+            None => return Ok(()),
+        };
 
-        let try_index_result = self.try_query_by_index(col_spec, query, result_callback)?;
-        if try_index_result.is_none() {
-            return Ok(());
-        }
+        let try_index_result =
+            self.try_query_by_index(col_spec, query, result_callback, before_close)?;
+        let (result_callback, before_close) = match try_index_result {
+            Some(callbacks) => callbacks,
+            None => return Ok(()),
+        };
 
         self.emit_open(col_spec._id.clone().into());
 
-        let result_callback: F = try_index_result.unwrap();
-
         let compare_fun = self.new_label();
         let compare_fun_clean = self.new_label();
         let compare_label = self.new_label();
@@ -319,19 +323,25 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeClose>,
+    ) -> Result<Option<(F, Option<BeforeClose>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if let Some(id_value) = query.get("_id") {
             if id_value.element_type() != ElementType::EmbeddedDocument {
                 self.emit_open(col_spec._id.clone().into());
-                self.emit_query_layout_has_pkey(id_value.clone(), query, result_callback)?;
+                self.emit_query_layout_has_pkey(
+                    id_value.clone(),
+                    query,
+                    result_callback,
+                    before_close,
+                )?;
                 return Ok(None);
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn try_query_by_index<F>(
@@ -339,12 +349,13 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeClose>,
+    ) -> Result<Option<(F, Option<BeforeClose>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if self.is_write {
-            return Ok(Some(result_callback));
+            return Ok(Some((result_callback, before_close)));
         }
 
         let index_meta = &col_spec.indexes;
@@ -355,23 +366,26 @@ impl Codegen {
             // { "a.b.c": 1 }
             let test_result = query.get(key);
             if let Some(query_doc) = test_result {
-                if query_doc.element_type() != ElementType::EmbeddedDocument {
-                    let mut remain_query = query.clone();
-                    remain_query.remove(key);
+                let mut remain_query = query.clone();
+                remain_query.remove(key);
 
+                // only a value which can be in the index can be found by it
+                let is_index_value = crate::utils::bson::stacked_key([query_doc]).is_ok();
+                if is_index_value && is_equality_query(&remain_query) {
                     self.indeed_emit_query_by_index(
                         col_spec._id.as_str(),
                         index_name.as_str(),
                         query_doc,
                         &remain_query,
                         result_callback,
+                        before_close,
                     )?;
                     return Ok(None);
                 }
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn indeed_emit_query_by_index<F>(
@@ -381,6 +395,7 @@ impl Codegen {
         query_value: &Bson,
         remain_query: &Document,
         result_callback: F,
+        before_close: Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -421,6 +436,10 @@ impl Codegen {
         self.emit(DbOp::Pop); // pop the collection name
         self.emit(DbOp::Pop); // pop the query value
 
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
+
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
-- 
2.43.0


From abb203bba36e8c23a835bc54ca31e64591d18dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 10/38] fix: write a document back if any operator updated it

The last operator alone decided.
---
 src/polodb_core/vm/vm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 40f32be..ea52d98 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -957,7 +957,10 @@ impl VM {
 
                         let result = try_vm!(self, operator.update(self.stack.last_mut().unwrap()));
 
-                        self.r0 = if result.updated { 1 } else { 0 };
+                        // r0 tells if any of the operators has updated the document
+                        if result.updated {
+                            self.r0 = 1;
+                        }
 
                         self.pc = self.pc.add(5);
                     }
-- 
2.43.0


From 9fefa970af15dd875e0e47c2493cb69fe581bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 11/38] fix: never wrap the result of $inc and $mul

An int32 result which does not fit is promoted to int64, an int64 result which
does not fit is refused, and so is an operand which is no number.
---
 .../vm/update_operators/inc_operator.rs        | 16 ++++++++++++----
 src/polodb_core/vm/update_operators/mod.rs     | 16 ++++++++++++++++
 .../vm/update_operators/mul_operator.rs        | 18 +++++++++++++-----
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index bd2ff6b..2470082 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -11,18 +11,26 @@ impl IncOperator {
 
     pub fn compile(doc: Document) -> Result<IncOperator> {
         <dyn UpdateOperator>::validate_key(&doc)?;
+        <dyn UpdateOperator>::validate_numeric("$inc", &doc)?;
         Ok(IncOperator {
             doc
         })
     }
 
+    fn add_int64(a: i64, b: i64) -> Result<Bson> {
+        a.checked_add(b).map(Bson::Int64).ok_or(Error::DataOverflow)
+    }
+
     fn inc_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a + *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 + *b),
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_add(*b) {
+                Some(sum) => Bson::Int32(sum),
+                None => Bson::Int64(*a as i64 + *b as i64),
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => IncOperator::add_int64(*a as i64, *b)?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a + *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a + *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => IncOperator::add_int64(*a, *b)?,
+            (Bson::Int64(a), Bson::Int32(b)) => IncOperator::add_int64(*a, *b as i64)?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a + *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a + *b as f64),
diff --git a/src/polodb_core/vm/update_operators/mod.rs b/src/polodb_core/vm/update_operators/mod.rs
index 9ce938d..4bb6773 100644
--- a/src/polodb_core/vm/update_operators/mod.rs
+++ b/src/polodb_core/vm/update_operators/mod.rs
@@ -9,6 +9,7 @@ mod min_operator;
 mod max_operator;
 
 use bson::{Bson, Document};
+use crate::errors::CannotApplyOperationForTypes;
 use crate::Result;
 
 #[derive(Debug, Default)]
@@ -33,6 +34,21 @@ impl dyn UpdateOperator {
         Ok(())
     }
 
+    pub(crate) fn validate_numeric(op_name: &str, doc: &Document) -> Result<()> {
+        for (k, v) in doc.iter() {
+            if !matches!(v, Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_)) {
+                return Err(CannotApplyOperationForTypes {
+                    op_name: op_name.into(),
+                    field_name: k.into(),
+                    field_type: "Number".into(),
+                    target_type: v.to_string(),
+                }
+                    .into());
+            }
+        }
+        Ok(())
+    }
+
 }
 
 pub(crate) use set_operator::SetOperator;
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index 21e391d..f104928 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::CannotApplyOperationForTypes;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct MulOperator {
     doc: Document
@@ -11,18 +11,26 @@ impl MulOperator {
 
     pub fn compile(doc: Document) -> Result<MulOperator> {
         <dyn UpdateOperator>::validate_key(&doc)?;
+        <dyn UpdateOperator>::validate_numeric("$mul", &doc)?;
         Ok(MulOperator {
             doc
         })
     }
 
+    fn mul_int64(a: i64, b: i64) -> Result<Bson> {
+        a.checked_mul(b).map(Bson::Int64).ok_or(Error::DataOverflow)
+    }
+
     fn mul_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a * *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 * *b),
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_mul(*b) {
+                Some(product) => Bson::Int32(product),
+                None => Bson::Int64(*a as i64 * *b as i64),
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => MulOperator::mul_int64(*a as i64, *b)?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a * *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a * *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => MulOperator::mul_int64(*a, *b)?,
+            (Bson::Int64(a), Bson::Int32(b)) => MulOperator::mul_int64(*a, *b as i64)?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a * *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a * *b as f64),
-- 
2.43.0


From f3ffee4d62b4447e2fb5570878710bd8e64ca42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 12/38] fix: refuse $rename, $unset and $pop of _id

---
 src/polodb_core/vm/update_operators/pop_operator.rs    | 1 +
 src/polodb_core/vm/update_operators/rename_operator.rs | 8 ++++++--
 src/polodb_core/vm/update_operators/unset_operator.rs  | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/pop_operator.rs b/src/polodb_core/vm/update_operators/pop_operator.rs
index d2a9cbd..51bbcd9 100644
--- a/src/polodb_core/vm/update_operators/pop_operator.rs
+++ b/src/polodb_core/vm/update_operators/pop_operator.rs
@@ -11,6 +11,7 @@ pub(crate) struct PopOperator {
 impl PopOperator {
 
     pub fn compile(doc: Document, name: String, path: String) -> Result<PopOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         let mut pop_map = IndexMap::new();
         for (key, value) in doc.iter() {
             let num = match value {
diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index f31adb5..e8d95de 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::FieldTypeUnexpectedStruct;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct RenameOperator {
     doc: Document
@@ -10,8 +10,9 @@ pub(crate) struct RenameOperator {
 impl RenameOperator {
 
     pub fn compile(doc: Document) -> Result<RenameOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         for (key, value) in doc.iter() {
-            let _new_name = match value {
+            let new_name = match value {
                 Bson::String(new_name) => new_name.as_str(),
                 t => {
                     let name = format!("{}", t);
@@ -23,6 +24,9 @@ impl RenameOperator {
                         .into());
                 }
             };
+            if new_name == "_id" {
+                return Err(Error::UnableToUpdatePrimaryKey);
+            }
         }
         Ok(RenameOperator {
             doc
diff --git a/src/polodb_core/vm/update_operators/unset_operator.rs b/src/polodb_core/vm/update_operators/unset_operator.rs
index 2b5d9c5..2800a89 100644
--- a/src/polodb_core/vm/update_operators/unset_operator.rs
+++ b/src/polodb_core/vm/update_operators/unset_operator.rs
@@ -9,6 +9,7 @@ pub(crate) struct UnsetOperator {
 impl UnsetOperator {
 
     pub fn compile(doc: &Document) -> Result<UnsetOperator> {
+        <dyn UpdateOperator>::validate_key(doc)?;
         let fields = doc.keys().map(|k| k.to_string()).collect();
         Ok(UnsetOperator {
             fields
-- 
2.43.0


From 846b7ef6601804a5f36611c378ab4e347e0249ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 13/38] fix: $rename of a missing field changes nothing

It overwrote the field of the new name with null.
---
 .../vm/update_operators/rename_operator.rs         | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index e8d95de..0cec61f 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -33,17 +33,16 @@ impl RenameOperator {
         })
     }
 
-    fn rename_field(doc: &mut Document, key: &str, new_key: &str) -> Result<()> {
+    // returns false if there is nothing to rename
+    fn rename_field(doc: &mut Document, key: &str, new_key: &str) -> bool {
         match doc.remove(key) {
             Some(value) => {
                 doc.insert(new_key, value);
+                true
             }
 
-            None => {
-                doc.insert(new_key, Bson::Null);
-            }
+            None => false,
         }
-        Ok(())
     }
 
 }
@@ -63,8 +62,9 @@ impl UpdateOperator for RenameOperator {
                 Bson::String(new_name) => new_name.as_str(),
                 _ => unreachable!()
             };
-            RenameOperator::rename_field(doc, k, new_name)?;
-            updated = true;
+            if RenameOperator::rename_field(doc, k, new_name) {
+                updated = true;
+            }
         }
 
         Ok(UpdateResult {
-- 
2.43.0


From 039a8e8b2ca1d4a2ff1ba135c0de9b3aea2da40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 14/38] fix: $pop removes the last element for 1 and the first
 for -1

---
 src/polodb_core/vm/update_operators/pop_operator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/pop_operator.rs b/src/polodb_core/vm/update_operators/pop_operator.rs
index 51bbcd9..7ec46c1 100644
--- a/src/polodb_core/vm/update_operators/pop_operator.rs
+++ b/src/polodb_core/vm/update_operators/pop_operator.rs
@@ -25,8 +25,8 @@ impl PopOperator {
                 }
             };
             let val = match num {
-                -1 => false,
-                1 => true,
+                -1 => true,
+                1 => false,
                 _ => {
                     return Err(Error::InvalidField(mk_invalid_query_field(
                         name,
-- 
2.43.0


From f67525622e1412d353d9566fcfda711c6dfa7037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 15/38] fix: complete every stage of an aggregation exactly
 once

A stage which has nothing to add when it is completed handed a null to the
next one, which took it for its own completion.
---
 src/polodb_core/vm/vm_add_fields.rs |  2 +-
 src/polodb_core/vm/vm_limit.rs      |  4 ++--
 src/polodb_core/vm/vm_skip.rs       |  2 +-
 src/polodb_core/vm/vm_sort.rs       | 16 ++++++----------
 src/polodb_core/vm/vm_unset.rs      |  2 +-
 5 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index 58a3b9f..b4ce2fb 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -70,7 +70,7 @@ impl VmExternalFunc for VmFuncAddFields {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 54285fb..6e21b2a 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -49,11 +49,11 @@ impl VmExternalFunc for VmFuncLimit {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
-            0 => Ok(VmExternalFuncStatus::Next(Bson::Null)),
+            0 => Ok(VmExternalFuncStatus::Continue),
             _ => {
                 self.remain.fetch_sub(1, Ordering::Relaxed);
                 Ok(VmExternalFuncStatus::Next(args[0].clone()))
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 6a08003..0215739 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -49,7 +49,7 @@ impl VmExternalFunc for VmFuncSkip {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index a722904..b5618d3 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -102,16 +102,12 @@ impl VmExternalFunc for VmFuncSort {
             }
             Bson::Null => {
                 self.sort_array();
-                let next = {
-                    let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-                    let buffer = self.buffer.borrow();
-                    if idx >= buffer.len() {
-                        Bson::Null
-                    } else {
-                        buffer[idx].clone().into()
-                    }
-                };
-                Ok(VmExternalFuncStatus::Next(next))
+                let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+                let buffer = self.buffer.borrow();
+                if idx >= buffer.len() {
+                    return Ok(VmExternalFuncStatus::Continue);
+                }
+                Ok(VmExternalFuncStatus::Next(buffer[idx].clone().into()))
             }
             _ => {
                 Err(Error::ValidationError("Invalid sort value".into()))
diff --git a/src/polodb_core/vm/vm_unset.rs b/src/polodb_core/vm/vm_unset.rs
index 1b2126e..b41461c 100644
--- a/src/polodb_core/vm/vm_unset.rs
+++ b/src/polodb_core/vm/vm_unset.rs
@@ -57,7 +57,7 @@ impl VmExternalFunc for VmFuncUnset {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
-- 
2.43.0


From 46f14947cfa7407e4bdae121970fe80abe1bee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 16/38] fix: sort by the fields in the given order

The fields were kept in a hash map, and directions other than 1 and -1 were
truncated or ignored.
---
 src/polodb_core/vm/vm_sort.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index b5618d3..d1ad68a 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -13,15 +13,15 @@
 // limitations under the License.
 
 use std::cell::RefCell;
-use std::collections::HashMap;
 use std::sync::atomic::AtomicUsize;
 use bson::{Bson, Document};
+use indexmap::IndexMap;
 use crate::vm::vm_external_func::{VmExternalFunc, VmExternalFuncStatus};
 use crate::{Result, Error};
 use crate::errors::mk_invalid_aggregate_field;
 
 pub(crate) struct VmFuncSort {
-    order_map: HashMap<String, i8>,
+    order_map: IndexMap<String, i8>,
     buffer: RefCell<Vec<Document>>,
     idx: AtomicUsize,
 }
@@ -30,11 +30,11 @@ impl VmFuncSort {
     pub(crate) fn compile(paths: &mut Vec<String>, val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let order_map = match val {
             Bson::Document(doc) => {
-                let mut result = HashMap::default();
+                let mut result = IndexMap::default();
                 for (k, v) in doc.iter() {
                     let order = match v {
-                        Bson::Int32(val) => *val as i8,
-                        Bson::Int64(val) => *val as i8,
+                        Bson::Int32(1) | Bson::Int64(1) => 1,
+                        Bson::Int32(-1) | Bson::Int64(-1) => -1,
                         _ => return Err(Error::ValidationError("Invalid sort value".into()))
                     };
                     result.insert(k.clone(), order);
-- 
2.43.0


From 45fcfff67ec5cc076a60b11364eaf501377ad13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 17/38] fix: refuse negative $skip and $limit

---
 src/polodb_core/action/find.rs | 4 ++--
 src/polodb_core/vm/vm_limit.rs | 4 ++--
 src/polodb_core/vm/vm_skip.rs  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/polodb_core/action/find.rs b/src/polodb_core/action/find.rs
index 78ca752..c6ff9f8 100644
--- a/src/polodb_core/action/find.rs
+++ b/src/polodb_core/action/find.rs
@@ -86,13 +86,13 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Find<'a, 'b, T> {
 
                 if let Some(skip) = self.skip {
                     pipeline.push(doc! {
-                        "$skip": skip as i64,
+                        "$skip": skip.min(i64::MAX as u64) as i64,
                     });
                 }
 
                 if let Some(limit) = self.limit {
                     pipeline.push(doc! {
-                        "$limit": limit as i64,
+                        "$limit": limit.min(i64::MAX as u64) as i64,
                     });
                 }
 
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 6e21b2a..b4d3f9f 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -26,8 +26,8 @@ impl VmFuncLimit {
 
     pub(crate) fn compile(paths: &mut Vec<String>, bson: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let limit = match bson {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err));
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 0215739..53d3933 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -27,8 +27,8 @@ pub(crate) struct VmFuncSkip {
 impl VmFuncSkip {
     pub(crate) fn compile(paths: &mut Vec<String>, skip_val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let skip = match skip_val {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err))
-- 
2.43.0


From 4f68a6c1ba485aa38d57f1eefd8d6c87cb9af420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 18/38] fix: refuse an empty aggregation stage instead of
 panicking

---
 src/polodb_core/vm/codegen.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 46371fc..b6223e2 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -1055,10 +1055,7 @@ impl Codegen {
         let stage = &pipeline[index];
         let stage_ctx_item = &ctx.items[index];
         let stage_num = format!("{}", index);
-        if stage.is_empty() {
-            return Ok(());
-        }
-        if stage.len() > 1 {
+        if stage.len() != 1 {
             return Err(Error::InvalidAggregationStage(Box::new(stage.clone())));
         }
 
@@ -1179,7 +1176,7 @@ impl Codegen {
     ) -> Result<()> {
         for stage_doc in pipeline {
             if stage_doc.is_empty() {
-                return Ok(());
+                return Err(Error::InvalidAggregationStage(Box::new(stage_doc.clone())));
             }
 
             let label = self.new_label();
-- 
2.43.0


From f2211e32f16483c1c314665ad28de069603593bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 19/38] fix: $abs of the smallest integer does not overflow

---
 src/polodb_core/vm/operators/abs_operator.rs | 26 +++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index 4a48ab5..f7944a0 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -24,14 +24,15 @@ impl AbsOperator {
 
     fn bson_abs(input: Bson) -> Bson {
         match input {
-            Bson::Int32(v) => {
-                let result = v.abs();
-                Bson::Int32(result)
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                Bson::Int64(result)
-            }
+            Bson::Int32(v) => match v.checked_abs() {
+                Some(result) => Bson::Int32(result),
+                None => Bson::Int64((v as i64).abs()),
+            },
+            Bson::Int64(v) => match v.checked_abs() {
+                Some(result) => Bson::Int64(result),
+                None => Bson::Double((v as f64).abs()),
+            },
+            Bson::Double(v) => Bson::Double(v.abs()),
             _ => input,
         }
     }
@@ -45,13 +46,8 @@ impl AbsOperator {
             Bson::Null => {
                 OperatorExpr::Constant(Bson::Null)
             }
-            Bson::Int32(v) => {
-               let result = v.abs();
-                OperatorExpr::Constant(Bson::Int32(result))
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                OperatorExpr::Constant(Bson::Int64(result))
+            Bson::Int32(_) | Bson::Int64(_) => {
+                OperatorExpr::Constant(Self::bson_abs(v.clone()))
             }
             Bson::String(field_name) => {
                 if let Some(stripped_field_name) = field_name.strip_prefix("$") {
-- 
2.43.0


From bf47d696553eef7d153c34b389c4d4fc0d09229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 20/38] fix: take back what a failed operation of a transaction
 wrote

---
 src/polodb_core/coll/txn_collection.rs        | 35 ++++++++++---------
 src/polodb_core/db/rocksdb_transaction.rs     | 26 ++++++++++++++
 .../transaction/transaction_inner.rs          | 12 +++++++
 3 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/polodb_core/coll/txn_collection.rs b/src/polodb_core/coll/txn_collection.rs
index f0aa9fb..a3b1f91 100644
--- a/src/polodb_core/coll/txn_collection.rs
+++ b/src/polodb_core/coll/txn_collection.rs
@@ -57,97 +57,98 @@ impl<T> CollectionT<T> for TransactionalCollection<T> {
 
     fn update_one(&self, query: Document, update: Document) -> crate::Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_one(
+        let result = self.txn.atomically(|| db.update_one(
             &self.name,
             query,
             update,
             UpdateOptions::default(),
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn update_one_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> crate::Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_one(
+        let result = self.txn.atomically(|| db.update_one(
             &self.name,
             query,
             update,
             options,
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn update_many(&self, query: Document, update: Document) -> crate::Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_many(
+        let result = self.txn.atomically(|| db.update_many(
             &self.name,
             query,
             update,
             UpdateOptions::default(),
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn update_many_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_many(
+        let result = self.txn.atomically(|| db.update_many(
             &self.name,
             query,
             update,
             options,
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn delete_one(&self, query: Document) -> crate::Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.delete_one(&self.name, query, &self.txn)?;
+        let result = self.txn.atomically(|| db.delete_one(&self.name, query, &self.txn))?;
         Ok(result)
     }
 
     fn delete_many(&self, query: Document) -> crate::Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.delete_many(&self.name, query, &self.txn)?;
+        let result = self.txn.atomically(|| db.delete_many(&self.name, query, &self.txn))?;
         Ok(result)
     }
 
     fn create_index(&self, index: IndexModel) -> crate::Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        db.create_index(&self.name, index, &self.txn)?;
+        self.txn.atomically(|| db.create_index(&self.name, index, &self.txn))?;
         Ok(())
     }
 
     fn drop_index(&self, name: impl AsRef<str>) -> Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        db.drop_index(&self.name, name.as_ref(), &self.txn)?;
+        self.txn.atomically(|| db.drop_index(&self.name, name.as_ref(), &self.txn))?;
         Ok(())
     }
 
     fn drop(&self) -> crate::Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        db.drop_collection(&self.name, &self.txn)?;
+        self.txn.atomically(|| db.drop_collection(&self.name, &self.txn))?;
         Ok(())
     }
 
     fn insert_one(&self, doc: impl Borrow<T>) -> crate::Result<InsertOneResult>
     where T: Serialize {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.insert_one(
+        let doc = bson::to_document(doc.borrow())?;
+        let result = self.txn.atomically(|| db.insert_one(
             &self.name,
-            bson::to_document(doc.borrow())?,
+            doc,
             &self.txn,
-        )?;
+        ))?;
         Ok(result)
     }
 
     fn insert_many(&self, docs: impl IntoIterator<Item = impl Borrow<T>>) -> crate::Result<InsertManyResult>
     where T: Serialize {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.insert_many(&self.name, docs, &self.txn)?;
+        let result = self.txn.atomically(|| db.insert_many(&self.name, docs, &self.txn))?;
         Ok(result)
     }
 
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 568b15d..d03e193 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -78,6 +78,16 @@ impl RocksDBTransaction {
         inner.rollback()
     }
 
+    pub fn set_savepoint(&self) {
+        let inner = self.inner.lock().unwrap();
+        inner.set_savepoint()
+    }
+
+    pub fn rollback_to_savepoint(&self) -> Result<()> {
+        let inner = self.inner.lock().unwrap();
+        inner.rollback_to_savepoint()
+    }
+
     pub fn commit(&self) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.commit()
@@ -192,6 +202,22 @@ impl RocksDBTransactionInner {
         }
     }
 
+    pub fn set_savepoint(&self) {
+        unsafe {
+            ffi::rocksdb_transaction_set_savepoint(self.inner);
+        }
+    }
+
+    pub fn rollback_to_savepoint(&self) -> Result<()> {
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            ffi::rocksdb_transaction_rollback_to_savepoint(self.inner, &mut err);
+
+            check_err!(err);
+            Ok(())
+        }
+    }
+
     pub(crate) fn commit(&self) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index dacac74..80935f8 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -62,6 +62,18 @@ impl TransactionInner {
         }
     }
 
+    /// Run one operation of a longer transaction.
+    /// If it fails, everything it has written is taken back,
+    /// and what the transaction did before stays.
+    pub(crate) fn atomically<R>(&self, operation: impl FnOnce() -> crate::Result<R>) -> crate::Result<R> {
+        self.rocksdb_txn.set_savepoint();
+        let result = operation();
+        if result.is_err() {
+            self.rocksdb_txn.rollback_to_savepoint()?;
+        }
+        result
+    }
+
     #[inline]
     pub fn rollback(&self) -> crate::Result<()> {
         self.rocksdb_txn.rollback()
-- 
2.43.0


From 62f76d4dac191912a0f62559931df5cc940fcde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 21/38] fix: deleting from a missing collection does not create
 it

---
 src/polodb_core/db/db_inner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 44c62d2..eabaaf8 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -701,7 +701,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
-        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, &self.node_id)?;
+        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
         if col_spec.is_none() {
             return Ok(0);
         }
-- 
2.43.0


From f8c77cdb5ed1e3e7a471dca9ea4d5e0ae47630c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 22/38] fix: create_index does not create a collection without
 a name

---
 src/polodb_core/db/db_inner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index eabaaf8..6287b5f 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -238,6 +238,9 @@ impl DatabaseInner {
         let mut collection_spec = match test_collection_spec {
             Ok(spec) => spec,
             Err(Error::CollectionNotFound(_)) => {
+                if col_name.is_empty() {
+                    return Err(Error::IllegalCollectionName(col_name.into()));
+                }
                 let uuid = uuid::Uuid::now_v1(&self.node_id);
                 CollectionSpecification::new(col_name.to_string(), uuid)
             }
-- 
2.43.0


From 60fec98352e70cc9e4bb1a306b86ffae6e663e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 23/38] fix: upsert inserts only the equality fields of its
 query

---
 src/polodb_core/db/db_inner.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 6287b5f..9ee63be 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -609,7 +609,21 @@ impl DatabaseInner {
     }
 
     fn merge_query_and_update(query: &Document, update: &Document) -> Result<Document> {
-        let mut doc = query.clone();
+        let mut doc = Document::new();
+        for (key, value) in query {
+            // only the equalities of the query say what the new document contains
+            let value = match value {
+                _ if key.starts_with('$') => None,
+                Bson::Document(operators) => operators.get("$eq"),
+                value => Some(value),
+            };
+            if let Some(value) = value {
+                if key.contains('.') {
+                    return Err(Error::UpsertError(key.to_string()))
+                }
+                doc.insert(key, value);
+            }
+        }
         for (key, value) in update {
             if key.contains("$") || key.contains(".") {
                 return Err(Error::UpsertError(key.to_string()))
-- 
2.43.0


From d4a004cc1822bf448d633e7d02e898bd40d3ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 24/38] fix: refuse a wire document shorter than its own length
 field

---
 src/polodb/bson_util.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index 5be9af1..301fcab 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -147,9 +147,15 @@ fn num_decimal_digits(mut n: usize) -> usize {
 
 /// Read a document's raw BSON bytes from the provided reader.
 pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
+    // the length counts itself and the terminator
+    const MIN_DOCUMENT_LENGTH: i32 = 5;
+
     let length = reader.read_i32_sync()?;
+    if length < MIN_DOCUMENT_LENGTH {
+        return Err(anyhow!("Invalid document length: {}", length));
+    }
 
-    let mut bytes = Vec::with_capacity(length as usize);
+    let mut bytes = Vec::new();
     bytes.write_all(&length.to_le_bytes())?;
 
     reader.take(length as u64 - 4).read_to_end(&mut bytes)?;
-- 
2.43.0


From bca97f64b78968902833a202b06c914605c29474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 25/38] fix: refuse a wire section longer than its message
 before allocating it

---
 src/polodb/wire/message.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index fa196d3..f5d90a5 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -422,8 +422,12 @@ impl MessageSection {
         let size = Checked::<usize>::try_from(reader.read_i32_sync()?)?;
         let mut length_remaining = size - std::mem::size_of::<i32>();
 
-        let mut remain_buffer = vec![0u8; length_remaining.get()?];
-        reader.read_exact(&mut remain_buffer)?;
+        // do not trust the length until the bytes are there
+        let mut remain_buffer = Vec::new();
+        reader.by_ref().take(length_remaining.get()? as u64).read_to_end(&mut remain_buffer)?;
+        if remain_buffer.len() != length_remaining.get()? {
+            return Err(anyhow!("The section of {} bytes exceeds its message", size));
+        }
 
         let mut buf_slice = remain_buffer.as_slice();
         let reader = &mut buf_slice;
-- 
2.43.0


From c781fdf05ce549c55b33e21cc5dccc87f8e90657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 26/38] fix: leave the terminator out of the identifier of a
 document sequence

---
 src/polodb/wire/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index f5d90a5..116afdd 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -438,12 +438,12 @@ impl MessageSection {
         let mut identifier = Vec::<u8>::new();
         loop {
             let c: u8 = reader.read_u8_sync()?;
-            identifier.push(c);
             length_remaining -= 1;
 
             if c == 0 {
                 break;
             }
+            identifier.push(c);
         }
 
         let mut documents = Vec::new();
-- 
2.43.0


From 4fe9a1e78e538f92da6fe63d78d5f74ba0677eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 27/38] fix: start a reply with its flag bits

---
 src/polodb/reply.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/polodb/reply.rs b/src/polodb/reply.rs
index 448a11f..d8cd68f 100644
--- a/src/polodb/reply.rs
+++ b/src/polodb/reply.rs
@@ -27,12 +27,11 @@ impl Reply {
 
     pub(crate) fn new(response_to: i32, doc: RawDocumentBuf) -> Reply {
         const SINGLE_DOC_KIND: u8 = 0;
+        const FLAG_BITS: u32 = 0;
         let mut payload = Vec::with_capacity(doc.as_bytes().len() + 5);
+        std::io::Write::write_all(&mut payload, FLAG_BITS.to_le_bytes().as_slice()).unwrap();
         std::io::Write::write_all(&mut payload, [SINGLE_DOC_KIND].as_slice()).unwrap();
 
-        let doc_len = doc.as_bytes().len() as u32;
-        std::io::Write::write_all(&mut payload, doc_len.to_le_bytes().as_slice()).unwrap();
-
         payload.extend_from_slice(doc.as_bytes());
 
         Reply { response_to, doc, payload }
-- 
2.43.0


From 79cde16041a21507bcdd0248ceb731bc80a2e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 28/38] fix: a find reply answers its own request

---
 src/polodb/handlers/find_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 914acf6..2f4ef5b 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -176,7 +176,7 @@ impl Handler for FindHandler {
             "ok": 1,
             "cursor": cursor_doc,
         };
-        let reply = Reply::new(ctx.message.response_to, body);
+        let reply = Reply::new(ctx.message.request_id.unwrap(), body);
         debug!("find reply: {:?}", reply);
         Ok(reply)
     }
-- 
2.43.0


From c53d6beeb69ce7a13613785d547b4a28c252bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 29/38] fix: never give the id of an open cursor to another one

---
 src/polodb/app_context.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/polodb/app_context.rs b/src/polodb/app_context.rs
index b7ff78b..9c087ee 100644
--- a/src/polodb/app_context.rs
+++ b/src/polodb/app_context.rs
@@ -14,7 +14,7 @@
 
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
-use std::sync::atomic::AtomicU64;
+use std::sync::atomic::{AtomicI64, AtomicU64};
 use bson::{Document, RawDocumentBuf};
 use bson::uuid::Uuid;
 use polodb_core::{ClientCursor, Database, Transaction};
@@ -64,8 +64,7 @@ impl AppContext {
 
     pub (crate) fn save_cursor(&self, cursor: Arc<Mutex<ClientCursor<Document>>>) -> i64 {
         let mut cursors = self.inner.cursors.lock().unwrap();
-        let mut cursor_id = cursors.len() as i64;
-        cursor_id += 1; // cursor_id starts from 1
+        let cursor_id = self.inner.next_cursor_id.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
         cursors.insert(cursor_id, cursor);
         cursor_id
     }
@@ -99,6 +98,7 @@ struct AppContextInner {
     db: Arc<Database>,
     handlers: Mutex<Vec<Arc<dyn Handler>>>,
     cursors: Mutex<HashMap<i64, Arc<Mutex<ClientCursor<Document>>>>>,
+    next_cursor_id: AtomicI64,
     conn_id: AtomicU64,
     session_ctx: Mutex<HashMap<Uuid, SessionContext>>,
 }
@@ -110,6 +110,7 @@ impl AppContextInner {
             db: Arc::new(db),
             handlers: Mutex::new(Vec::with_capacity(32)),
             cursors: Mutex::new(HashMap::new()),
+            next_cursor_id: AtomicI64::new(1), // cursor_id starts from 1
             conn_id: AtomicU64::new(0),
             session_ctx: Mutex::new(HashMap::new()),
         }
-- 
2.43.0


From 281a69f498b9cfc9f9706f0ff934cd76d314c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 30/38] fix: keep every batch within the requested size

---
 src/polodb/handlers/find_handler.rs     | 17 ++++++-----------
 src/polodb/handlers/get_more_handler.rs |  4 ++--
 src/polodb/handlers/mod.rs              | 10 +++++++++-
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 2f4ef5b..a5afa6d 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -15,7 +15,7 @@
 use std::sync::{Arc, Mutex};
 use anyhow::{anyhow, Result};
 use bson::{rawdoc, Document, RawArrayBuf, RawBson, RawBsonRef, RawDocumentBuf};
-use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE};
+use crate::handlers::{batch_size_from_bson_ref, HandleContext, Handler, DEFAULT_BATCH_SIZE};
 use crate::reply::Reply;
 use async_trait::async_trait;
 use log::debug;
@@ -43,7 +43,7 @@ impl FindHandler {
     pub(crate) fn mk_cursor_doc(cursor_id: i64, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<RawDocumentBuf> {
         let mut doc = rawdoc! {};
 
-        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, batch_size)?;
+        let first_batch = FindHandler::consume_first_batch(cursor, batch_size)?;
         doc.append("firstBatch", RawBson::Array(first_batch));
         if cursor_id >= 0 {
             doc.append("id", RawBson::from(cursor_id));
@@ -55,23 +55,18 @@ impl FindHandler {
         Ok(doc)
     }
 
-    fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<(RawArrayBuf, bool)> {
+    fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<RawArrayBuf> {
         let mut raw_arr = RawArrayBuf::new();
-        let mut has_more = false;
         let mut count: isize = 0;
 
-        while cursor.advance()? {
+        while (batch_size < 0 || count < batch_size) && cursor.advance()? {
             let doc = cursor.deserialize_current()?;
             let doc_bytes = bson::to_vec(&doc)?;
             raw_arr.push(RawBson::Document(RawDocumentBuf::from_bytes(doc_bytes)?));
             count += 1;
-            if batch_size >= 0 && count >= batch_size {
-                has_more = true;
-                break;
-            }
         }
 
-        Ok((raw_arr, has_more))
+        Ok(raw_arr)
     }
 
 }
@@ -132,7 +127,7 @@ impl Handler for FindHandler {
 
         let batch_size = match doc.get("batchSize")? {
             Some(val) => {
-                val.as_i32().unwrap_or(DEFAULT_BATCH_SIZE)
+                batch_size_from_bson_ref(val)
             },
             None => DEFAULT_BATCH_SIZE,
         };
diff --git a/src/polodb/handlers/get_more_handler.rs b/src/polodb/handlers/get_more_handler.rs
index a78c293..f8a2af4 100644
--- a/src/polodb/handlers/get_more_handler.rs
+++ b/src/polodb/handlers/get_more_handler.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 use anyhow::{anyhow, Result};
-use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE};
+use crate::handlers::{batch_size_from_bson_ref, HandleContext, Handler, DEFAULT_BATCH_SIZE};
 use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
@@ -72,7 +72,7 @@ impl Handler for GetMoreHandler {
 
         let batch_size = match doc.get("batchSize")? {
             Some(val) => {
-                val.as_i32().unwrap_or(DEFAULT_BATCH_SIZE)
+                batch_size_from_bson_ref(val)
             },
             None => DEFAULT_BATCH_SIZE,
         };
diff --git a/src/polodb/handlers/mod.rs b/src/polodb/handlers/mod.rs
index 6c95493..b72ffe7 100644
--- a/src/polodb/handlers/mod.rs
+++ b/src/polodb/handlers/mod.rs
@@ -11,7 +11,7 @@ mod aggregate_handler;
 mod ping_handler;
 
 use std::sync::Arc;
-use bson::RawDocumentBuf;
+use bson::{RawBsonRef, RawDocumentBuf};
 use anyhow::Result;
 use crate::reply::Reply;
 use crate::wire;
@@ -33,6 +33,14 @@ use crate::session_context::SessionContext;
 
 pub(crate) const DEFAULT_BATCH_SIZE: i32 = 101;
 
+pub(crate) fn batch_size_from_bson_ref(val: RawBsonRef) -> i32 {
+    match val {
+        RawBsonRef::Int32(i) => i,
+        RawBsonRef::Int64(i) => i.clamp(i64::from(i32::MIN), i64::from(i32::MAX)) as i32,
+        _ => DEFAULT_BATCH_SIZE,
+    }
+}
+
 pub(crate) struct HandleContext<'a> {
     pub(crate) app_context: AppContext,
     pub(crate) conn_id: u64,
-- 
2.43.0


From 4656c15fbfa9e026868fc0497cea5366e75697bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 31/38] fix: the update command respects its session, multi and
 upsert and reports n

---
 src/polodb/handlers/update_handler.rs | 32 ++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index f7d4b18..cb38703 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -18,10 +18,12 @@ use crate::handlers::{HandleContext, Handler};
 use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
+use polodb_core::options::UpdateOptions;
 use polodb_core::results::UpdateResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
 use crate::reply::Reply;
+use crate::session_context::SessionContext;
 
 pub(crate) struct UpdateHandler {}
 
@@ -31,9 +33,11 @@ impl UpdateHandler {
         Arc::new(UpdateHandler {})
     }
 
-    fn handle_update(ctx: AppContext, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
-        let db = ctx.db();
-        let collection = db.collection::<Document>(col_name);
+    fn handle_update(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
+        let is_multi = update.get_bool("multi").unwrap_or(false);
+        let options = UpdateOptions::builder()
+            .upsert(update.get_bool("upsert").unwrap_or(false))
+            .build();
 
         let filter = update.get("q").ok_or(anyhow!("update document missing q field"))?;
         let update = update.get("u").ok_or(anyhow!("update document missing u field"))?;
@@ -41,12 +45,30 @@ impl UpdateHandler {
         let filter_doc = filter.as_document().ok_or(anyhow!("q field is not a document"))?;
         let update_doc = update.as_document().ok_or(anyhow!("u field is not a document"))?;
 
-        let tmp_result = collection.update_many(filter_doc.clone(), update_doc.clone())?;
+        let tmp_result = if let Some(session) = session_opt {
+            let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
+            let collection = txn.collection::<Document>(col_name);
+            UpdateHandler::update_collection(&collection, filter_doc.clone(), update_doc.clone(), options, is_multi)?
+        } else {
+            let db = ctx.db();
+            let collection = db.collection::<Document>(col_name);
+            UpdateHandler::update_collection(&collection, filter_doc.clone(), update_doc.clone(), options, is_multi)?
+        };
+        result.matched_count += tmp_result.matched_count;
         result.modified_count += tmp_result.modified_count;
 
         Ok(())
     }
 
+    fn update_collection(collection: &impl CollectionT<Document>, filter: Document, update: Document, options: UpdateOptions, is_multi: bool) -> Result<UpdateResult> {
+        let result = if is_multi {
+            collection.update_many_with_options(filter, update, options)?
+        } else {
+            collection.update_one_with_options(filter, update, options)?
+        };
+        Ok(result)
+    }
+
 }
 
 #[async_trait]
@@ -69,7 +91,7 @@ impl Handler for UpdateHandler {
         for update in updates.into_iter() {
             let update = update?.as_document().ok_or(anyhow!("update is not a document"))?;
             let d = bson::from_slice::<Document>(update.as_bytes())?;
-            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, d, &mut update_result)?;
+            UpdateHandler::handle_update(ctx.app_context.clone(), &ctx.session, collection_name, d, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
 
-- 
2.43.0


From 6786a75e2f8cbde985da936a68c65f1d8f9be3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 32/38] fix: the delete command respects its limit and refuses
 missing deletes

---
 src/polodb/handlers/delete_handler.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index bc217e5..de0b205 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -20,6 +20,7 @@ use anyhow::{anyhow, Result};
 use polodb_core::results::DeleteResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
+use crate::bson_util;
 use crate::reply::Reply;
 use crate::session_context::SessionContext;
 
@@ -34,14 +35,15 @@ impl DeleteHandler {
     fn handle_delete(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, delete_doc: Document, result: &mut DeleteResult) -> Result<()> {
         let db = ctx.db();
         let filter = delete_doc.get_document("q")?;
+        let is_one = delete_doc.get("limit").and_then(bson_util::get_int) == Some(1);
 
         let tmp_result = if let Some(session) = session_opt {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
             let collection = txn.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            DeleteHandler::delete_from_collection(&collection, filter.clone(), is_one)?
         } else {
             let collection = db.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            DeleteHandler::delete_from_collection(&collection, filter.clone(), is_one)?
         };
 
         result.deleted_count += tmp_result.deleted_count;
@@ -49,6 +51,15 @@ impl DeleteHandler {
         Ok(())
     }
 
+    fn delete_from_collection(collection: &impl CollectionT<Document>, filter: Document, is_one: bool) -> Result<DeleteResult> {
+        let result = if is_one {
+            collection.delete_one(filter)?
+        } else {
+            collection.delete_many(filter)?
+        };
+        Ok(result)
+    }
+
 }
 
 #[async_trait]
@@ -65,7 +76,7 @@ impl Handler for DeleteHandler {
         let doc = &ctx.message.document_payload;
         let collection_name = doc.get("delete")?.unwrap().as_str().ok_or(anyhow!("delete field is not a string"))?;
 
-        let deletes_arr = doc.get("deletes")?.unwrap().as_array().ok_or(anyhow!("deletes field is not an array"))?;
+        let deletes_arr = doc.get("deletes")?.ok_or(anyhow!("deletes is missing"))?.as_array().ok_or(anyhow!("deletes field is not an array"))?;
         let mut delete_result = DeleteResult::default();
 
         let session_opt = ctx.session.clone();
-- 
2.43.0


From 7dd44821e4b2a6630ea60ebef6ece3dfa2888be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 33/38] fix: insert the documents in the body of an insert
 command

---
 src/polodb/handlers/insert_handler.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/polodb/handlers/insert_handler.rs b/src/polodb/handlers/insert_handler.rs
index 61486d3..c584ba9 100644
--- a/src/polodb/handlers/insert_handler.rs
+++ b/src/polodb/handlers/insert_handler.rs
@@ -59,6 +59,14 @@ impl Handler for InsertHandler {
             }
         }
 
+        if let Some(documents) = doc.get("documents")? {
+            let documents = documents.as_array().ok_or(anyhow!("documents field is not an array"))?;
+            for doc in documents.into_iter() {
+                let doc_ref = doc?.as_document().ok_or(anyhow!("inserted document is not a document"))?;
+                batch_insert.push(bson::from_slice::<bson::Document>(doc_ref.as_bytes())?);
+            }
+        }
+
         // insert could be blocking, so we spawn a blocking task
         debug!("inserted {} documents, start_transaction: {}", batch_insert.len(), auto_commit);
         let session_opt = ctx.session.clone();
-- 
2.43.0


From 939d946e1ef55e3de41ecc791e1b5d4357fd6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 34/38] fix: accept abortTransaction with an int32

---
 src/polodb/handlers/abort_transaction.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polodb/handlers/abort_transaction.rs b/src/polodb/handlers/abort_transaction.rs
index 4047ab9..04b0107 100644
--- a/src/polodb/handlers/abort_transaction.rs
+++ b/src/polodb/handlers/abort_transaction.rs
@@ -21,7 +21,13 @@ impl Handler for AbortTransactionHandler {
     fn test(&self, doc: &RawDocumentBuf) -> anyhow::Result<bool> {
         let val = doc.get("abortTransaction")?;
         match val {
-            Some(r) => Ok(r.as_i64().is_some()),
+            Some(r) => {
+                match r {
+                    bson::RawBsonRef::Int32(i) => Ok(i == 1),
+                    bson::RawBsonRef::Int64(_) => Ok(true),
+                    _ => Ok(false),
+                }
+            },
             None => Ok(false),
         }
     }
-- 
2.43.0


From d96b7573d574bf1217ff0f75478f65a064bb0e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 35/38] fix: a finished transaction no longer catches the
 commands of its session

---
 src/polodb/handlers/commit_transaction.rs | 1 +
 src/polodb/main.rs                        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polodb/handlers/commit_transaction.rs b/src/polodb/handlers/commit_transaction.rs
index 37f5d2e..4ce8480 100644
--- a/src/polodb/handlers/commit_transaction.rs
+++ b/src/polodb/handlers/commit_transaction.rs
@@ -37,6 +37,7 @@ impl Handler for CommitTransactionHandler {
         let session = ctx.session.as_ref().ok_or(anyhow!("session not found"))?;
         let conn_ctx = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
         conn_ctx.commit()?;
+        session.clear_transaction();
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 3a27d53..f2e3856 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -212,7 +212,7 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
                     let id = uuid_from_bson(
                         lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
                     ).ok_or(anyhow!("lsid missing id field"))?;
-                    ctx.get_session(&id)
+                    ctx.get_session(&id).filter(|session| session.get_transaction().is_some())
                 }
                 _ => None
             }
-- 
2.43.0


From d428ea67b3dc89250f95fa3606ceb3aafaad7910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 36/38] fix: answer a request which fails before its handler

---
 src/polodb/main.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index f2e3856..7b6563c 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -192,6 +192,22 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
 }
 
 async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, stream: &mut W, message: wire::Message) -> Result<()> {
+    let reply = match make_reply(ctx, conn_id, &message).await {
+        Ok(reply) => reply,
+        Err(e) => {
+            log::error!("handler error: {:?}", e);
+            let doc = rawdoc! {
+                "ok": 0,
+                "errmsg": e.to_string(),
+                "code": 1,
+            };
+            Reply::new(message.request_id.unwrap(), doc)
+        }
+    };
+    reply.write_to(stream).await
+}
+
+async fn make_reply(ctx: AppContext, conn_id: u64, message: &wire::Message) -> Result<Reply> {
     let handler = ctx.get_handlers(&message.document_payload)?;
     if let Some(handler) = handler {
         let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
@@ -222,36 +238,19 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
         let ctx = HandleContext {
             app_context: ctx.clone(),
             conn_id,
-            message: &message,
+            message,
             session,
             auto_commit,
         };
-        let reply_result = handler.handle(&ctx).await;
-        match reply_result {
-            Ok(reply) => {
-                reply.write_to(stream).await?;
-            }
-            Err(e) => {
-                log::error!("handler error: {:?}", e);
-                let doc = rawdoc! {
-                    "ok": 0,
-                    "errmsg": e.to_string(),
-                    "code": 1,
-                };
-                let reply = Reply::new(message.request_id.unwrap(), doc);
-                reply.write_to(stream).await?;
-            }
-        }
+        handler.handle(&ctx).await
     } else {
         log::error!("no handler found for message: {:?}", message);
         let doc = rawdoc! {
             "ok": 0,
             "errmsg": "no handler found",
         };
-        let reply = Reply::new(message.request_id.unwrap(), doc);
-        reply.write_to(stream).await?;
+        Ok(Reply::new(message.request_id.unwrap(), doc))
     }
-    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 863e5865872bb4fd8f9aa2018afcb1d2e57b65ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 37/38] fix: iterating a typed cursor reports a document of
 another shape

---
 src/polodb_core/db/client_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/client_cursor.rs b/src/polodb_core/db/client_cursor.rs
index 6507fe5..82b8521 100644
--- a/src/polodb_core/db/client_cursor.rs
+++ b/src/polodb_core/db/client_cursor.rs
@@ -82,7 +82,7 @@ impl<T> Iterator for ClientCursor<T>
         match test {
             Ok(false) => None,
             Ok(true) => {
-                Some(Ok(bson::from_bson(self.get().clone()).unwrap()))
+                Some(self.deserialize_current())
             }
             Err(err) =>{
                 Some(Err(err))
-- 
2.43.0


From b8ac638e498320240a40430334bc64255115b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 38/38] verif: include proof harnesses under cfg polodb_verif

---
 src/polodb_core/db/db.rs                            | 3 +++
 src/polodb_core/db/db_inner.rs                      | 3 +++
 src/polodb_core/lib.rs                              | 5 +++++
 src/polodb_core/transaction/transaction.rs          | 3 +++
 src/polodb_core/utils/bson.rs                       | 3 +++
 src/polodb_core/vm/operators/abs_operator.rs        | 3 +++
 src/polodb_core/vm/query_matcher.rs                 | 3 +++
 src/polodb_core/vm/update_operators/inc_operator.rs | 3 +++
 src/polodb_core/vm/update_operators/mul_operator.rs | 3 +++
 src/polodb_core/vm/vm_count.rs                      | 3 +++
 src/polodb_core/vm/vm_limit.rs                      | 3 +++
 src/polodb_core/vm/vm_skip.rs                       | 3 +++
 12 files changed, 38 insertions(+)

diff --git a/src/polodb_core/db/db.rs b/src/polodb_core/db/db.rs
index 4dfd78c..e2f6555 100644
--- a/src/polodb_core/db/db.rs
+++ b/src/polodb_core/db/db.rs
@@ -114,3 +114,6 @@ impl Database {
     }
 
 }
+
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/db.rs"));
diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 9ee63be..70b0837 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -988,6 +988,9 @@ fn collection_metas_to_names(doc_meta: Vec<Document>) -> Vec<String> {
         .collect()
 }
 
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/db_inner.rs"));
+
 #[cfg(test)]
 mod tests {
     use crate::db::db_inner::DatabaseInner;
diff --git a/src/polodb_core/lib.rs b/src/polodb_core/lib.rs
index 10b1f9c..03fcf14 100644
--- a/src/polodb_core/lib.rs
+++ b/src/polodb_core/lib.rs
@@ -167,3 +167,8 @@ pub use metrics::Metrics;
 pub use index::{IndexModel, IndexOptions};
 
 pub extern crate bson;
+
+#[cfg(polodb_verif)]
+pub mod verif {
+    include!(concat!(env!("POLODB_VERIF_DIR"), "/lib.rs"));
+}
diff --git a/src/polodb_core/transaction/transaction.rs b/src/polodb_core/transaction/transaction.rs
index c8cc654..b63fd03 100644
--- a/src/polodb_core/transaction/transaction.rs
+++ b/src/polodb_core/transaction/transaction.rs
@@ -54,3 +54,6 @@ impl Transaction {
     }
 
 }
+
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/transaction.rs"));
diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index 84f0000..a8fd1de 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -334,6 +334,9 @@ pub fn bson_datetime_now() -> DateTime {
     DateTime::now()
 }
 
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/utils_bson.rs"));
+
 #[cfg(test)]
 mod tests {
     use std::cmp::Ordering;
diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index f7944a0..6183208 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -101,3 +101,6 @@ impl VmOperator for AbsOperator {
         }
     }
 }
+
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/abs_operator.rs"));
diff --git a/src/polodb_core/vm/query_matcher.rs b/src/polodb_core/vm/query_matcher.rs
index e097602..dafa96c 100644
--- a/src/polodb_core/vm/query_matcher.rs
+++ b/src/polodb_core/vm/query_matcher.rs
@@ -190,6 +190,9 @@ fn documents_equal(left: &Document, right: &Document) -> bool {
         )
 }
 
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/query_matcher.rs"));
+
 #[cfg(test)]
 mod tests {
     use bson::spec::BinarySubtype;
diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index 2470082..905215b 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -89,3 +89,6 @@ impl UpdateOperator for IncOperator {
         })
     }
 }
+
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/inc_operator.rs"));
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index f104928..4bbb126 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -85,3 +85,6 @@ impl UpdateOperator for MulOperator {
             })
         }
 }
+
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/mul_operator.rs"));
diff --git a/src/polodb_core/vm/vm_count.rs b/src/polodb_core/vm/vm_count.rs
index eff3afd..1cf4f3b 100644
--- a/src/polodb_core/vm/vm_count.rs
+++ b/src/polodb_core/vm/vm_count.rs
@@ -58,3 +58,6 @@ impl VmExternalFunc for VmFuncCount {
         true
     }
 }
+
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/vm_count.rs"));
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index b4d3f9f..6742bdd 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -65,3 +65,6 @@ impl VmExternalFunc for VmFuncLimit {
         true
     }
 }
+
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/vm_limit.rs"));
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 53d3933..d5e7b58 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -65,3 +65,6 @@ impl VmExternalFunc for VmFuncSkip {
         true
     }
 }
+
+#[cfg(polodb_verif)]
+include!(concat!(env!("POLODB_VERIF_DIR"), "/vm_skip.rs"));
-- 
2.43.0

