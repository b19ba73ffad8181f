From 2582bdb0d659b98beaace39a873458d62e6c1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 01/10] fix: reject jumps whose destination overflows instead
 of panicking

---
 src/bytecode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index b9758e2..f147a75 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -249,8 +249,10 @@ impl<'a> ByteCode<'a> {
     }
 
     fn validate_jump(&self, source_offset: i32, jump: JumpOffset) -> Result<(), ParseError> {
-        let target_offset = usize::try_from(source_offset + jump)
-            .map_err(|_| err!("Invalid destination after applying jump"))?;
+        let target_offset = source_offset
+            .checked_add(jump)
+            .and_then(|target| usize::try_from(target).ok())
+            .ok_or_else(|| err!("Invalid destination after applying jump"))?;
         if self.get_opcode_index(target_offset).is_none() {
             fail!("Invalid opcode offset after applying jump");
         }
-- 
2.43.0


From dd5491c025c8bc6178bd9ef690d8ed8471500dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 02/10] fix: bound switch table sizes by the remaining code

The entry count of a tableswitch could overflow i32, and both kinds of
switch preallocated whatever size the file declared (up to 16 GiB).
---
 src/bytecode.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index f147a75..758acbf 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -502,10 +502,11 @@ fn read_opcodes<'a>(
                 if low > high {
                     fail!("The low value must be less than or equal to the high value in tableswitch at index {}", ix - 4);
                 }
-                let jump_count = match usize::try_from(high - low + 1) {
-                    Ok(n) => n,
+                let jump_count = i64::from(high) - i64::from(low) + 1;
+                let jump_count = match usize::try_from(jump_count) {
+                    Ok(n) if n <= (code.len() - ix) / 4 => n,
                     _ => fail!(
-                        "Unable to convert range to usize in tableswitch at index {}",
+                        "Table extends past end of code in tableswitch at index {}",
                         ix - 4
                     ),
                 };
@@ -532,9 +533,9 @@ fn read_opcodes<'a>(
                     );
                 }
                 let pair_count = match usize::try_from(npairs) {
-                    Ok(n) => n,
+                    Ok(n) if n <= (code.len() - ix) / 8 => n,
                     _ => fail!(
-                        "Unable to convert number of pairs in lookupswitch to usize at index {}",
+                        "Table extends past end of code in lookupswitch at index {}",
                         ix - 4
                     ),
                 };
-- 
2.43.0


From 0058fc5e2f5c1f4ba4e316fe33c990f7d2a4dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 03/10] fix: reject constant pool references that could form
 cycles or chains

References were resolved before their types were checked, so a malformed
pool could contain reference cycles (infinite recursion while validating,
and a leak of the pool) or chains of tens of thousands of entries (stack
overflow when dropping the pool).
---
 src/constant_pool.rs | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 3721b02..6f35b6c 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -46,6 +46,15 @@ impl<'a> ConstantPoolRef<'a> {
                         target
                     );
                 }
+                // Entries may only reference entries of a strictly lower rank, so that
+                // malformed pools cannot contain reference cycles or unbounded chains.
+                if pool[target].rank() >= pool[my_index].rank() {
+                    fail!(
+                        "Constant pool entry at index {} references entry of unexpected type at index {}",
+                        my_index,
+                        target
+                    );
+                }
                 *self = ConstantPoolRef::Resolved(pool[target].clone());
                 Ok(())
             }
@@ -207,6 +216,35 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// The maximum length of a chain of references starting at an entry of this type.
+    fn rank(&self) -> u8 {
+        match self {
+            ConstantPoolEntry::Zero
+            | ConstantPoolEntry::Utf8(_)
+            | ConstantPoolEntry::Utf8Bytes(_)
+            | ConstantPoolEntry::Integer(_)
+            | ConstantPoolEntry::Float(_)
+            | ConstantPoolEntry::Long(_)
+            | ConstantPoolEntry::Double(_)
+            | ConstantPoolEntry::Unused => 0,
+
+            ConstantPoolEntry::ClassInfo(_)
+            | ConstantPoolEntry::String(_)
+            | ConstantPoolEntry::NameAndType(_, _)
+            | ConstantPoolEntry::MethodType(_)
+            | ConstantPoolEntry::ModuleInfo(_)
+            | ConstantPoolEntry::PackageInfo(_) => 1,
+
+            ConstantPoolEntry::FieldRef(_, _)
+            | ConstantPoolEntry::MethodRef(_, _)
+            | ConstantPoolEntry::InterfaceMethodRef(_, _)
+            | ConstantPoolEntry::Dynamic(_, _)
+            | ConstantPoolEntry::InvokeDynamic(_, _) => 2,
+
+            ConstantPoolEntry::MethodHandle(_, _) => 3,
+        }
+    }
+
     fn get_type(&self) -> ConstantPoolEntryTypes {
         match self {
             ConstantPoolEntry::Zero => ConstantPoolEntryTypes::ZERO,
-- 
2.43.0


From 7f8c061f134a761f408ffd7d2e425e61af449805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 04/10] fix: reject NameAndType entries whose descriptor is not
 representable as text

Such an entry passed validation if nothing referred to it, and then caused a
panic when it was reached by the constant pool iterator or by an
EnclosingMethod attribute.
---
 src/constant_pool.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 6f35b6c..62c7285 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -684,6 +684,13 @@ fn validate_constant_pool(
         cp_entry
             .validate(major_version)
             .map_err(|e| err!(e, "constant pool entry {}", i))?;
+        // The descriptor text of every NameAndType is exposed, whether or not some
+        // other entry has required it to be a valid descriptor.
+        if let ConstantPoolEntry::NameAndType(_, y) = cp_entry.deref() {
+            peel!(y)
+                .str()
+                .map_err(|e| err!(e, "constant pool entry {}", i))?;
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 20797a3c0c1055586d9f84cea08c98cab9672104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 05/10] fix: limit the nesting of attributes and annotation
 values

Attributes and annotation element values were read recursively with no
limit, so a small hostile file could overflow the stack.
---
 src/attributes.rs | 61 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index c320f57..1ff8186 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -357,6 +357,12 @@ pub struct AttributeInfo<'a> {
     pub data: AttributeData<'a>,
 }
 
+// Attributes can contain attributes, and annotation element values can contain element values.
+// The class file format itself sets no limit on how deeply, so set one here to bound recursion.
+// Well-formed class files only nest attributes two levels deep.
+const MAX_ATTRIBUTE_DEPTH: usize = 8;
+const MAX_ANNOTATION_DEPTH: usize = 64;
+
 fn ensure_length(length: usize, expected: usize) -> Result<(), ParseError> {
     if length != expected {
         fail!("Unexpected length {}", length);
@@ -369,6 +375,7 @@ fn read_code_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<CodeData<'a>, ParseError> {
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
@@ -396,8 +403,8 @@ fn read_code_data<'a>(
             catch_type,
         });
     }
-    let code_attributes =
-        read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "code attribute"))?;
+    let code_attributes = read_attributes_at_depth(bytes, ix, pool, opts, depth + 1)
+        .map_err(|e| err!(e, "code attribute"))?;
     let bytecode = if opts.parse_bytecode {
         Some(ByteCode::from(code, pool).map_err(|e| err!(e, "bytecode"))?)
     } else {
@@ -648,7 +655,11 @@ fn read_annotation_element_value<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<AnnotationElementValue<'a>, ParseError> {
+    if depth > MAX_ANNOTATION_DEPTH {
+        fail!("Annotation element values are nested too deeply");
+    }
     let value = match read_u1(bytes, ix)? as char {
         'B' => AnnotationElementValue::ByteConstant(read_cp_integer(bytes, ix, pool)?),
         'C' => AnnotationElementValue::CharConstant(read_cp_integer(bytes, ix, pool)?),
@@ -676,13 +687,15 @@ fn read_annotation_element_value<'a>(
             }
             AnnotationElementValue::ClassLiteral { class_name }
         }
-        '@' => AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool)?),
+        '@' => {
+            AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool, depth + 1)?)
+        }
         '[' => {
             let count = read_u2(bytes, ix)?;
-            let mut array_values = Vec::with_capacity(count.into());
+            let mut array_values = Vec::new();
             for i in 0..count {
                 array_values.push(
-                    read_annotation_element_value(bytes, ix, pool)
+                    read_annotation_element_value(bytes, ix, pool, depth + 1)
                         .map_err(|e| err!(e, "array index {}", i))?,
                 );
             }
@@ -697,15 +710,16 @@ fn read_annotation<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
         .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
-    let mut elements = Vec::with_capacity(element_count.into());
+    let mut elements = Vec::new();
     for i in 0..element_count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of element {}", i))?;
-        let value = read_annotation_element_value(bytes, ix, pool)
+        let value = read_annotation_element_value(bytes, ix, pool, depth)
             .map_err(|e| err!(e, "value of element {}", i))?;
         elements.push(AnnotationElement { name, value });
     }
@@ -724,7 +738,7 @@ fn read_annotation_data<'a>(
     let mut annotations = Vec::with_capacity(count.into());
     for i in 0..count {
         annotations
-            .push(read_annotation(bytes, ix, pool).map_err(|e| err!(e, "annotation {}", i))?);
+            .push(read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "annotation {}", i))?);
     }
     Ok(annotations)
 }
@@ -741,7 +755,7 @@ fn read_parameter_annotation_data<'a>(
         let mut annotations = Vec::with_capacity(annotation_count.into());
         for j in 0..annotation_count {
             annotations.push(
-                read_annotation(bytes, ix, pool)
+                read_annotation(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "annotation {} of parameter {}", j, i))?,
             );
         }
@@ -826,7 +840,7 @@ fn read_type_annotation_data<'a>(
             });
         }
         let annotation =
-            read_annotation(bytes, ix, pool).map_err(|e| err!(e, "type annotation {}", i))?;
+            read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "type annotation {}", i))?;
         annotations.push(TypeAnnotation {
             target_type,
             target_path,
@@ -1026,6 +1040,7 @@ fn read_record_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<Vec<RecordComponentEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
     let mut components = Vec::with_capacity(count.into());
@@ -1037,8 +1052,8 @@ fn read_record_data<'a>(
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
-        let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
+        let attributes = read_attributes_at_depth(bytes, ix, pool, opts, depth + 1)
+            .map_err(|e| err!(e, "entry {}", i))?;
         components.push(RecordComponentEntry {
             name,
             descriptor,
@@ -1054,8 +1069,22 @@ pub(crate) fn read_attributes<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
 ) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    read_attributes_at_depth(bytes, ix, pool, opts, 0)
+}
+
+fn read_attributes_at_depth<'a>(
+    bytes: &'a [u8],
+    ix: &mut usize,
+    pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    opts: &ParseOptions,
+    depth: usize,
+) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    if depth > MAX_ATTRIBUTE_DEPTH {
+        fail!("Attributes are nested too deeply");
+    }
     let count = read_u2(bytes, ix)?;
-    let mut attributes = Vec::with_capacity(count.into());
+    // No preallocation based on the untrusted count, as that would be multiplied by nesting.
+    let mut attributes = Vec::new();
     for i in 0..count {
         let name =
             read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name field of attribute {}", i))?;
@@ -1076,7 +1105,7 @@ pub(crate) fn read_attributes<'a>(
                 )
             }
             "Code" => {
-                let code_data = read_code_data(bytes, ix, pool, opts)
+                let code_data = read_code_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Code attribute {}", i))?;
                 AttributeData::Code(code_data)
             }
@@ -1183,7 +1212,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::RuntimeInvisibleTypeAnnotations(annotation_data)
             }
             "AnnotationDefault" => {
-                let element_value = read_annotation_element_value(bytes, ix, pool)
+                let element_value = read_annotation_element_value(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "AnnotationDefault attribute {}", i))?;
                 AttributeData::AnnotationDefault(element_value)
             }
@@ -1230,7 +1259,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::PermittedSubclasses(permitted_subclasses_data)
             }
             "Record" => {
-                let record_data = read_record_data(bytes, ix, pool, opts)
+                let record_data = read_record_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Record attribute {}", i))?;
                 AttributeData::Record(record_data)
             }
-- 
2.43.0


From 74a04b9cb923884240fd6da4f532b02128f67c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 06/10] fix: require descriptors to match as a whole

Field, record component, local variable and annotation descriptors, and
the return type in method descriptors, were accepted with arbitrary text
following them, which was then silently dropped.
---
 src/attributes.rs  | 10 +++++-----
 src/descriptors.rs | 22 ++++++++++++++++++----
 src/lib.rs         |  6 +++---
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index 1ff8186..eb68575 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -11,7 +11,7 @@ use crate::constant_pool::{
 use crate::constant_pool::{
     BootstrapArgument, ConstantPoolEntry, LiteralConstant, MethodHandle, NameAndType,
 };
-use crate::descriptors::{is_return_descriptor, parse_field_descriptor, FieldDescriptor};
+use crate::descriptors::{is_return_descriptor, parse_entire_field_descriptor, FieldDescriptor};
 use crate::names::is_unqualified_name;
 use crate::{read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions};
 
@@ -609,7 +609,7 @@ fn read_localvariable_data<'a>(
             fail!("Invalid unqualified name for variable {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor for variable {}", i))?;
         let index = read_u2(bytes, ix)?;
         localvariables.push(LocalVariableEntry {
@@ -672,7 +672,7 @@ fn read_annotation_element_value<'a>(
         's' => AnnotationElementValue::StringConstant(read_cp_utf8(bytes, ix, pool)?),
         'e' => {
             let type_name = read_cp_utf8(bytes, ix, pool)
-                .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+                .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
                 .map_err(|e| err!(e, "annotation element value enum descriptor"))?;
             let const_name = read_cp_utf8(bytes, ix, pool)?;
             AnnotationElementValue::EnumConstant {
@@ -713,7 +713,7 @@ fn read_annotation<'a>(
     depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
-        .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+        .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
     let mut elements = Vec::new();
@@ -1050,7 +1050,7 @@ fn read_record_data<'a>(
             fail!("Invalid unqualified name for entry {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
         let attributes = read_attributes_at_depth(bytes, ix, pool, opts, depth + 1)
             .map_err(|e| err!(e, "entry {}", i))?;
diff --git a/src/descriptors.rs b/src/descriptors.rs
index eadf427..ccd426b 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -163,7 +163,7 @@ impl fmt::Display for FieldDescriptor<'_> {
 
 // Parse the field descriptor at the start of the given data, and ignores anything
 // following. Returns an error if the data don't start with a field descriptor.
-pub(crate) fn parse_field_descriptor<'a>(
+fn parse_field_descriptor<'a>(
     data: &Cow<'a, str>,
     index: usize,
 ) -> Result<FieldDescriptor<'a>, ParseError> {
@@ -196,6 +196,17 @@ pub(crate) fn parse_field_descriptor<'a>(
     fail!("Empty string is not a field descriptor");
 }
 
+// Parse the given data, which as a whole must be a field descriptor with nothing following it.
+pub(crate) fn parse_entire_field_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<FieldDescriptor<'a>, ParseError> {
+    let desc = parse_field_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Unexpected data after field descriptor");
+    }
+    Ok(desc)
+}
+
 #[derive(Clone, Debug, Hash, PartialEq, Eq)]
 pub enum ReturnDescriptor<'a> {
     Return(FieldDescriptor<'a>),
@@ -219,6 +230,7 @@ impl ReturnDescriptor<'_> {
     }
 }
 
+// Parse the rest of the given data, all of which must be a return descriptor.
 fn parse_return_descriptor<'a>(
     data: &Cow<'a, str>,
     index: usize,
@@ -226,9 +238,11 @@ fn parse_return_descriptor<'a>(
     if &data[index..] == "V" {
         Ok(ReturnDescriptor::Void)
     } else {
-        Ok(ReturnDescriptor::Return(parse_field_descriptor(
-            data, index,
-        )?))
+        let desc = parse_field_descriptor(data, index)?;
+        if data.len() - index != desc.byte_len() {
+            fail!("Unexpected data after return descriptor");
+        }
+        Ok(ReturnDescriptor::Return(desc))
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index e1683e1..83bd619 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,8 +31,8 @@ use crate::constant_pool::{
     ConstantPoolIter,
 };
 use crate::descriptors::{
-    parse_field_descriptor, parse_method_descriptor, ClassName, FieldDescriptor, MethodDescriptor,
-    ReturnDescriptor,
+    parse_entire_field_descriptor, parse_method_descriptor, ClassName, FieldDescriptor,
+    MethodDescriptor, ReturnDescriptor,
 };
 pub use crate::error::ParseError;
 use crate::names::{is_unqualified_method_name, is_unqualified_name};
@@ -176,7 +176,7 @@ fn read_fields<'a>(
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .map_err(|e| err!(e, "descriptor of class field {}", i))?;
-        let descriptor = parse_field_descriptor(&descriptor, 0)?;
+        let descriptor = parse_entire_field_descriptor(&descriptor)?;
 
         let unique_id = (name.clone(), descriptor.clone());
         if !unique_ids.insert(unique_id) {
-- 
2.43.0


From 7c3cb5c1ab96aeeda8660c737fb3b7ebae0a91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 07/10] fix: reject empty and trailing empty segments in
 ClassName::try_from

---
 src/descriptors.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index ccd426b..a16fe29 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -36,6 +36,7 @@ impl<'a> TryFrom<Cow<'a, str>> for ClassName<'a> {
         let mut index = 0;
         loop {
             match parse_unqualified_segment(&value[index..])? {
+                ("", None) => fail!("Empty segment in class name"),
                 (_, None) => break,
                 (_, Some(';')) => fail!("Disallowed ';' in class name"),
                 (segment, Some('/')) => index += segment.len() + 1,
-- 
2.43.0


From 0a86d9611293e53fe1518fc621624f1a05cc0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 08/10] fix: allow '<' and '>' in class names within
 descriptors

Only method names exclude these characters (JVMS 4.2.2), and binary class
names in the constant pool were already accepted with them.
---
 src/descriptors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index a16fe29..3d01ec7 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -16,7 +16,7 @@ fn parse_unqualified_segment(data: &str) -> Result<(&str, Option<char>), ParseEr
             '/' if ix == 0 => fail!("Unexpected '/' at start of unqualified segment"),
             ';' if ix == 0 => fail!("Unexpected ';' at start of unqualified segment"),
             '/' | ';' => return Ok((&data[0..ix], Some(c))),
-            '.' | '[' | '<' | '>' => fail!("Disallowed character in unqualified segment"),
+            '.' | '[' => fail!("Disallowed character in unqualified segment"),
             _ => (),
         };
     }
-- 
2.43.0


From 54cd7d1a79a00c3b69be571a8107de1c04b9a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 09/10] fix: accept dynamically-computed constants as bootstrap
 arguments

CONSTANT_Dynamic entries are loadable, so they are valid bootstrap
arguments (JVMS 4.7.23), but classes using them so were rejected.
---
 src/constant_pool.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 62c7285..f326636 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -1086,6 +1086,7 @@ pub enum BootstrapArgument<'a> {
     ClassInfo(Cow<'a, str>),
     MethodHandle(MethodHandle<'a>),
     MethodType(Cow<'a, str>),
+    Dynamic(Dynamic<'a>),
 }
 
 pub(crate) fn read_cp_bootstrap_argument<'a>(
@@ -1115,6 +1116,10 @@ pub(crate) fn read_cp_bootstrap_argument<'a>(
             Ok(BootstrapArgument::MethodHandle(make_method_handle(x, y)?))
         }
         ConstantPoolEntry::MethodType(x) => Ok(BootstrapArgument::MethodType(peel!(x).utf8())),
+        ConstantPoolEntry::Dynamic(x, y) => Ok(BootstrapArgument::Dynamic(Dynamic {
+            attr_index: *x,
+            name_and_type: peel!(y).name_and_type(),
+        })),
         _ => fail!("Unexpected constant pool reference type"),
     }
 }
-- 
2.43.0


From 1c92d2c72321af029dc1c982af51b8cac8917778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 10/10] fix: accept annotation strings that are not
 representable as text

String values of annotation elements are literals, so like string
constants they can contain unpaired surrogates. Classes with such
annotations were rejected.
---
 src/attributes.rs    | 11 +++++++++--
 src/constant_pool.rs | 11 +++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index eb68575..2ac2ac5 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -6,7 +6,7 @@ use crate::constant_pool::{
     read_cp_bootstrap_argument, read_cp_classinfo, read_cp_classinfo_opt, read_cp_double,
     read_cp_float, read_cp_integer, read_cp_literalconstant, read_cp_long, read_cp_methodhandle,
     read_cp_moduleinfo, read_cp_nameandtype_opt, read_cp_packageinfo, read_cp_utf8,
-    read_cp_utf8_opt,
+    read_cp_utf8_literal, read_cp_utf8_opt,
 };
 use crate::constant_pool::{
     BootstrapArgument, ConstantPoolEntry, LiteralConstant, MethodHandle, NameAndType,
@@ -128,6 +128,9 @@ pub enum AnnotationElementValue<'a> {
     ShortConstant(i32),
     BooleanConstant(i32),
     StringConstant(Cow<'a, str>),
+    /// A string value that is not representable as a Rust string; see
+    /// [LiteralConstant::StringBytes].
+    StringBytesConstant(&'a [u8]),
     EnumConstant {
         type_name: FieldDescriptor<'a>,
         const_name: Cow<'a, str>,
@@ -669,7 +672,11 @@ fn read_annotation_element_value<'a>(
         'J' => AnnotationElementValue::LongConstant(read_cp_long(bytes, ix, pool)?),
         'S' => AnnotationElementValue::ShortConstant(read_cp_integer(bytes, ix, pool)?),
         'Z' => AnnotationElementValue::BooleanConstant(read_cp_integer(bytes, ix, pool)?),
-        's' => AnnotationElementValue::StringConstant(read_cp_utf8(bytes, ix, pool)?),
+        's' => match read_cp_utf8_literal(bytes, ix, pool)? {
+            LiteralConstant::StringBytes(v) => AnnotationElementValue::StringBytesConstant(v),
+            LiteralConstant::String(v) => AnnotationElementValue::StringConstant(v),
+            _ => fail!("Unexpected constant pool reference type"),
+        },
         'e' => {
             let type_name = read_cp_utf8(bytes, ix, pool)
                 .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index f326636..cca9646 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -881,6 +881,17 @@ pub(crate) fn read_cp_literalconstant<'a>(
     }
 }
 
+/// Reads a reference to a Utf8 entry (rather than a String entry) that holds a string literal.
+pub(crate) fn read_cp_utf8_literal<'a>(
+    bytes: &'a [u8],
+    ix: &mut usize,
+    pool: &[CafeRc<ConstantPoolEntry<'a>>],
+) -> Result<LiteralConstant<'a>, ParseError> {
+    let cp_ref = read_cp_ref_any(bytes, ix, pool)?;
+    cp_ref.ensure_type(ConstantPoolEntryTypes::UTF8)?;
+    Ok(cp_ref.string_literal())
+}
+
 pub(crate) fn read_cp_integer<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
-- 
2.43.0

