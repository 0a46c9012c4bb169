From e890ad65e160624eec9dc8718231b7a81e866c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 01/49] fix: minOccurs="0" with an explicit maxOccurs="1" is
 optional, maxOccurs="0" omits the element

---
 xsd-parser/src/parser/element.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 19d5cbd..89ad8e4 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -146,13 +146,11 @@ pub fn element_modifier(node: &Node) -> TypeModifier {
         0 => match max {
             MaxOccurs::None => TypeModifier::Option,
             MaxOccurs::Unbounded => TypeModifier::Array,
-            MaxOccurs::Bounded(val) => {
-                if val > 1 {
-                    TypeModifier::Array
-                } else {
-                    TypeModifier::None
-                }
-            }
+            MaxOccurs::Bounded(val) => match val {
+                0 => TypeModifier::Empty,
+                1 => TypeModifier::Option,
+                _ => TypeModifier::Array,
+            },
         },
         1 => match max {
             MaxOccurs::None => TypeModifier::None,
-- 
2.43.0


From 8f1a142d532d57ba3c6150b9e3d58a1c73dae998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 02/49] fix: a documented alias is commented out like an
 undocumented one

---
 xsd-parser/src/generator/alias.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/alias.rs b/xsd-parser/src/generator/alias.rs
index 7908df2..8ef89f9 100644
--- a/xsd-parser/src/generator/alias.rs
+++ b/xsd-parser/src/generator/alias.rs
@@ -3,7 +3,7 @@ use crate::{generator::Generator, parser::types::Alias};
 pub trait AliasGenerator {
     fn generate(&self, entity: &Alias, gen: &Generator) -> String {
         format!(
-            "//{comment} pub type {name} = {original};\n",
+            "{comment}// pub type {name} = {original};\n",
             comment = self.format_comment(entity.comment.as_deref(), gen),
             name = self.format_name(entity.name.as_str(), gen),
             original = self.format_original_type(entity.original.as_str(), gen)
-- 
2.43.0


From 156280e667773dda1f1677cbb7a6dacf29221cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 03/49] fix: escape the reserved word "try"

---
 wsdl-parser/src/generator/mod.rs  | 1 +
 xsd-parser/src/generator/utils.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index fe1858f..e9a8346 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -178,6 +178,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index ed94780..308444c 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -169,6 +169,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From 6275bc5ba0abc94474dca212acf14285af7b6396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 04/49] fix: parse() reports malformed XML as an error instead
 of panicking

---
 xsd-parser/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index e03275f..d45660e 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -33,7 +33,7 @@ use crate::parser::{
 // FIXME: Actually pass up errors
 #[allow(clippy::result_unit_err)]
 pub fn parse(text: &str) -> Result<RsFile, ()> {
-    let doc = roxmltree::Document::parse(text).expect("Parse document error");
+    let doc = roxmltree::Document::parse(text).map_err(|_| ())?;
     let root = doc.root();
 
     let mut map = HashMap::new();
-- 
2.43.0


From 00b39086257bce860fd8c678c11f928a3aeb8019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 05/49] fix: generating code does not modify the parsed file

---
 xsd-parser/src/generator/struct.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index af01513..74cbd27 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -21,15 +21,15 @@ pub trait StructGenerator {
     fn fields(&self, entity: &Struct, gen: &Generator) -> String {
         let mod_name = self.mod_name(entity, gen);
 
-        entity.fields.borrow_mut().iter_mut().for_each(|f| {
+        // The entity must stay as it is, it may be generated more than once.
+        let mut fields = entity.fields.borrow().clone();
+        fields.iter_mut().for_each(|f| {
             if !f.subtypes.is_empty() {
                 f.type_name = format!("{}::{}", mod_name, f.type_name)
             }
         });
 
-        let fields = entity
-            .fields
-            .borrow()
+        let fields = fields
             .iter()
             .map(|f| gen.struct_field_gen().generate(f, gen))
             .filter(|s| !s.is_empty())
-- 
2.43.0


From d7049ad2a4a2a7e4200f125e280db3f517234884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:35 +0000
Subject: [PATCH 06/49] fix: a field is recursive only if its type is the
 enclosing type, not if the name ends alike

---
 xsd-parser/src/parser/all.rs      |  4 ++--
 xsd-parser/src/parser/sequence.rs |  4 ++--
 xsd-parser/src/parser/utils.rs    | 13 +++++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 04d3e9b..7716751 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -5,7 +5,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, TypeModifier},
-    utils::{enum_to_field, get_documentation, get_parent_name},
+    utils::{enum_to_field, get_documentation, get_parent_name, is_recursive_field},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -26,7 +26,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if is_recursive_field(&sf, choice, parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 48b8a19..fbcfca9 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -5,7 +5,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, TypeModifier},
-    utils::{enum_to_field, get_documentation, get_parent_name},
+    utils::{enum_to_field, get_documentation, get_parent_name, is_recursive_field},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -26,7 +26,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if is_recursive_field(&sf, sequence, parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 4f35e01..167747d 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -68,6 +68,19 @@ pub fn attribute_groups_to_aliases(node: &Node) -> Vec<Alias> {
         .collect()
 }
 
+// Checks if the field refers to the type it belongs to.
+pub fn is_recursive_field(field: &StructField, parent: &Node, parent_name: &str) -> bool {
+    let (prefix, name) = match field.type_name.split_once(':') {
+        Some((prefix, name)) => (Some(prefix), name),
+        None => (None, field.type_name.as_str()),
+    };
+    let target_ns = parent.ancestors().find_map(|n| n.attribute(attribute::TARGET_NAMESPACE));
+
+    field.subtypes.is_empty()
+        && name == parent_name
+        && (prefix.is_none() || parent.lookup_namespace_uri(prefix) == target_ns)
+}
+
 pub fn enum_to_field(en: Enum) -> StructField {
     StructField {
         name: en.name.clone(),
-- 
2.43.0


From 839e407c630d09335ba3f89bbe1ae0444f7ea205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:35 +0000
Subject: [PATCH 07/49] fix: a choice inside a sequence is flattened, there is
 no element for it

---
 xsd-parser/src/parser/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 167747d..22a09b6 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -86,7 +86,7 @@ pub fn enum_to_field(en: Enum) -> StructField {
         name: en.name.clone(),
         type_name: en.name.clone(),
         subtypes: vec![RsEntity::Enum(en)],
-        source: StructFieldSource::Element,
+        source: StructFieldSource::Choice,
         ..Default::default()
     }
 }
-- 
2.43.0


From 7546393c5f39ab4f3db6fa1590b5c42ad572212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 08/49] fix: an anonymous type whose content is a choice is
 named after its element

---
 xsd-parser/src/parser/types.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 1a88243..33a64d6 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -136,6 +136,16 @@ pub struct Enum {
     pub source: EnumSource,
 }
 
+impl Enum {
+    // The struct of a complex type whose content is this choice.
+    pub fn choice_owner(&self) -> Option<&Struct> {
+        match (&self.source, self.subtypes.first()) {
+            (EnumSource::Choice, Some(RsEntity::Struct(st))) => Some(st),
+            _ => None,
+        }
+    }
+}
+
 #[allow(clippy::upper_case_acronyms)]
 #[derive(Debug, Clone, PartialEq, Default)]
 pub enum EnumSource {
@@ -197,7 +207,7 @@ impl RsEntity {
         match self {
             Struct(s) => s.name.as_str(),
             TupleStruct(tp) => tp.name.as_str(),
-            Enum(e) => e.name.as_str(),
+            Enum(e) => e.choice_owner().map_or(e.name.as_str(), |st| st.name.as_str()),
             EnumCase(ec) => ec.name.as_str(),
             Alias(al) => al.name.as_str(),
             StructField(sf) => sf.name.as_str(),
@@ -210,7 +220,10 @@ impl RsEntity {
         match self {
             Struct(s) => s.name = name.to_string(),
             TupleStruct(tp) => tp.name = name.to_string(),
-            Enum(e) => e.name = name.to_string(),
+            Enum(e) => match e.subtypes.first_mut() {
+                Some(Struct(st)) if e.source == EnumSource::Choice => st.name = name.to_string(),
+                _ => e.name = name.to_string(),
+            },
             EnumCase(ec) => ec.name = name.to_string(),
             Alias(al) => al.name = name.to_string(),
             StructField(sf) => sf.name = name.to_string(),
-- 
2.43.0


From ca2c255000de5623ba14751aa16b5ec06f4f0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 09/49] fix: inherit the fields of all base types, whatever the
 order of declaration

---
 xsd-parser/src/parser/types.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 33a64d6..5882855 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -36,27 +36,28 @@ impl Struct {
     }
 
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
-        self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
-
-        let mut fields = self
+        let bases = self
             .fields
             .borrow()
             .iter()
             .filter(|f| f.name.as_str() == tag::BASE)
-            .flat_map(|f| {
-                let key = f.type_name.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .filter(|f| {
-                //TODO: remove this workaround for fields names clash
-                !self.fields.borrow().iter().any(|field| field.name == f.name)
-            })
-            .collect::<Vec<StructField>>();
-
-        self.fields.borrow_mut().append(&mut fields);
+            .map(|f| f.type_name.split(':').last().unwrap().to_string())
+            .collect::<Vec<String>>();
 
         self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
 
+        for base in bases.iter().filter_map(|key| types.get(key)) {
+            // The base may be declared later and have a base of its own.
+            base.extend_base(types);
+
+            let mut fields = base.fields.borrow().clone();
+            //TODO: remove this workaround for fields names clash
+            fields.retain(|f| !self.fields.borrow().iter().any(|field| field.name == f.name));
+            self.fields.borrow_mut().append(&mut fields);
+        }
+
+        self.fields.borrow().iter().for_each(|f| f.extend_base(types));
+
         for subtype in &self.subtypes {
             if let RsEntity::Struct(s) = subtype {
                 s.extend_base(types);
@@ -90,8 +91,8 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub fn extend_base(&mut self, types: &HashMap<&String, &Struct>) {
-        for subtype in &mut self.subtypes {
+    pub fn extend_base(&self, types: &HashMap<&String, &Struct>) {
+        for subtype in &self.subtypes {
             if let RsEntity::Struct(st) = subtype {
                 st.extend_base(types);
             }
-- 
2.43.0


From 84bae39c0e202434fc58f5bd505a3f4b88dee83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 10/49] fix: types whose content is a choice can be extended
 and have attribute groups

---
 xsd-parser/src/parser/mod.rs   | 14 +++++---------
 xsd-parser/src/parser/types.rs | 15 +++++++++++----
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index d45660e..7f737d1 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -42,21 +42,17 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
     let schema_rs = parse_schema(&schema);
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            map.extend(st.get_types_map());
-        }
+    for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
+        map.extend(st.get_types_map());
     }
     for ag in &schema_rs.attribute_groups {
         if let RsEntity::Struct(st) = ag {
             map.extend(st.get_types_map());
         }
     }
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            st.extend_base(&map);
-            st.extend_attribute_group(&map);
-        }
+    for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
+        st.extend_base(&map);
+        st.extend_attribute_group(&map);
     }
 
     Ok(schema_rs)
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 5882855..54cafce 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -92,10 +92,8 @@ pub struct StructField {
 
 impl StructField {
     pub fn extend_base(&self, types: &HashMap<&String, &Struct>) {
-        for subtype in &self.subtypes {
-            if let RsEntity::Struct(st) = subtype {
-                st.extend_base(types);
-            }
+        for st in self.subtypes.iter().filter_map(RsEntity::as_struct) {
+            st.extend_base(types);
         }
     }
 }
@@ -203,6 +201,15 @@ pub enum RsEntity {
 }
 
 impl RsEntity {
+    // The struct of a complex type, it stands apart from its choice if it has one.
+    pub fn as_struct(&self) -> Option<&Struct> {
+        match self {
+            RsEntity::Struct(st) => Some(st),
+            RsEntity::Enum(en) => en.choice_owner(),
+            _ => None,
+        }
+    }
+
     pub fn name(&self) -> &str {
         use RsEntity::*;
         match self {
-- 
2.43.0


From 929bfad969896999a45a787b4352ca4dad5c14f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:08 +0000
Subject: [PATCH 11/49] fix: attribute groups reach every type that refers to
 them, also through other groups, content and bases

---
 xsd-parser/src/parser/attribute_group.rs |  3 ++-
 xsd-parser/src/parser/complex_type.rs    |  1 +
 xsd-parser/src/parser/extension.rs       |  2 ++
 xsd-parser/src/parser/mod.rs             |  8 ++++++--
 xsd-parser/src/parser/restriction.rs     |  3 +++
 xsd-parser/src/parser/types.rs           | 17 +++++++++++++++--
 6 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/xsd-parser/src/parser/attribute_group.rs b/xsd-parser/src/parser/attribute_group.rs
index 4704b80..b21351f 100644
--- a/xsd-parser/src/parser/attribute_group.rs
+++ b/xsd-parser/src/parser/attribute_group.rs
@@ -3,7 +3,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField},
-    utils::get_documentation,
+    utils::{attribute_groups_to_aliases, get_documentation},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -31,6 +31,7 @@ fn parse_global_attribute_group(node: &Node) -> RsEntity {
     RsEntity::Struct(Struct {
         name: name.to_string(),
         fields: std::cell::RefCell::new(fields),
+        attribute_groups: std::cell::RefCell::new(attribute_groups_to_aliases(node)),
         ..Default::default()
     })
 }
diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index bed4dcc..2dbcd23 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -54,6 +54,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
     match &mut res {
         RsEntity::Struct(st) => {
             st.fields.borrow_mut().append(&mut fields);
+            st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
         }
         RsEntity::Enum(en) => {
diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 1341b5a..253ffb1 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -67,6 +67,7 @@ fn complex_content_extension(node: &Node) -> RsEntity {
         .filter(|n| {
             n.is_element()
                 && n.xsd_type() != ElementType::Attribute
+                && n.xsd_type() != ElementType::AttributeGroup
                 && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
         })
         .last();
@@ -75,6 +76,7 @@ fn complex_content_extension(node: &Node) -> RsEntity {
         let mut res = parse_node(&cont, node);
         if let RsEntity::Struct(s) = &mut res {
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             s.comment = get_documentation(node);
             return res;
         }
diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 7f737d1..6563967 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -37,6 +37,7 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let root = doc.root();
 
     let mut map = HashMap::new();
+    let mut attribute_groups = HashMap::new();
 
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
@@ -47,12 +48,15 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     }
     for ag in &schema_rs.attribute_groups {
         if let RsEntity::Struct(st) = ag {
-            map.extend(st.get_types_map());
+            attribute_groups.extend(st.get_types_map());
         }
     }
+    // A base type must have all its attributes before they are inherited.
+    for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
+        st.extend_attribute_group(&attribute_groups);
+    }
     for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
         st.extend_base(&map);
-        st.extend_attribute_group(&map);
     }
 
     Ok(schema_rs)
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 76eb173..c52a0cc 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -79,6 +79,8 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
         .filter(|n| {
             n.is_element()
                 && n.xsd_type() != ElementType::Attribute
+                && n.xsd_type() != ElementType::AttributeGroup
+                && n.xsd_type() != ElementType::AnyAttribute
                 && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
         })
         .last();
@@ -88,6 +90,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
         if let RsEntity::Struct(s) = &mut res {
             s.comment = get_documentation(node);
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             return res;
         }
     }
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 54cafce..f797d31 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -68,15 +68,28 @@ impl Struct {
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
         let mut fields = self
             .attribute_groups
-            .borrow()
+            .take()
             .iter()
             .flat_map(|f| {
                 let key = f.original.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
+                types
+                    .get(&key)
+                    .map(|s| {
+                        // The group may refer to other groups.
+                        s.extend_attribute_group(types);
+                        s.fields.borrow().clone()
+                    })
+                    .unwrap_or_default()
             })
             .collect::<Vec<StructField>>();
 
         self.fields.borrow_mut().append(&mut fields);
+
+        for field in self.fields.borrow().iter() {
+            for st in field.subtypes.iter().filter_map(RsEntity::as_struct) {
+                st.extend_attribute_group(types);
+            }
+        }
     }
 }
 
-- 
2.43.0


From 71cb7e43dcea543f9fcc99d14aa1db601797d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:11 +0000
Subject: [PATCH 12/49] fix: keep a choice inside an extension

---
 xsd-parser/src/parser/extension.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 253ffb1..56f35be 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -6,7 +6,10 @@ use crate::parser::{
     constants::{attribute, tag},
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, StructFieldSource},
-    utils::{attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation},
+    utils::{
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+        get_documentation, get_parent_name,
+    },
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
@@ -74,6 +77,10 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
+        if let RsEntity::Enum(en) = &mut res {
+            en.name = format!("{}Choice", get_parent_name(node));
+            fields.push(enum_to_field(en.clone()));
+        }
         if let RsEntity::Struct(s) = &mut res {
             s.fields.borrow_mut().append(&mut fields);
             s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
-- 
2.43.0


From 6a913dbbe98154115b07aee758ddc6e2438a63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 13/49] fix: schemas parsed on their own (as in WSDL) inherit
 base fields and attribute groups too

---
 xsd-parser/src/parser/mod.rs    | 29 ++---------------------------
 xsd-parser/src/parser/schema.rs | 29 +++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 6563967..de031b1 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -23,12 +23,7 @@ mod union;
 mod utils;
 pub mod xsd_elements;
 
-use std::collections::HashMap;
-
-use crate::parser::{
-    schema::parse_schema,
-    types::{RsEntity, RsFile},
-};
+use crate::parser::{schema::parse_schema, types::RsFile};
 
 // FIXME: Actually pass up errors
 #[allow(clippy::result_unit_err)]
@@ -36,28 +31,8 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let doc = roxmltree::Document::parse(text).map_err(|_| ())?;
     let root = doc.root();
 
-    let mut map = HashMap::new();
-    let mut attribute_groups = HashMap::new();
-
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
-    let schema_rs = parse_schema(&schema);
-    for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
-        map.extend(st.get_types_map());
-    }
-    for ag in &schema_rs.attribute_groups {
-        if let RsEntity::Struct(st) = ag {
-            attribute_groups.extend(st.get_types_map());
-        }
-    }
-    // A base type must have all its attributes before they are inherited.
-    for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
-        st.extend_attribute_group(&attribute_groups);
-    }
-    for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
-        st.extend_base(&map);
-    }
-
-    Ok(schema_rs)
+    Ok(parse_schema(&schema))
 }
diff --git a/xsd-parser/src/parser/schema.rs b/xsd-parser/src/parser/schema.rs
index 36be5ef..47084b8 100644
--- a/xsd-parser/src/parser/schema.rs
+++ b/xsd-parser/src/parser/schema.rs
@@ -1,8 +1,10 @@
+use std::collections::HashMap;
+
 use roxmltree::Node;
 
 use crate::parser::{
     node_parser::parse_node,
-    types::RsFile,
+    types::{RsEntity, RsFile},
     utils::target_namespace,
     xsd_elements::{ElementType, XsdNode},
 };
@@ -12,7 +14,7 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
         .namespaces()
         .filter(|namespace| namespace.uri() == "http://www.w3.org/2001/XMLSchema");
 
-    RsFile {
+    let schema_rs = RsFile {
         name: "".into(),
         namespace: None,
         target_ns: target_namespace(schema).cloned(),
@@ -35,6 +37,29 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
             .filter(|n| n.is_element() && n.xsd_type() == ElementType::AttributeGroup)
             .map(|node| parse_node(&node, schema))
             .collect(),
+    };
+    extend_types(&schema_rs);
+    schema_rs
+}
+
+fn extend_types(schema_rs: &RsFile) {
+    let mut map = HashMap::new();
+    let mut attribute_groups = HashMap::new();
+
+    for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
+        map.extend(st.get_types_map());
+    }
+    for ag in &schema_rs.attribute_groups {
+        if let RsEntity::Struct(st) = ag {
+            attribute_groups.extend(st.get_types_map());
+        }
+    }
+    // A base type must have all its attributes before they are inherited.
+    for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
+        st.extend_attribute_group(&attribute_groups);
+    }
+    for st in schema_rs.types.iter().filter_map(RsEntity::as_struct) {
+        st.extend_base(&map);
     }
 }
 
-- 
2.43.0


From bc4bc77796403afd5c1a5f83c14826b7466bed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 14/49] fix: functions of several port types come out in the
 same order on every run

---
 wsdl-parser/src/generator/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index e9a8346..43325ea 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -10,7 +10,10 @@ pub mod function;
 pub fn generate(definitions: &Definitions) -> String {
     let mut res = vec![];
 
-    for port_type in definitions.port_types().values() {
+    // The order in a hash map varies from run to run.
+    let mut port_types = definitions.port_types().values().collect::<Vec<_>>();
+    port_types.sort_by_key(|port_type| port_type.name());
+    for port_type in port_types {
         for op in port_type.operations() {
             let func = Function::new(op, definitions);
             res.push(generate_function(&func, definitions.target_namespace()));
-- 
2.43.0


From 1989b21406fc9881afb49727d6958bbefad72da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 15/49] fix: operations without output return unit

---
 wsdl-parser/src/generator/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 43325ea..251fee1 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -48,7 +48,8 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
             .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(",\n    "),
-        return_type = ftype(func.return_type),
+        return_type =
+            if func.return_type.is_empty() { "()".into() } else { ftype(func.return_type) },
         body = REQUEST_FUNC_BODY
     )
 }
-- 
2.43.0


From 241cad13b33affbe1db6c0b0fb2678a15a698552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 16/49] fix: message parts may refer to types, and an output
 message may have no parts

---
 wsdl-parser/src/generator/function.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index 29c845c..a912edb 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -55,7 +55,10 @@ impl<'a> Function<'a> {
         Function {
             generic_params: vec![GENERIC_TRANSPORT],
             arguments: get_input_params(input_message),
-            return_type: output_message.and_then(|m| m.parts()[0].element()).unwrap_or(""),
+            return_type: output_message
+                .and_then(|m| m.parts().first())
+                .map(|p| Param::new(p).typename)
+                .unwrap_or(""),
             documentation: operation.documentation(),
             name: operation.name(),
         }
@@ -71,7 +74,7 @@ fn get_input_params<'a>(input: Option<&'a Message<'_>>) -> Vec<Param<'a>> {
 
     if input.parts().len() == 1 {
         // ONVIF case
-        result.push(Param { name: "request", typename: input.parts()[0].element().unwrap() })
+        result.push(Param { name: "request", typename: Param::new(&input.parts()[0]).typename })
     } else {
         result.append(&mut input.parts().iter().map(Param::new).collect());
     };
-- 
2.43.0


From 09c8935d1ffa84ed1dedc13f87068b873aaab018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 17/49] fix: a gDay, gMonth, gMonthDay or timezone with other
 than ASCII characters is an error, not a panic

---
 xsd-types/src/types/gday.rs      | 2 +-
 xsd-types/src/types/gmonth.rs    | 2 +-
 xsd-types/src/types/gmonthday.rs | 2 +-
 xsd-types/src/types/utils.rs     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/types/gday.rs b/xsd-types/src/types/gday.rs
index 74fcfe4..e7e050a 100644
--- a/xsd-types/src/types/gday.rs
+++ b/xsd-types/src/types/gday.rs
@@ -31,7 +31,7 @@ impl FromStr for GDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 5 || &s[0..3] != "---" {
+            if !s.is_ascii() || s.len() != 5 || &s[0..3] != "---" {
                 return Err("bad gDay format".to_string());
             }
             let token = &s[3..5];
diff --git a/xsd-types/src/types/gmonth.rs b/xsd-types/src/types/gmonth.rs
index 2ce2ca3..eb714e8 100644
--- a/xsd-types/src/types/gmonth.rs
+++ b/xsd-types/src/types/gmonth.rs
@@ -31,7 +31,7 @@ impl FromStr for GMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 4 || &s[0..2] != "--" {
+            if !s.is_ascii() || s.len() != 4 || &s[0..2] != "--" {
                 return Err("bad gMonth format".to_string());
             }
             let token = &s[2..4];
diff --git a/xsd-types/src/types/gmonthday.rs b/xsd-types/src/types/gmonthday.rs
index 183c96a..2dfe516 100644
--- a/xsd-types/src/types/gmonthday.rs
+++ b/xsd-types/src/types/gmonthday.rs
@@ -50,7 +50,7 @@ impl FromStr for GMonthDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<(i32, i32), String> {
-            if s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
+            if !s.is_ascii() || s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
                 return Err("bad gMonthDay format".to_string());
             }
 
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index bb4dc88..043e54b 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -6,7 +6,7 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
         return Ok(FixedOffset::east_opt(0).unwrap());
     }
 
-    let tokens: Vec<&str> = s[1..].split(':').collect();
+    let tokens: Vec<&str> = s.get(1..).ok_or("bad timezone format")?.split(':').collect();
     if tokens.len() != 2 || tokens[0].len() != 2 || tokens[1].len() != 2 {
         return Err("bad timezone format".to_string());
     }
-- 
2.43.0


From 640b54c0e4cfd70d0262df9a7c9ef3b7b79f30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 18/49] fix: a zero without a designator is not a part of a
 duration

---
 xsd-types/src/types/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index e352b9c..6f55c87 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -123,7 +123,7 @@ impl FromStr for Duration {
                         return Err("Symbol 'T' occurred twice".into());
                     }
 
-                    if context.number > 0 {
+                    if !context.is_number_empty {
                         return Err("Symbol 'T' occurred after a number".into());
                     }
 
@@ -190,7 +190,7 @@ impl FromStr for Duration {
             }
         }
 
-        if context.number > 0 {
+        if !context.is_number_empty {
             return Err("Number at the end of the string".into());
         }
 
-- 
2.43.0


From 0eb0a9be099983c998f1f6ea04374d44924a7984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 19/49] fix: too many digits in a duration are an error instead
 of an overflow

---
 xsd-types/src/types/duration.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 6f55c87..fc627ee 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -175,15 +175,19 @@ impl FromStr for Duration {
                         return Err("Incorrect character occurred".into());
                     }
 
+                    let digit = digit.to_digit(10).expect("error converting a digit") as u64;
                     if context.is_dot_found {
-                        context.numer *= 10;
-                        context.numer +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.denom *= 10;
+                        // Digits that do not fit are beyond the precision of seconds anyway.
+                        if let Some(denom) = context.denom.checked_mul(10) {
+                            context.numer = context.numer * 10 + digit;
+                            context.denom = denom;
+                        }
                     } else {
-                        context.number *= 10;
-                        context.number +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
+                        context.number = context
+                            .number
+                            .checked_mul(10)
+                            .and_then(|number| number.checked_add(digit))
+                            .ok_or("Number is too big")?;
                         context.is_number_empty = false;
                     }
                 }
-- 
2.43.0


From 2f1d137388ef9e3e1704dc61f9fddbb19d52e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:15 +0000
Subject: [PATCH 20/49] fix: negative and too long durations have no
 std::time::Duration

---
 xsd-types/src/types/duration.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index fc627ee..a46a519 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -19,11 +19,17 @@ impl Duration {
     pub fn to_std_duration(&self) -> Result<std::time::Duration, String> {
         if self.years > 0 || self.months > 0 {
             Err("Duration with months or years require a starting date to be converted".into())
+        } else if self.is_negative {
+            Err("Negative duration can not be converted".into())
         } else {
             let secs = self.seconds as u64;
 
             let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
-            let secs = secs + 60 * (self.minutes + 60 * (self.hours + 24 * self.days));
+            let secs = (self.days.checked_mul(24))
+                .and_then(|hours| hours.checked_add(self.hours)?.checked_mul(60))
+                .and_then(|minutes| minutes.checked_add(self.minutes)?.checked_mul(60))
+                .and_then(|seconds| seconds.checked_add(secs))
+                .ok_or("Duration is too long to be converted")?;
 
             Ok(std::time::Duration::new(secs, nanos))
         }
-- 
2.43.0


From a52bea506faee9108a5f387bba5523f22f57e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:16 +0000
Subject: [PATCH 21/49] fix: keep fractional seconds of a time

---
 xsd-types/src/types/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index baa2d26..54c42c0 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -32,7 +32,7 @@ impl FromStr for Time {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_time(s: &str) -> Result<NaiveTime, String> {
-            NaiveTime::parse_from_str(s, "%H:%M:%S").map_err(|e| e.to_string())
+            NaiveTime::parse_from_str(s, "%H:%M:%S%.f").map_err(|e| e.to_string())
         }
 
         if let Some(s) = s.strip_suffix('Z') {
@@ -76,7 +76,7 @@ impl FromStr for Time {
 
 impl fmt::Display for Time {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let fmt = StrftimeItems::new("%H:%M:%S");
+        let fmt = StrftimeItems::new("%H:%M:%S%.f");
         match self.timezone {
             Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
             None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
-- 
2.43.0


From bbeeca35567dc959573973066e9af66a6c290883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:17 +0000
Subject: [PATCH 22/49] fix: a date with a negative year may have no timezone

---
 xsd-types/src/types/date.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index 820f930..ae22573 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -56,8 +56,10 @@ impl FromStr for Date {
             });
         }
 
-        if s.matches('-').count() == 3 {
-            let idx: usize = s.match_indices('-').collect::<Vec<_>>()[2].0;
+        // The minus sign of a negative year does not separate anything.
+        let sign = usize::from(s.starts_with('-'));
+        if s.matches('-').count() == 3 + sign {
+            let idx: usize = s.match_indices('-').collect::<Vec<_>>()[2 + sign].0;
             let date_token = &s[..idx];
             let tz_token = &s[idx..];
             return Ok(Date {
-- 
2.43.0


From ec3b66ed52ad58465c88039e72801c1be9981a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:18 +0000
Subject: [PATCH 23/49] fix: a date and a time need all their digits

---
 xsd-types/src/types/date.rs | 5 +++++
 xsd-types/src/types/time.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index ae22573..f0cfd0a 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -32,6 +32,11 @@ impl FromStr for Date {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_date(s: &str) -> Result<NaiveDate, String> {
+            // All the digits are required, `chrono` would accept spaces or nothing instead of some.
+            let unsigned = s.strip_prefix('-').unwrap_or(s);
+            if unsigned.len() != 10 || !unsigned.chars().all(|c| c.is_ascii_digit() || c == '-') {
+                return Err("bad date format".to_string());
+            }
             NaiveDate::parse_from_str(s, "%Y-%m-%d").map_err(|e| e.to_string())
         }
 
diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index 54c42c0..93a267f 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -32,6 +32,14 @@ impl FromStr for Time {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_time(s: &str) -> Result<NaiveTime, String> {
+            // All the digits are required, `chrono` would accept spaces or nothing instead of some.
+            let (hms, fraction) = s.split_at(s.find('.').unwrap_or(s.len()));
+            if hms.len() != 8
+                || !hms.chars().all(|c| c.is_ascii_digit() || c == ':')
+                || fraction.contains(char::is_whitespace)
+            {
+                return Err("bad time format".to_string());
+            }
             NaiveTime::parse_from_str(s, "%H:%M:%S%.f").map_err(|e| e.to_string())
         }
 
-- 
2.43.0


From 246d584f140839a2e7d33d15525dcc5eaffeab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 24/49] fix: underscores are not allowed in integers

---
 xsd-types/src/types/integer.rs              | 4 +++-
 xsd-types/src/types/negative_integer.rs     | 4 +++-
 xsd-types/src/types/non_negative_integer.rs | 4 +++-
 xsd-types/src/types/non_positive_integer.rs | 4 +++-
 xsd-types/src/types/positive_integer.rs     | 4 +++-
 xsd-types/src/types/utils.rs                | 5 +++++
 6 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/xsd-types/src/types/integer.rs b/xsd-types/src/types/integer.rs
index 610189c..c5ae755 100644
--- a/xsd-types/src/types/integer.rs
+++ b/xsd-types/src/types/integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ParseBigIntError, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#integer
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct Integer(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for Integer {
     type Err = ParseBigIntError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Integer(BigInt::from_str(s)?))
+        Ok(Integer(BigInt::from_str(&without_separators(s))?))
     }
 }
 
diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index 009a293..a501869 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigInt::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
         if value >= 0.to_bigint().unwrap() {
             Err("Bad value for NegativeInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index 044781a..60ba74a 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#nonNegativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonNegativeInteger(pub BigUint);
@@ -23,7 +25,7 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigUint::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
         if value < 0.to_biguint().unwrap() {
             Err("Bad value for NonNegativeInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/non_positive_integer.rs b/xsd-types/src/types/non_positive_integer.rs
index b0565a6..fb3cd44 100644
--- a/xsd-types/src/types/non_positive_integer.rs
+++ b/xsd-types/src/types/non_positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#nonPositiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonPositiveInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NonPositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigInt::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
         if value > 0.to_bigint().unwrap() {
             Err("Bad value for NonPositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index ea98080..c42ea09 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
@@ -23,7 +25,7 @@ impl FromStr for PositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigUint::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
         if value <= 0.to_biguint().unwrap() {
             Err("Bad value for PositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index 043e54b..c61ed27 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -29,6 +29,11 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
     }
 }
 
+// `num_bigint` ignores underscores between digits, but they are not allowed in XSD numbers.
+pub fn without_separators(s: &str) -> String {
+    s.replace('_', " ")
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9f33be8926f07255b68e11cc8a6434d893712969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 25/49] fix: exponents and underscores are not allowed in
 decimals

---
 xsd-types/src/types/decimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index c5fcd6c..e6fed12 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -20,6 +20,11 @@ impl FromStr for Decimal {
     type Err = ParseBigDecimalError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // `BigDecimal` allows exponents and underscores, XSD decimals do not.
+        let unsigned = s.strip_prefix(['+', '-']).unwrap_or(s);
+        if !unsigned.chars().all(|c| c.is_ascii_digit() || c == '.') {
+            return Err(ParseBigDecimalError::Other("bad decimal format".to_string()));
+        }
         Ok(Decimal(BigDecimal::from_str(s)?))
     }
 }
-- 
2.43.0


From a4fcc2f6b8e069c61387ce443a3a4219a93883fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:22 +0000
Subject: [PATCH 26/49] fix: a decimal is displayed without an exponent

---
 xsd-types/src/types/decimal.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index e6fed12..3559bcc 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use bigdecimal::{BigDecimal, ParseBigDecimalError};
+use bigdecimal::{num_bigint::Sign, BigDecimal, ParseBigDecimalError};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -31,7 +31,19 @@ impl FromStr for Decimal {
 
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.0)
+        // `BigDecimal` may be displayed with an exponent, XSD decimals have none.
+        let (int, scale) = self.0.as_bigint_and_exponent();
+        let sign = if int.sign() == Sign::Minus { "-" } else { "" };
+        let digits = int.magnitude().to_string();
+        if scale <= 0 {
+            let zeros = if int.sign() == Sign::NoSign { 0 } else { -scale as usize };
+            write!(f, "{}{}{}", sign, digits, "0".repeat(zeros))
+        } else {
+            let scale = scale as usize;
+            let digits = "0".repeat((scale + 1).saturating_sub(digits.len())) + &digits;
+            let (int, fraction) = digits.split_at(digits.len() - scale);
+            write!(f, "{}{}.{}", sign, int, fraction)
+        }
     }
 }
 
-- 
2.43.0


From c2ab46d28567e85e375f4e6d76dc28b376068071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 27/49] fix: both parts of a qualified type name are legal
 identifiers

---
 wsdl-parser/src/generator/mod.rs    | 11 ++++++++---
 xsd-parser/src/generator/default.rs | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 251fee1..99e6a07 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -85,9 +85,9 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    let qname = |prefix: &str| format!("{}::{}", module_name(prefix), pascalized_name);
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
@@ -101,7 +101,12 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
         _ => pascalized_name,
     };
 
-    sanitize(res).into()
+    res.into()
+}
+
+/// The module for a namespace prefix: XML names may have characters identifiers may not have.
+fn module_name(prefix: &str) -> String {
+    sanitize(prefix.replace(|c: char| !(c.is_ascii_alphanumeric() || c == '_'), "_"))
 }
 
 pub fn default_format_name(name: &str) -> String {
diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 35bae27..3ca777f 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -25,9 +25,9 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    let qname = |prefix: &str| format!("{}::{}", module_name(prefix), pascalized_name);
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
@@ -41,7 +41,12 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
         _ => pascalized_name,
     };
 
-    sanitize(res).into()
+    res.into()
+}
+
+/// The module for a namespace prefix: XML names may have characters identifiers may not have.
+fn module_name(prefix: &str) -> String {
+    sanitize(prefix.replace(|c: char| !(c.is_ascii_alphanumeric() || c == '_'), "_"))
 }
 
 pub fn default_modify_type(type_name: &str, modifiers: &[TypeModifier]) -> Cow<'static, str> {
-- 
2.43.0


From c134470bb366bb165b1bbf6050de1f8b865f9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 28/49] fix: the module of nested types may be named like the
 prefix of the target namespace

---
 xsd-parser/src/generator/default.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 3ca777f..dfec340 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -31,7 +31,8 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
-            if ns == tns {
+            // "ns::Name" is a path to a nested type, "ns:Name" a qualified name
+            if ns == tns && !name.starts_with(':') {
                 pascalized_name
             } else {
                 qname(ns)
-- 
2.43.0


From fc11b7e006a245b31d90e6e8901dbb1a93161f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:46 +0000
Subject: [PATCH 29/49] fix: digits after the fraction of seconds of a duration
 are an error

---
 xsd-types/src/types/duration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index a46a519..814c92e 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -97,6 +97,7 @@ impl FromStr for Duration {
             context.last_filled_component = 6;
             context.number = 0;
             context.is_number_empty = true;
+            context.is_dot_found = false;
 
             Ok(())
         }
-- 
2.43.0


From bd5b2b9dd3117860cf92c41778dce57b71c58dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:48 +0000
Subject: [PATCH 30/49] fix: the fraction of seconds is rounded, not truncated,
 to nanoseconds

---
 xsd-types/src/types/duration.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 814c92e..6c6503e 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -22,16 +22,16 @@ impl Duration {
         } else if self.is_negative {
             Err("Negative duration can not be converted".into())
         } else {
-            let secs = self.seconds as u64;
-
-            let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
+            let seconds = std::time::Duration::try_from_secs_f64(self.seconds)
+                .map_err(|e| e.to_string())?;
             let secs = (self.days.checked_mul(24))
                 .and_then(|hours| hours.checked_add(self.hours)?.checked_mul(60))
                 .and_then(|minutes| minutes.checked_add(self.minutes)?.checked_mul(60))
-                .and_then(|seconds| seconds.checked_add(secs))
                 .ok_or("Duration is too long to be converted")?;
 
-            Ok(std::time::Duration::new(secs, nanos))
+            std::time::Duration::from_secs(secs)
+                .checked_add(seconds)
+                .ok_or_else(|| "Duration is too long to be converted".into())
         }
     }
 
-- 
2.43.0


From 543e237a198de64f891521a9933b8e209b84000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:22 +0000
Subject: [PATCH 31/49] fix: years of more than four digits have no leading
 zeros

---
 xsd-types/src/types/gyear.rs      | 3 +++
 xsd-types/src/types/gyearmonth.rs | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index 7943e8b..01fa655 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -44,6 +44,9 @@ fn parse_str_positive(s: &str) -> Result<GYear, String> {
         if s.len() < 4 {
             return Err("bad gYear format: to short".to_string());
         }
+        if s.len() > 4 && s.starts_with('0') {
+            return Err("bad gYear format: leading zeros".to_string());
+        }
         if !s.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad gYear format".to_string());
         }
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index 38a3a09..fe7ee02 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -62,7 +62,8 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         let idx: usize = s.match_indices('-').collect::<Vec<_>>()[0].0;
         let year_token = &s[..idx];
         let month_token = &s[idx + 1..];
-        if year_token.len() < 4 || month_token.len() != 2 {
+        let has_leading_zeros = year_token.len() > 4 && year_token.starts_with('0');
+        if year_token.len() < 4 || has_leading_zeros || month_token.len() != 2 {
             return Err("bad gYearMonth format".to_string());
         }
 
-- 
2.43.0


From 6c46d5d46e14594af7bf448962fbed4de6820f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:23 +0000
Subject: [PATCH 32/49] fix: zero with a minus sign is a nonNegativeInteger

---
 xsd-types/src/types/non_negative_integer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index 60ba74a..99cea82 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use num_bigint::{BigUint, ToBigUint};
+use num_bigint::{BigInt, BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 use crate::types::utils::without_separators;
@@ -25,11 +25,10 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
-        if value < 0.to_biguint().unwrap() {
-            Err("Bad value for NonNegativeInteger".to_string())
-        } else {
-            Ok(NonNegativeInteger(value))
+        let value = BigInt::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
+        match value.to_biguint() {
+            Some(value) => Ok(NonNegativeInteger(value)),
+            None => Err("Bad value for NonNegativeInteger".to_string()),
         }
     }
 }
-- 
2.43.0


From e5302ac70296759f1b138c63cbc12d293c7ee2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 33/49] fix: dateTime and time are as strict as XML Schema
 about letters, separators, seconds and timezones

---
 xsd-types/src/types/datetime.rs      |  6 ++++--
 xsd-types/src/types/datetimestamp.rs |  4 ++--
 xsd-types/src/types/time.rs          |  1 +
 xsd-types/src/types/utils.rs         | 17 ++++++++++++++++-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/xsd-types/src/types/datetime.rs b/xsd-types/src/types/datetime.rs
index 5bbddbb..aafbd4d 100644
--- a/xsd-types/src/types/datetime.rs
+++ b/xsd-types/src/types/datetime.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use chrono::{format::ParseError, DateTime as CDateTime, FixedOffset};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_datetime;
+
 #[derive(PartialEq, PartialOrd, Debug, Clone, UtilsDefaultSerde)]
 pub struct DateTime {
     pub value: CDateTime<FixedOffset>,
@@ -28,14 +30,14 @@ impl FromStr for DateTime {
     type Err = ParseError;
 
     // Note:
-    // `parse_from_rfc3339` parses an RFC 3339 and ISO 8601 date and time string.
+    // `parse_datetime` parses an RFC 3339 and ISO 8601 date and time string.
     // XSD follows ISO 8601, which allows no time zone at the end of literal.
     // Since RFC 3339 does not allow such behavior, the function tries to add
     // 'Z' (which equals "+00:00") in case there is no timezone provided.
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let tz_provided = s.ends_with('Z') || s.contains('+') || s.matches('-').count() == 3;
         let s_with_timezone = if tz_provided { s.to_string() } else { format!("{}Z", s) };
-        match CDateTime::parse_from_rfc3339(&s_with_timezone) {
+        match parse_datetime(&s_with_timezone) {
             Ok(cdt) => Ok(DateTime { value: cdt }),
             Err(err) => Err(err),
         }
diff --git a/xsd-types/src/types/datetimestamp.rs b/xsd-types/src/types/datetimestamp.rs
index a4bc81f..2cd5774 100644
--- a/xsd-types/src/types/datetimestamp.rs
+++ b/xsd-types/src/types/datetimestamp.rs
@@ -3,7 +3,7 @@ use std::{fmt, str::FromStr};
 use chrono::{format::ParseError, DateTime as CDateTime, FixedOffset};
 use xsd_macro_utils::UtilsDefaultSerde;
 
-use crate::types::datetime::DateTime;
+use crate::types::{datetime::DateTime, utils::parse_datetime};
 
 // The only difference from DateTime is that the time zone expression is required at the end of the value.
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -25,7 +25,7 @@ impl FromStr for DateTimeStamp {
     type Err = ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match CDateTime::parse_from_rfc3339(s) {
+        match parse_datetime(s) {
             Ok(cdt) => Ok(DateTimeStamp::from_chrono_datetime(cdt)),
             Err(err) => Err(err),
         }
diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index 93a267f..c341996 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -36,6 +36,7 @@ impl FromStr for Time {
             let (hms, fraction) = s.split_at(s.find('.').unwrap_or(s.len()));
             if hms.len() != 8
                 || !hms.chars().all(|c| c.is_ascii_digit() || c == ':')
+                || hms.ends_with("60") // `chrono` allows leap seconds
                 || fraction.contains(char::is_whitespace)
             {
                 return Err("bad time format".to_string());
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index c61ed27..6e02f73 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -1,4 +1,4 @@
-use chrono::FixedOffset;
+use chrono::{format::ParseError, DateTime, FixedOffset};
 
 // Parses ISO 8601 timezone.
 pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
@@ -29,6 +29,21 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
     }
 }
 
+// Parses a date and time with timezone. RFC 3339 allows more than XSD: lower case letters, a space
+// instead of 'T', leap seconds and timezones beyond 14 hours.
+pub fn parse_datetime(s: &str) -> Result<DateTime<FixedOffset>, ParseError> {
+    let allowed = |c: char| c.is_ascii_digit() || "-+:.TZ".contains(c);
+    let value = DateTime::parse_from_rfc3339(s)?;
+    let is_valid = s.chars().all(allowed)
+        && s.get(17..19) != Some("60")
+        && value.offset().local_minus_utc().abs() <= 14 * 3600;
+    if is_valid {
+        Ok(value)
+    } else {
+        DateTime::parse_from_rfc3339("")
+    }
+}
+
 // `num_bigint` ignores underscores between digits, but they are not allowed in XSD numbers.
 pub fn without_separators(s: &str) -> String {
     s.replace('_', " ")
-- 
2.43.0


From 075a8dda1055c294f7015e53e70f0c81d87dfd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 34/49] fix: seconds of a duration are the number nearest to
 the text

---
 xsd-types/src/types/duration.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 6c6503e..6459a38 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -85,7 +85,7 @@ impl FromStr for Duration {
                 return Err("No value is specified for seconds, so 'S' must not be present");
             }
 
-            if context.is_dot_found && context.denom == 1 {
+            if context.is_dot_found && context.fraction.is_empty() {
                 return Err("At least one digit must follow the decimal point if it appears");
             }
 
@@ -93,7 +93,10 @@ impl FromStr for Duration {
                 return Err("Bad order of duration components");
             }
 
-            *seconds = context.number as f64 + context.numer as f64 / context.denom as f64;
+            // Parsed at once, the sum of both parts might be off by a rounding error.
+            *seconds = format!("{}.{}", context.number, context.fraction)
+                .parse()
+                .map_err(|_| "Bad number of seconds")?;
             context.last_filled_component = 6;
             context.number = 0;
             context.is_number_empty = true;
@@ -182,14 +185,11 @@ impl FromStr for Duration {
                         return Err("Incorrect character occurred".into());
                     }
 
-                    let digit = digit.to_digit(10).expect("error converting a digit") as u64;
                     if context.is_dot_found {
-                        // Digits that do not fit are beyond the precision of seconds anyway.
-                        if let Some(denom) = context.denom.checked_mul(10) {
-                            context.numer = context.numer * 10 + digit;
-                            context.denom = denom;
-                        }
+                        context.fraction.push(digit);
                     } else {
+                        let digit =
+                            digit.to_digit(10).expect("error converting a digit") as u64;
                         context.number = context
                             .number
                             .checked_mul(10)
@@ -272,9 +272,7 @@ struct ParsingContext {
     is_number_empty: bool,
 
     is_dot_found: bool,
-    // Numerator and denominator of seconds fraction part.
-    numer: u64,
-    denom: u64,
+    fraction: String, // Digits of seconds fraction part.
 }
 
 impl ParsingContext {
@@ -288,8 +286,7 @@ impl ParsingContext {
             is_number_empty: true,
 
             is_dot_found: false,
-            numer: 0,
-            denom: 1,
+            fraction: String::new(),
         }
     }
 }
-- 
2.43.0


From 50c9570a33d9ecc050d98d8d9c4d2bef734c6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 35/49] fix: writing the least year does not overflow

---
 xsd-types/src/types/gyear.rs      | 4 ++--
 xsd-types/src/types/gyearmonth.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index 01fa655..ee08b40 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -91,8 +91,8 @@ impl fmt::Display for GYear {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}{}", -self.value, tz),
-                None => write!(f, "-{:04}", -self.value),
+                Some(tz) => write!(f, "-{:04}{}", self.value.unsigned_abs(), tz),
+                None => write!(f, "-{:04}", self.value.unsigned_abs()),
             }
         }
     }
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index fe7ee02..32c4d91 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -118,8 +118,8 @@ impl fmt::Display for GYearMonth {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}-{:02}{}", -self.year, self.month, tz),
-                None => write!(f, "-{:04}-{:02}", -self.year, self.month),
+                Some(tz) => write!(f, "-{:04}-{:02}{}", self.year.unsigned_abs(), self.month, tz),
+                None => write!(f, "-{:04}-{:02}", self.year.unsigned_abs(), self.month),
             }
         }
     }
-- 
2.43.0


From a273555ddae670fb590d869a045df909bd160e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 36/49] fix: the parts of a date with a negative year need all
 their digits

---
 xsd-types/src/types/date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index f0cfd0a..2bcc31d 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -34,7 +34,8 @@ impl FromStr for Date {
         fn parse_naive_date(s: &str) -> Result<NaiveDate, String> {
             // All the digits are required, `chrono` would accept spaces or nothing instead of some.
             let unsigned = s.strip_prefix('-').unwrap_or(s);
-            if unsigned.len() != 10 || !unsigned.chars().all(|c| c.is_ascii_digit() || c == '-') {
+            let lengths = unsigned.split('-').map(str::len);
+            if !lengths.eq([4, 2, 2]) || !unsigned.chars().all(|c| c.is_ascii_digit() || c == '-') {
                 return Err("bad date format".to_string());
             }
             NaiveDate::parse_from_str(s, "%Y-%m-%d").map_err(|e| e.to_string())
-- 
2.43.0


From 9d8dcad45fb789cadb75bb73dd24974f11662957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:33 +0000
Subject: [PATCH 37/49] fix: elements of a schema whose target namespace is the
 default namespace are in that namespace

---
 xsd-parser/src/generator/default.rs | 3 ++-
 xsd-parser/src/generator/enum.rs    | 2 +-
 xsd-parser/src/generator/struct.rs  | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index dfec340..167de3c 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -91,7 +91,8 @@ pub fn yaserde_for_element(
     let (prefix, field_name) = if let Some(index) = name.find(':') {
         (Some(&name[0..index]), &name[index + 1..])
     } else {
-        (target_namespace.and_then(|ns| ns.name()), name)
+        // A target namespace without a prefix is the default namespace, its prefix is empty.
+        (target_namespace.map(|ns| ns.name().unwrap_or("")), name)
     };
 
     match prefix {
diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index 449d1b7..c3a21d5 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -76,7 +76,7 @@ pub trait EnumGenerator {
                     uri = tn.uri()
                 ),
                 None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index 74cbd27..1ae8a63 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -90,7 +90,7 @@ pub trait StructGenerator {
                     uri = tn.uri()
                 ),
                 None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
-- 
2.43.0


From a21aeeaf747a9cedc4f03a799b156d25cc24c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:10 +0000
Subject: [PATCH 38/49] fix: occurrence bounds with spaces around them or
 beyond usize are not ignored

---
 xsd-parser/src/parser/xsd_elements.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/xsd_elements.rs b/xsd-parser/src/parser/xsd_elements.rs
index bbeda21..20aaace 100644
--- a/xsd-parser/src/parser/xsd_elements.rs
+++ b/xsd-parser/src/parser/xsd_elements.rs
@@ -210,15 +210,25 @@ pub enum MaxOccurs {
     None,
 }
 
+// Any nonNegativeInteger is a bound, however large.
+fn occurs(value: &str) -> Option<usize> {
+    let value = value.trim();
+    if !value.is_empty() && value.bytes().all(|b| b.is_ascii_digit()) {
+        Some(value.parse().unwrap_or(usize::MAX))
+    } else {
+        value.parse().ok()
+    }
+}
+
 pub fn min_occurs(node: &roxmltree::Node) -> MinOccurs {
-    node.attribute(attribute::MIN_OCCURS).and_then(|v| v.parse::<usize>().ok()).unwrap_or(1)
+    node.attribute(attribute::MIN_OCCURS).and_then(occurs).unwrap_or(1)
 }
 
 pub fn max_occurs(node: &roxmltree::Node) -> MaxOccurs {
     match node.attribute(attribute::MAX_OCCURS) {
-        Some(s) => match s {
+        Some(s) => match s.trim() {
             "unbounded" => MaxOccurs::Unbounded,
-            s => s.parse::<usize>().ok().map(MaxOccurs::Bounded).unwrap_or(MaxOccurs::None),
+            s => occurs(s).map(MaxOccurs::Bounded).unwrap_or(MaxOccurs::None),
         },
         None => MaxOccurs::None,
     }
-- 
2.43.0


From 70206e67ed6d992db23158fb81c9435adb2f939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 39/49] fix: durations are ordered by their length, not sign
 and fields one by one

---
 xsd-types/src/types/duration.rs | 42 +++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 6459a38..8dd1136 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -1,8 +1,8 @@
-use std::{fmt, fmt::Write, str::FromStr};
+use std::{cmp::Ordering, fmt, fmt::Write, str::FromStr};
 
 use xsd_macro_utils::UtilsDefaultSerde;
 
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Default, Clone, PartialEq, Debug, UtilsDefaultSerde)]
 pub struct Duration {
     pub is_negative: bool,
 
@@ -41,6 +41,44 @@ impl Duration {
 
     // TODO: Implement normalization function that takes a moment at time to start from and
     // converts months & years to days.
+
+    // Length in months and in nanoseconds.
+    fn months_and_nanos(&self) -> (i128, i128) {
+        let sign = if self.is_negative { -1 } else { 1 };
+        let months = i128::from(self.years) * 12 + i128::from(self.months);
+        let hours = i128::from(self.days) * 24 + i128::from(self.hours);
+        let minutes = hours * 60 + i128::from(self.minutes);
+        let nanos = (minutes * 60_000_000_000).saturating_add((self.seconds * 1e9).round() as i128);
+        (sign * months, sign * nanos)
+    }
+}
+
+impl PartialOrd for Duration {
+    // A month has no length of its own: durations are ordered if they are in the same way from
+    // each of the moments given by XML Schema.
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        const MOMENTS: [(i128, i128); 4] = [(1696, 9), (1697, 2), (1903, 3), (1903, 7)];
+
+        let (months, nanos) = self.months_and_nanos();
+        let (other_months, other_nanos) = other.months_and_nanos();
+
+        let mut orders = MOMENTS.iter().map(|&(year, month)| {
+            let end = |months| first_of_month(year * 12 + month - 1 + months);
+            let days = end(months) - end(other_months);
+            nanos.saturating_add(days.saturating_mul(86_400_000_000_000)).cmp(&other_nanos)
+        });
+        let order = orders.next()?;
+        orders.all(|o| o == order).then_some(order)
+    }
+}
+
+// Number of the day a month (counted from January of the year 0) begins with.
+fn first_of_month(month: i128) -> i128 {
+    // Years begin in March here, for leap days to be at their end.
+    let (year, month) = ((month - 2).div_euclid(12), (month - 2).rem_euclid(12));
+    year * 365 + year.div_euclid(4) - year.div_euclid(100)
+        + year.div_euclid(400)
+        + (153 * month + 2) / 5
 }
 
 impl FromStr for Duration {
-- 
2.43.0


From db4b9d3bead52f34905e80b486c540ead169be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:35 +0000
Subject: [PATCH 40/49] fix: spaces around the value of a facet, or a length
 beyond u32, do not panic

---
 xsd-parser/src/generator/validator.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/xsd-parser/src/generator/validator.rs b/xsd-parser/src/generator/validator.rs
index 3186aad..8ecc8a1 100644
--- a/xsd-parser/src/generator/validator.rs
+++ b/xsd-parser/src/generator/validator.rs
@@ -1,4 +1,7 @@
-use std::borrow::Cow;
+use std::{
+    borrow::Cow,
+    num::{IntErrorKind, ParseIntError},
+};
 
 use crate::parser::xsd_elements::FacetType;
 
@@ -33,23 +36,31 @@ pub fn gen_facet_validation(facet: &FacetType, name: &str, typename: &str) -> Co
         FacetType::FractionDigits(_) => "".into(),
         FacetType::Length(value) => gen_length_validation(value.as_str(), name).into(),
         FacetType::MaxExclusive(value) => {
-            gen_max_exclusive_validation(value.as_str(), name, typename).into()
+            gen_max_exclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MaxInclusive(value) => {
-            gen_max_inclusive_validation(value.as_str(), name, typename).into()
+            gen_max_inclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MaxLength(value) => gen_max_length_validation(value.as_str(), name).into(),
         FacetType::MinExclusive(value) => {
-            gen_min_exclusive_validation(value.as_str(), name, typename).into()
+            gen_min_exclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MinInclusive(value) => {
-            gen_min_inclusive_validation(value.as_str(), name, typename).into()
+            gen_min_inclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MinLength(value) => gen_min_length_validation(value.as_str(), name).into(),
         _ => "".into(), // TODO: All Facet Types
     }
 }
 
+// Any nonNegativeInteger is a length, however large.
+fn length_value(value: &str) -> usize {
+    match value.trim().parse() {
+        Err(e) if *ParseIntError::kind(&e) == IntErrorKind::PosOverflow => usize::MAX,
+        value => value.unwrap(),
+    }
+}
+
 fn gen_max_exclusive_validation(value: &str, name: &str, typename: &str) -> String {
     format!(
         r#"
@@ -75,7 +86,7 @@ fn gen_max_inclusive_validation(value: &str, name: &str, typename: &str) -> Stri
 }
 
 fn gen_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value = length_value(value);
     format!(
         r#"
         if self.{name}.len() != {value} {{
@@ -87,7 +98,7 @@ fn gen_length_validation(value: &str, name: &str) -> String {
 }
 
 fn gen_max_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value = length_value(value);
     format!(
         r#"
         if self.{name}.len() > {value} {{
@@ -123,7 +134,7 @@ fn gen_min_inclusive_validation(value: &str, name: &str, typename: &str) -> Stri
 }
 
 fn gen_min_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value = length_value(value);
     if value == 0 {
         return "".into();
     }
-- 
2.43.0


From f29d0359c18d05d812e05adcd786ebda458be767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:34 +0000
Subject: [PATCH 41/49] fix: booleans of simple types, lists and unions may be
 1 and 0

---
 xsd-macro-utils/src/tuple.rs | 31 +++++++++++++++++++++++++------
 xsd-macro-utils/src/union.rs |  9 ++++++++-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 0d2dc2f..816bcdc 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -23,14 +23,18 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let convert = match extract_field_type(ast) {
         Type::String(_) => quote! { s.to_string() },
         Type::Struct(ty) | Type::Simple(ty) => {
-            quote! { <#ty as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string())? }
+            let value = parse(ty);
+            quote! { #value.map_err(|e| e.to_string())? }
         }
         Type::Vec(subtype) => match Type::from_path(subtype) {
-            Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
-                s.split_whitespace()
-                    .filter_map(|s| <#subtype as ::std::str::FromStr>::from_str(s).ok())
-                    .collect()
-            },
+            Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => {
+                let value = parse(subtype);
+                quote! {
+                    s.split_whitespace()
+                        .filter_map(|s| #value.ok())
+                        .collect()
+                }
+            }
             _ => return Err(syn::Error::new(subtype.span(), "Not implemented for this subtype")),
         },
     };
@@ -48,6 +52,21 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     })
 }
 
+/// Code which reads a value of the type from `s`. Booleans of XML Schema may be `1` and `0` too.
+pub fn parse(ty: &syn::Path) -> TokenStream {
+    if ty.is_ident("bool") {
+        quote! {
+            <#ty as ::std::str::FromStr>::from_str(match s {
+                "1" => "true",
+                "0" => "false",
+                s => s,
+            })
+        }
+    } else {
+        quote! { <#ty as ::std::str::FromStr>::from_str(s) }
+    }
+}
+
 fn display(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let write = match extract_field_type(ast) {
         Type::String(_) | Type::Simple(_) | Type::Struct(_) => quote! {
diff --git a/xsd-macro-utils/src/union.rs b/xsd-macro-utils/src/union.rs
index c809193..ee6a69f 100644
--- a/xsd-macro-utils/src/union.rs
+++ b/xsd-macro-utils/src/union.rs
@@ -1,6 +1,8 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
+use crate::tuple;
+
 pub fn serde(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let struct_name = &ast.ident;
     let struct_name_literal = &ast.ident.to_string();
@@ -52,8 +54,13 @@ pub fn serde(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let de_variants = variants
         .iter()
         .map(|(ident, subtype)| {
+            let value = match subtype {
+                syn::Type::Path(ty) => tuple::parse(&ty.path),
+                _ => quote! { s.parse::<#subtype>() },
+            };
+
             quote! {
-                if let Ok(de) = s.parse::<#subtype>() {
+                if let Ok(de) = #value {
                     return Ok(#struct_name::#ident(de))
                 }
             }
-- 
2.43.0


From 4ce07ee47aa4d9f8be788feb918287181ce78761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:37 +0000
Subject: [PATCH 42/49] fix: modules of types with letters beyond ASCII are
 referred to by their name

---
 xsd-parser/src/generator/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 167de3c..0164c30 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -47,7 +47,7 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
 
 /// The module for a namespace prefix: XML names may have characters identifiers may not have.
 fn module_name(prefix: &str) -> String {
-    sanitize(prefix.replace(|c: char| !(c.is_ascii_alphanumeric() || c == '_'), "_"))
+    sanitize(prefix.replace(|c: char| !(c.is_alphanumeric() || c == '_'), "_"))
 }
 
 pub fn default_modify_type(type_name: &str, modifiers: &[TypeModifier]) -> Cow<'static, str> {
-- 
2.43.0


From e8a155e8f8d3c3f1a4c8e663330d1f2dca84a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:04 +0000
Subject: [PATCH 43/49] fix: an anonymous type may extend the type it is in

---
 xsd-parser/src/parser/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index f797d31..234c289 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -44,7 +44,10 @@ impl Struct {
             .map(|f| f.type_name.split(':').last().unwrap().to_string())
             .collect::<Vec<String>>();
 
-        self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
+        // The fields may be in use: a nested type may extend the type it is in.
+        if !bases.is_empty() {
+            self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
+        }
 
         for base in bases.iter().filter_map(|key| types.get(key)) {
             // The base may be declared later and have a base of its own.
-- 
2.43.0


From 9e9ec6f775c5347d0715be00f72b81335ec4e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:13 +0000
Subject: [PATCH 44/49] fix: documentation of elements and attributes with
 anonymous types is kept

---
 xsd-parser/src/parser/attribute.rs |  7 ++++++-
 xsd-parser/src/parser/element.rs   |  1 +
 xsd-parser/src/parser/types.rs     | 22 ++++++++++++++++++++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/attribute.rs b/xsd-parser/src/parser/attribute.rs
index 9d7ef18..30d849c 100644
--- a/xsd-parser/src/parser/attribute.rs
+++ b/xsd-parser/src/parser/attribute.rs
@@ -62,10 +62,15 @@ fn parse_global_attribute(node: &Node) -> RsEntity {
     {
         let mut entity = parse_node(&content, node);
         entity.set_name(name);
+        entity.add_comment(get_documentation(node));
         return entity;
     }
 
-    RsEntity::Struct(Struct { name: name.to_string(), ..Default::default() })
+    RsEntity::Struct(Struct {
+        name: name.to_string(),
+        comment: get_documentation(node),
+        ..Default::default()
+    })
 }
 
 #[cfg(test)]
diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 89ad8e4..e17cb96 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -128,6 +128,7 @@ fn parse_global_element(node: &Node) -> RsEntity {
     if let Some(content) = content_node {
         let mut content_entity = parse_node(&content, node);
         content_entity.set_name(name);
+        content_entity.add_comment(get_documentation(node));
         return content_entity;
     }
 
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 234c289..be52cad 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -255,6 +255,28 @@ impl RsEntity {
         }
     }
 
+    // Documentation of what is around the definition (the element of an anonymous type,
+    // the type of derived content) comes before its own.
+    pub fn add_comment(&mut self, comment: Option<String>) {
+        use RsEntity::*;
+        let own = match self {
+            Struct(s) => &mut s.comment,
+            TupleStruct(tp) => &mut tp.comment,
+            Enum(e) => match e.subtypes.first_mut() {
+                Some(Struct(st)) if e.source == EnumSource::Choice => &mut st.comment,
+                _ => &mut e.comment,
+            },
+            EnumCase(ec) => &mut ec.comment,
+            Alias(al) => &mut al.comment,
+            StructField(sf) => &mut sf.comment,
+            Import(im) => &mut im.comment,
+        };
+        *own = match (comment, own.take()) {
+            (Some(outer), Some(inner)) => Some(format!("{}\n{}", outer, inner)),
+            (outer, inner) => outer.or(inner),
+        };
+    }
+
     pub fn set_comment(&mut self, comment: Option<String>) {
         use RsEntity::*;
         match self {
-- 
2.43.0


From cc93cec9b8af63661a7523bf7d4c0e39379caaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:13 +0000
Subject: [PATCH 45/49] fix: documentation of types with derived content is
 kept

---
 xsd-parser/src/parser/complex_type.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index 2dbcd23..8fe693d 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -51,6 +51,12 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
     let content_node = content.unwrap();
 
     let mut res = parse_node(&content_node, node);
+    if matches!(
+        content_node.xsd_type(),
+        ElementType::ComplexContent | ElementType::SimpleContent
+    ) {
+        res.add_comment(get_documentation(node));
+    }
     match &mut res {
         RsEntity::Struct(st) => {
             st.fields.borrow_mut().append(&mut fields);
-- 
2.43.0


From 2bc65b47557024c16bdb19fcf504accb0dfb952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 46/49] fix: elements of other namespaces are not taken for
 WSDL ones

---
 wsdl-parser/src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/parser/mod.rs b/wsdl-parser/src/parser/mod.rs
index 8826913..4ebb79c 100644
--- a/wsdl-parser/src/parser/mod.rs
+++ b/wsdl-parser/src/parser/mod.rs
@@ -10,6 +10,8 @@ pub mod port_type;
 #[allow(dead_code)]
 pub mod types;
 
+const WSDL_NAMESPACE: &str = "http://schemas.xmlsoap.org/wsdl/";
+
 pub trait WsdlElement {
     fn wsdl_type(&self) -> ElementType;
 }
@@ -34,7 +36,10 @@ pub enum ElementType {
 impl<'a> WsdlElement for roxmltree::Node<'a, '_> {
     fn wsdl_type(&self) -> ElementType {
         use ElementType::*;
-        // TODO: check for wsdl prefix
+        // Extensibility elements may have the names of WSDL elements, in namespaces of their own.
+        if self.tag_name().namespace().map_or(false, |ns| ns != WSDL_NAMESPACE) {
+            return UnknownElement(self.tag_name().name().to_string());
+        }
         match self.tag_name().name() {
             "binding" => Binding,
             "definitions" => Definitions,
-- 
2.43.0


From fd08d08e226582e24b7b931600fb281037fa7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:46 +0000
Subject: [PATCH 47/49] fix: durations are equal when neither is shorter, as
 their order says

---
 xsd-types/src/types/duration.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 8dd1136..59a56bd 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -2,7 +2,7 @@ use std::{cmp::Ordering, fmt, fmt::Write, str::FromStr};
 
 use xsd_macro_utils::UtilsDefaultSerde;
 
-#[derive(Default, Clone, PartialEq, Debug, UtilsDefaultSerde)]
+#[derive(Default, Clone, Debug, UtilsDefaultSerde)]
 pub struct Duration {
     pub is_negative: bool,
 
@@ -53,6 +53,12 @@ impl Duration {
     }
 }
 
+impl PartialEq for Duration {
+    fn eq(&self, other: &Self) -> bool {
+        self.partial_cmp(other) == Some(Ordering::Equal)
+    }
+}
+
 impl PartialOrd for Duration {
     // A month has no length of its own: durations are ordered if they are in the same way from
     // each of the moments given by XML Schema.
-- 
2.43.0


From e8398d591277c61fc9a512deeab0a254da7c2ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:46 +0000
Subject: [PATCH 48/49] fix: the default positiveInteger and negativeInteger
 are values of their types

---
 xsd-types/src/types/negative_integer.rs | 9 ++++++++-
 xsd-types/src/types/positive_integer.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index a501869..ee49def 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -6,7 +6,7 @@ use xsd_macro_utils::UtilsDefaultSerde;
 use crate::types::utils::without_separators;
 
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
 
 impl NegativeInteger {
@@ -15,6 +15,13 @@ impl NegativeInteger {
     }
 }
 
+impl Default for NegativeInteger {
+    // Zero is not a value of this type.
+    fn default() -> Self {
+        Self((-1).to_bigint().unwrap())
+    }
+}
+
 impl ToBigInt for NegativeInteger {
     fn to_bigint(&self) -> Option<BigInt> {
         Some(self.0.clone())
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index c42ea09..a8a5518 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -6,7 +6,7 @@ use xsd_macro_utils::UtilsDefaultSerde;
 use crate::types::utils::without_separators;
 
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
 
 impl PositiveInteger {
@@ -15,6 +15,13 @@ impl PositiveInteger {
     }
 }
 
+impl Default for PositiveInteger {
+    // Zero is not a value of this type.
+    fn default() -> Self {
+        Self(1.to_biguint().unwrap())
+    }
+}
+
 impl ToBigUint for PositiveInteger {
     fn to_biguint(&self) -> Option<BigUint> {
         Some(self.0.clone())
-- 
2.43.0


From 3f395bd9d1e61cb296a33ba1b6f52f2acd4b9ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:35 +0000
Subject: [PATCH 49/49] fix: elements of other namespaces between input, output
 and faults are passed over

---
 wsdl-parser/src/parser/port_type.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/parser/port_type.rs b/wsdl-parser/src/parser/port_type.rs
index dd17c0f..d8dc762 100644
--- a/wsdl-parser/src/parser/port_type.rs
+++ b/wsdl-parser/src/parser/port_type.rs
@@ -117,7 +117,10 @@ pub enum OperationType<'a> {
 
 impl<'a> OperationType<'a> {
     pub fn new(node: &Node<'a, '_>) -> Self {
-        let mut children = node.children().filter(|n| n.is_element());
+        // Extensibility elements may stand anywhere.
+        let mut children = node
+            .children()
+            .filter(|n| n.is_element() && !matches!(n.wsdl_type(), ElementType::UnknownElement(_)));
 
         while let Some(ch) = children.next() {
             match ch.wsdl_type() {
-- 
2.43.0

