From 47e902ac2ce3ffca8878ba378a70d3e610ef0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 01/34] fix: XML names starting with a multi-byte character
 panicked

is_xml_name sliced the string at byte 1.
---
 src/shared/text.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 4eddaed..8321135 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -389,7 +389,9 @@ pub(crate) fn is_xml_name_char(c: char) -> bool {
 ///
 pub(crate) fn is_xml_name(s: impl AsRef<str>) -> bool {
     let s = s.as_ref();
-    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s[1..].chars().all(is_xml_name_char)
+    !s.is_empty()
+        && s.starts_with(is_xml_name_start_char)
+        && s.chars().skip(1).all(is_xml_name_char)
 }
 
 ///
-- 
2.43.0


From d1cf648bbf3850d981863d49ca22fe248981de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 02/34] fix: attribute values with unresolvable references
 panicked

An unknown entity or a character reference without a character stays as literal text.
---
 src/level2/entity_resolver.rs |  6 +++++-
 src/shared/text.rs            | 21 +++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/level2/entity_resolver.rs b/src/level2/entity_resolver.rs
index 3f633d4..9b41b78 100644
--- a/src/level2/entity_resolver.rs
+++ b/src/level2/entity_resolver.rs
@@ -31,7 +31,11 @@ impl EntityResolver for RefNode {
             None => None,
             Some(doc_type) => {
                 let doc_type = as_document_type(&doc_type).unwrap();
-                let name = Name::from_str(entity).unwrap();
+                //
+                // The reference comes with its delimiters, `&name;` or `%name;`.
+                //
+                let entity = entity.trim_start_matches(['&', '%']).trim_end_matches(';');
+                let name = Name::from_str(entity).ok()?;
                 match doc_type.entities().get(&name) {
                     None => None,
                     Some(entity) => entity.node_value(),
diff --git a/src/shared/text.rs b/src/shared/text.rs
index 8321135..e778903 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -84,17 +84,19 @@ pub(crate) fn normalize_attribute_value(
                 // TODO: this does not yet deal with entity references.
                 //
                 let replacement = match resolver.resolve(a_match.as_str()) {
-                    None => panic!("unknown entity reference {}", a_match.as_str()),
+                    None => a_match.as_str().to_string(),
                     Some(replacement) => {
                         normalize_attribute_value(&replacement, resolver, is_cdata)
                     }
                 };
                 (a_match.start(), a_match.end(), replacement)
             } else if let Some(a_match) = capture.name("char") {
-                let replacement = char_from_entity(a_match.as_str());
+                let replacement = char_from_entity(a_match.as_str())
+                    .unwrap_or_else(|| a_match.as_str().to_string());
                 (a_match.start(), a_match.end(), replacement)
             } else if let Some(a_match) = capture.name("char_hex") {
-                let replacement = char_from_entity(a_match.as_str());
+                let replacement = char_from_entity(a_match.as_str())
+                    .unwrap_or_else(|| a_match.as_str().to_string());
                 (a_match.start(), a_match.end(), replacement)
             } else if let Some(a_match) = capture.name("ws") {
                 (a_match.start(), a_match.end(), "\u{20}".to_string())
@@ -216,19 +218,22 @@ pub(crate) fn to_entity_hex(c: char) -> String {
     )
 }
 
-fn char_from_entity(entity: impl AsRef<str>) -> String {
+//
+// Returns `None` if the reference does not identify a character.
+//
+fn char_from_entity(entity: impl AsRef<str>) -> Option<String> {
     let entity = entity.as_ref();
     assert!(entity.starts_with("&#"));
     assert!(entity.ends_with(';'));
     let code_point = if &entity[2..3] == "x" {
         let code_point = &entity[3..entity.len() - 1];
-        u32::from_str_radix(code_point, 16).unwrap()
+        u32::from_str_radix(code_point, 16).ok()?
     } else {
         let code_point = &entity[2..entity.len() - 1];
-        code_point.parse::<u32>().unwrap()
+        code_point.parse::<u32>().ok()?
     };
-    let character = char::try_from(code_point).unwrap();
-    character.to_string()
+    let character = char::try_from(code_point).ok()?;
+    Some(character.to_string())
 }
 
 ///
-- 
2.43.0


From cfa3e9ee4369044f68e5edcfd2c49739ece0a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 03/34] fix: Name::set_prefix accepted anything as a prefix

---
 src/shared/name.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/shared/name.rs b/src/shared/name.rs
index 3d69425..fa74e29 100644
--- a/src/shared/name.rs
+++ b/src/shared/name.rs
@@ -375,7 +375,21 @@ impl Name {
     /// Set this name's prefix.
     ///
     pub fn set_prefix(&mut self, new_prefix: Option<&str>) -> Result<()> {
-        self.prefix = new_prefix.map(String::from);
+        let new_prefix = match new_prefix {
+            None => None,
+            Some(new_prefix) => {
+                if new_prefix.contains(XML_NS_SEPARATOR) {
+                    warn!("a prefix may not be a qualified name");
+                    return Err(Error::Syntax);
+                }
+                Some(Self::check_part(new_prefix)?)
+            }
+        };
+        if let Some(namespace_uri) = &self.namespace_uri {
+            let _safe_to_ignore =
+                Self::check_namespace_uri(namespace_uri, &new_prefix, &self.local_name)?;
+        }
+        self.prefix = new_prefix;
         Ok(())
     }
 }
-- 
2.43.0


From bfcd63afaab606db16db141cdd7a6d351e72c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 04/34] fix: character data offsets and counts panicked or
 overflowed

An offset equal to the length is valid, a range that does not fall on characters is an index error.
---
 src/level2/trait_impls.rs | 50 +++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 23d0927..feff86d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -11,6 +11,7 @@ use crate::shared::{display, text};
 use std::collections::hash_map::RandomState;
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::ops::Range;
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -142,7 +143,7 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(String::new());
         }
         let ref_self = self.borrow();
@@ -151,16 +152,7 @@ impl CharacterData for RefNode {
                 warn!("{}", MSG_INDEX_ERROR);
                 Err(Error::IndexSize)
             }
-            Some(data) => {
-                if offset >= data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else if offset + count >= data.len() {
-                    Ok(data[offset..].to_string())
-                } else {
-                    Ok(data[offset..offset + count].to_string())
-                }
-            }
+            Some(data) => Ok(data[data_range(data, offset, count)?].to_string()),
         }
     }
 
@@ -184,7 +176,7 @@ impl CharacterData for RefNode {
     }
 
     fn delete_data(&mut self, offset: usize, count: usize) -> Result<()> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(());
         }
         const NOTHING: &str = "";
@@ -195,7 +187,7 @@ impl CharacterData for RefNode {
         let mut mut_self = self.borrow_mut();
         match &mut_self.i_value {
             None => {
-                if offset + count != 0 {
+                if offset != 0 || count != 0 {
                     warn!("{}", MSG_INDEX_ERROR);
                     Err(Error::IndexSize)
                 } else {
@@ -204,19 +196,11 @@ impl CharacterData for RefNode {
                 }
             }
             Some(old_data) => {
-                if offset >= old_data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else {
-                    let mut new_data = old_data.clone();
-                    if offset + count >= old_data.len() {
-                        new_data.replace_range(offset.., replace_data);
-                    } else {
-                        new_data.replace_range(offset..offset + count, replace_data);
-                    }
-                    mut_self.i_value = Some(new_data);
-                    Ok(())
-                }
+                let range = data_range(old_data, offset, count)?;
+                let mut new_data = old_data.clone();
+                new_data.replace_range(range, replace_data);
+                mut_self.i_value = Some(new_data);
+                Ok(())
             }
         }
     }
@@ -1205,6 +1189,20 @@ fn namespaced_name_match(
     }
 }
 
+//
+// CHECK: Raise `Error::IndexSize` if `offset` is beyond the end of `data`, or if the range does not
+// start and end on a character. The range ends with the data if `count` is larger than what is left.
+//
+fn data_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
+    let range = offset..offset.saturating_add(count).min(data.len());
+    if data.get(range.clone()).is_some() {
+        Ok(range)
+    } else {
+        warn!("{}", MSG_INDEX_ERROR);
+        Err(Error::IndexSize)
+    }
+}
+
 //
 // CHECK: Raise `Error::WrongDocument` if `newChild` was created from a different
 // document than the one that created this node.
-- 
2.43.0


From a38bb277794ef24a5c279509330086a42b80bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 05/34] fix: Text::split measured the escaped instead of the
 actual data

---
 src/level2/trait_impls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index feff86d..a546289 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1108,8 +1108,11 @@ impl ProcessingInstruction for RefNode {}
 impl Text for RefNode {
     fn split(&mut self, offset: usize) -> Result<RefNode> {
         let new_data = {
+            //
+            // Do not use the CharacterData::length function as this is the length of the escaped data.
+            //
+            let length = self.borrow().i_value.as_ref().map_or(0, String::len);
             let text = as_character_data_mut(self)?;
-            let length = text.length();
             if offset >= length {
                 String::new()
             } else {
-- 
2.43.0


From 0a071e47fd7468719d7326bd17a89a11ba090912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 06/34] fix: Node::normalize only looked at the immediate
 children

---
 src/level2/trait_impls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index a546289..df2980e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1054,7 +1054,10 @@ impl Node for RefNode {
     }
 
     fn normalize(&mut self) {
-        for child_node in self.child_nodes() {
+        for attribute_node in self.attributes().values() {
+            attribute_node.clone().normalize();
+        }
+        for mut child_node in self.child_nodes() {
             if is_text(&child_node) {
                 if CharacterData::length(&child_node) == 0 {
                     if self.remove_child(child_node).is_err() {
@@ -1074,6 +1077,8 @@ impl Node for RefNode {
                         }
                     }
                 }
+            } else {
+                child_node.normalize();
             }
         }
     }
-- 
2.43.0


From e925de42b3b2db41880ec4023709299b654a9419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 07/34] fix: a node could be inserted into itself or its own
 descendants

---
 src/level2/trait_impls.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index df2980e..e72579b 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -470,6 +470,10 @@ impl Element for RefNode {
     fn set_attribute_node(&mut self, new_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
+            if contains_node(&new_attribute, self) {
+                warn!("cannot add an attribute to one of its descendants");
+                return Err(Error::HierarchyRequest);
+            }
 
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
@@ -917,6 +921,11 @@ impl Node for RefNode {
             return Err(Error::HierarchyRequest);
         }
 
+        if contains_node(&new_child, self) {
+            warn!("cannot add a node to itself, or to one of its descendants");
+            return Err(Error::HierarchyRequest);
+        }
+
         //
         // Special case for Document only.
         //
@@ -1249,6 +1258,29 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     }
     Ok(())
 }
+
+//
+// Returns `true` if `node` is the same node as `ancestor` or is anywhere below it; this includes
+// the content of the attributes of an element.
+//
+fn contains_node(ancestor: &RefNode, node: &RefNode) -> bool {
+    if ancestor != node && !ancestor.has_child_nodes() && !ancestor.has_attributes() {
+        return false;
+    }
+    let mut current = Some(node.clone());
+    while let Some(current_node) = current {
+        if &current_node == ancestor {
+            return true;
+        }
+        current = if is_attribute(&current_node) {
+            current_node.owner_element()
+        } else {
+            current_node.parent_node()
+        };
+    }
+    false
+}
+
 //
 // From [https://www.w3.org/TR/DOM-Level-2-Core/core.html#ID-1590626202]
 //
-- 
2.43.0


From 06cfa1ea51b453ef40396475571480e049fd6403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:31 +0000
Subject: [PATCH 08/34] fix: moving a child forward within its parent put it
 one place too far

---
 src/level2/trait_impls.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index e72579b..8705a1e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -959,6 +959,17 @@ impl Node for RefNode {
             },
         };
 
+        //
+        // If `new_child` is moved from before `ref_child` it no longer counts once it is removed.
+        //
+        let insert_position = insert_position.map(|insert_position| {
+            if self.borrow().i_child_nodes[..insert_position].contains(&new_child) {
+                insert_position - 1
+            } else {
+                insert_position
+            }
+        });
+
         check_same_document(self, &new_child)?;
 
         //
-- 
2.43.0


From c289ff5f4a34a19efdbf6907976f3959bc81d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:43 +0000
Subject: [PATCH 09/34] fix: the document element was whatever child came first

Also moving the document element within its document is not a second element.
---
 src/level2/trait_impls.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 8705a1e..330a189 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -218,7 +218,10 @@ impl Document for RefNode {
     }
 
     fn document_element(&self) -> Option<RefNode> {
-        self.child_nodes().first().cloned()
+        self.child_nodes()
+            .iter()
+            .find(|child_node| is_element(child_node))
+            .cloned()
     }
 
     fn implementation(&self) -> &dyn DOMImplementation<NodeRef = RefNode> {
@@ -934,7 +937,7 @@ impl Node for RefNode {
             && self
                 .child_nodes()
                 .iter()
-                .any(|n| n.node_type() == NodeType::Element)
+                .any(|n| n.node_type() == NodeType::Element && n != &new_child)
         {
             warn!("cannot add more than one element to a document");
             return Error::HierarchyRequest.into();
-- 
2.43.0


From 9ce43eb18915f66fb49e3d816c161849f3936174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 10/34] fix: a failed Node::replace_child removed the old child

Also replacing a child by itself is not an error.
---
 src/level2/trait_impls.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 330a189..3cb4857 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1027,9 +1027,18 @@ impl Node for RefNode {
             ref_self.i_child_nodes.contains(&old_child.clone())
         };
         if exists {
+            if new_child == old_child {
+                return Ok(old_child);
+            }
             let next_node = old_child.next_sibling();
             let removed = self.remove_child(old_child)?;
-            let _safe_to_ignore = self.insert_before(new_child, next_node)?;
+            if let Err(error) = self.insert_before(new_child, next_node.clone()) {
+                //
+                // Put the old child back where it was.
+                //
+                let _safe_to_ignore = self.insert_before(removed, next_node)?;
+                return Err(error);
+            }
             Ok(removed)
         } else {
             warn!("replace_child: old_child not found in `child_nodes`");
-- 
2.43.0


From 1a6c5e095d4ffcfbe5ef234ee3c7a438038ae99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:25 +0000
Subject: [PATCH 11/34] fix: nodes whose document or parent was dropped
 panicked

---
 src/level2/ext/namespaced.rs | 12 ++++++------
 src/level2/trait_impls.rs    | 25 +++++++++++++++----------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index 48b1fef..6d40779 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -5,9 +5,7 @@ This module provides support types for the [`Namespaced`](trait.Namespaced.html)
 use crate::level2::ext::traits::Namespaced;
 use crate::level2::node_impl::{Extension, RefNode};
 use crate::level2::traits::{Node, NodeType};
-use crate::shared::error::{
-    Error, Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE, MSG_WEAK_REF,
-};
+use crate::shared::error::{Error, Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE};
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -146,7 +144,7 @@ impl Namespaced for RefNode {
                     None => None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
+                        let parent_node = parent.upgrade()?;
                         parent_node.resolve_namespace(prefix)
                     }
                 }
@@ -194,8 +192,10 @@ impl Namespaced for RefNode {
                     None => NamespacePrefix::None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_prefix(namespace_uri)
+                        match parent.upgrade() {
+                            None => NamespacePrefix::None,
+                            Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
+                        }
                     }
                 }
             }
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 3cb4857..d057316 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -104,9 +104,12 @@ impl Attribute for RefNode {
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
         self.unset_value()?;
-        let document_node = self.owner_document().unwrap();
-        let document = as_document(&document_node).unwrap();
-        let _safe_to_ignore = self.append_child(document.create_text_node(value))?;
+        let text_node = {
+            let ref_self = self.borrow();
+            let document = ref_self.i_owner_document.as_ref().unwrap();
+            NodeImpl::new_text(document.clone(), value)
+        };
+        let _safe_to_ignore = self.append_child(RefNode::new(text_node))?;
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
@@ -1253,10 +1256,11 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
             let child_document = &new_child.borrow().i_owner_document;
             if !match child_document {
                 None => true,
-                Some(child_document) => {
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_node == &child_document
-                }
+                Some(child_document) => self_node
+                    .clone()
+                    .downgrade()
+                    .as_inner()
+                    .ptr_eq(child_document.as_inner()),
             } {
                 warn!("Error::WrongDocument: child could not be added to the document node.");
                 return Err(Error::WrongDocument);
@@ -1268,10 +1272,11 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
                 (None, None) => true,
                 (Some(_), None) => true,
                 (None, Some(_)) => false,
+                //
+                // Nodes may outlive their document, so do not attempt to upgrade these.
+                //
                 (Some(self_document), Some(child_document)) => {
-                    let self_document = self_document.clone().upgrade().unwrap();
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_document == child_document
+                    self_document.as_inner().ptr_eq(child_document.as_inner())
                 }
             } {
                 warn!("Error::WrongDocument: child could not be added to the current node.");
-- 
2.43.0


From 9b88832fc24f0794ba04d3ce21a93c2c1728c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 12/34] fix: the text of an attribute did not have the
 attribute as its parent

---
 src/level2/node_impl.rs   | 15 +++++++++++++++
 src/level2/trait_impls.rs | 13 ++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 1346e7a..06039b0 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -100,6 +100,21 @@ impl Debug for &'static dyn DOMImplementation<NodeRef = RefNode> {
 
 // ------------------------------------------------------------------------------------------------
 
+impl RefNode {
+    ///
+    /// Construct a new reference to the provided node and make it the parent of its child nodes.
+    ///
+    pub(crate) fn new_parent(node_impl: NodeImpl) -> Self {
+        let new_node = Self::new(node_impl);
+        for child_node in &new_node.borrow().i_child_nodes {
+            child_node.borrow_mut().i_parent_node = Some(new_node.clone().downgrade());
+        }
+        new_node
+    }
+}
+
+// ------------------------------------------------------------------------------------------------
+
 impl NodeImpl {
     pub(crate) fn new_element(owner_document: WeakRefNode, name: Name) -> Self {
         Self {
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index d057316..08335d2 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -113,8 +113,9 @@ impl Attribute for RefNode {
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
-        let mut mut_self = self.borrow_mut();
-        mut_self.i_child_nodes.clear();
+        for child_node in self.child_nodes() {
+            let _safe_to_ignore = self.remove_child(child_node)?;
+        }
         Ok(())
     }
     fn owner_element(&self) -> Option<Self::NodeRef> {
@@ -248,7 +249,7 @@ impl Document for RefNode {
     fn create_attribute_with(&self, name: &str, value: &str) -> Result<RefNode> {
         let name = Name::from_str(name)?;
         let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, Some(value));
-        Ok(RefNode::new(node_impl))
+        Ok(RefNode::new_parent(node_impl))
     }
 
     fn create_attribute_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
@@ -436,7 +437,8 @@ impl Element for RefNode {
             let document = ref_self.i_owner_document.as_ref().unwrap();
             NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(RefNode::new_parent(attr_node))
+            .map(|_| ())
     }
 
     fn remove_attribute(&mut self, name: &str) -> Result<()> {
@@ -624,7 +626,8 @@ impl Element for RefNode {
             let document = ref_self.i_owner_document.as_ref().unwrap();
             NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(RefNode::new_parent(attr_node))
+            .map(|_| ())
     }
 
     fn remove_attribute_ns(&mut self, namespace_uri: &str, local_name: &str) -> Result<()> {
-- 
2.43.0


From db28b8aba04c389f3381bf62be87318f4311f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 13/34] fix: node values of attributes, and of nodes that have
 none

The value of an attribute is its node value, for nodes where it is null setting it has no effect.
---
 src/level2/trait_impls.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 08335d2..782ae06 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -785,19 +785,32 @@ impl Node for RefNode {
     }
 
     fn node_value(&self) -> Option<String> {
+        if is_attribute(self) {
+            return self.value();
+        }
         let ref_self = self.borrow();
         ref_self.i_value.clone()
     }
 
     fn set_node_value(&mut self, value: &str) -> Result<()> {
-        let mut mut_self = self.borrow_mut();
-        mut_self.i_value = Some(value.to_string());
+        if is_attribute(self) {
+            return self.set_value(value);
+        }
+        if is_node_value_allowed(self) {
+            let mut mut_self = self.borrow_mut();
+            mut_self.i_value = Some(value.to_string());
+        }
         Ok(())
     }
 
     fn unset_node_value(&mut self) -> Result<()> {
-        let mut mut_self = self.borrow_mut();
-        mut_self.i_value = None;
+        if is_attribute(self) {
+            return self.unset_value();
+        }
+        if is_node_value_allowed(self) {
+            let mut mut_self = self.borrow_mut();
+            mut_self.i_value = None;
+        }
         Ok(())
     }
 
@@ -1290,6 +1303,13 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// The node value is defined to be `null`, and setting it has no effect, for all other node types.
+//
+fn is_node_value_allowed(node: &RefNode) -> bool {
+    is_character_data(node) || is_processing_instruction(node)
+}
+
 //
 // Returns `true` if `node` is the same node as `ancestor` or is anywhere below it; this includes
 // the content of the attributes of an element.
-- 
2.43.0


From 70efbf7845e6533cdb54bc8a3ab68f8a3dd23528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 14/34] fix: cloned nodes shared attributes with the original
 and had no parent links

---
 src/level2/node_impl.rs   | 16 +++++++++++-----
 src/level2/trait_impls.rs | 31 ++++++++++++++++++-------------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 06039b0..46fd314 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -323,8 +323,8 @@ impl NodeImpl {
     pub(crate) fn clone_node(&self, deep: bool) -> Self {
         let extension = match &self.i_extension {
             Extension::None => Extension::None,
-            Extension::Attribute { i_owner_element } => Extension::Attribute {
-                i_owner_element: i_owner_element.clone(),
+            Extension::Attribute { .. } => Extension::Attribute {
+                i_owner_element: None,
             },
             Extension::Document {
                 i_implementation,
@@ -356,7 +356,10 @@ impl NodeImpl {
                 i_attributes,
                 i_namespaces,
             } => Extension::Element {
-                i_attributes: i_attributes.clone(),
+                i_attributes: i_attributes
+                    .iter()
+                    .map(|(name, node)| (name.clone(), node.clone_node(true).unwrap()))
+                    .collect(),
                 i_namespaces: i_namespaces.clone(),
             },
             entity @ Extension::Entity { .. } => entity.clone(),
@@ -368,10 +371,13 @@ impl NodeImpl {
             i_value: self.i_value.clone(),
             i_parent_node: None,
             i_owner_document: self.i_owner_document.clone(),
-            i_child_nodes: if deep {
+            //
+            // The children of an attribute are its value.
+            //
+            i_child_nodes: if deep || self.i_node_type == NodeType::Attribute {
                 self.i_child_nodes
                     .iter()
-                    .map(|node| node.clone_node(deep).unwrap())
+                    .map(|node| node.clone_node(true).unwrap())
                     .collect()
             } else {
                 vec![]
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 782ae06..5fb6d4a 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -486,17 +486,7 @@ impl Element for RefNode {
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
-            {
-                let mut mut_child = new_attribute.borrow_mut();
-                if let Extension::Attribute {
-                    i_owner_element, ..
-                } = &mut mut_child.i_extension
-                {
-                    *i_owner_element = Some(self.clone().downgrade())
-                } else {
-                    panic!("{}", MSG_INVALID_EXTENSION);
-                }
-            }
+            set_owner_element(&new_attribute, Some(self));
 
             let name: Name = new_attribute.node_name();
             if name.is_namespace_attribute() {
@@ -1100,8 +1090,11 @@ impl Node for RefNode {
 
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
         let ref_self = self.borrow();
-        let new_node = ref_self.clone_node(deep);
-        Some(RefNode::new(new_node))
+        let new_node = RefNode::new_parent(ref_self.clone_node(deep));
+        for attribute_node in new_node.attributes().values() {
+            set_owner_element(attribute_node, Some(&new_node));
+        }
+        Some(new_node)
     }
 
     fn normalize(&mut self) {
@@ -1303,6 +1296,18 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// Set, or unset, the owner element of an attribute.
+//
+fn set_owner_element(attribute: &RefNode, owner_element: Option<&RefNode>) {
+    let mut mut_attribute = attribute.borrow_mut();
+    if let Extension::Attribute { i_owner_element } = &mut mut_attribute.i_extension {
+        *i_owner_element = owner_element.map(|element| element.clone().downgrade());
+    } else {
+        panic!("{}", MSG_INVALID_EXTENSION);
+    }
+}
+
 //
 // The node value is defined to be `null`, and setting it has no effect, for all other node types.
 //
-- 
2.43.0


From 20a163deb8c3d7944847535f42d43abca6d122c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 15/34] fix: element searches included the element and missed
 nested content

The result of Element::get_elements_by_tag_name[_ns] are the descendants, and only those; also below
entity references.
---
 src/level2/trait_impls.rs | 93 +++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 52 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 5fb6d4a..406b864 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -331,25 +331,15 @@ impl Document for RefNode {
     }
 
     fn get_elements_by_tag_name(&self, tag_name: &str) -> Vec<RefNode> {
-        //
-        // Delegate this call to the document element
-        //
-        if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name(&root_element, tag_name)
-        } else {
-            Vec::default()
-        }
+        let mut results = Vec::default();
+        collect_by_tag_name(self, tag_name, &mut results);
+        results
     }
 
     fn get_elements_by_tag_name_ns(&self, namespace_uri: &str, local_name: &str) -> Vec<RefNode> {
-        //
-        // Delegate this call to the document element
-        //
-        if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name_ns(&root_element, namespace_uri, local_name)
-        } else {
-            Vec::default()
-        }
+        let mut results = Vec::default();
+        collect_by_tag_name_ns(self, namespace_uri, local_name, &mut results);
+        results
     }
 }
 
@@ -574,19 +564,7 @@ impl Element for RefNode {
     fn get_elements_by_tag_name(&self, tag_name: &str) -> Vec<RefNode> {
         let mut results = Vec::default();
         if is_element(self) {
-            let tag_name = tag_name.to_string();
-            let ref_self = self.borrow();
-            if tag_name_match(&ref_self.i_name.to_string(), &tag_name) {
-                results.push(self.clone());
-            }
-            for child_node in &ref_self.i_child_nodes {
-                match as_element(child_node) {
-                    Ok(ref_child) => results.extend(ref_child.get_elements_by_tag_name(&tag_name)),
-                    Err(_) => {
-                        warn!("{}", MSG_INVALID_NODE_TYPE);
-                    }
-                }
-            }
+            collect_by_tag_name(self, tag_name, &mut results);
         }
         results
     }
@@ -665,29 +643,7 @@ impl Element for RefNode {
     fn get_elements_by_tag_name_ns(&self, namespace_uri: &str, local_name: &str) -> Vec<RefNode> {
         let mut results = Vec::default();
         if is_element(self) {
-            let namespace_uri = namespace_uri.to_string();
-            let local_name = local_name.to_string();
-            let ref_self = self.borrow();
-            if namespaced_name_match(
-                match ref_self.i_name.namespace_uri() {
-                    None => None,
-                    Some(s) => Some(s.as_str()),
-                },
-                ref_self.i_name.local_name(),
-                &namespace_uri,
-                &local_name,
-            ) {
-                results.push(self.clone());
-            }
-            for child_node in &ref_self.i_child_nodes {
-                match as_element(child_node) {
-                    Ok(ref_child) => results
-                        .extend(ref_child.get_elements_by_tag_name_ns(&namespace_uri, &local_name)),
-                    Err(_) => {
-                        warn!("{}", MSG_INVALID_NODE_TYPE);
-                    }
-                }
-            }
+            collect_by_tag_name_ns(self, namespace_uri, local_name, &mut results);
         }
         results
     }
@@ -1241,6 +1197,39 @@ fn namespaced_name_match(
     }
 }
 
+//
+// Add the matching descendants of `node` in document order, this does not include `node` itself.
+//
+fn collect_by_tag_name(node: &RefNode, tag_name: &str, results: &mut Vec<RefNode>) {
+    for child_node in &node.borrow().i_child_nodes {
+        if is_element(child_node) && tag_name_match(&child_node.tag_name(), tag_name) {
+            results.push(child_node.clone());
+        }
+        collect_by_tag_name(child_node, tag_name, results);
+    }
+}
+
+fn collect_by_tag_name_ns(
+    node: &RefNode,
+    namespace_uri: &str,
+    local_name: &str,
+    results: &mut Vec<RefNode>,
+) {
+    for child_node in &node.borrow().i_child_nodes {
+        if is_element(child_node)
+            && namespaced_name_match(
+                child_node.namespace_uri().as_deref(),
+                &child_node.local_name(),
+                namespace_uri,
+                local_name,
+            )
+        {
+            results.push(child_node.clone());
+        }
+        collect_by_tag_name_ns(child_node, namespace_uri, local_name, results);
+    }
+}
+
 //
 // CHECK: Raise `Error::IndexSize` if `offset` is beyond the end of `data`, or if the range does not
 // start and end on a character. The range ends with the data if `count` is larger than what is left.
-- 
2.43.0


From a33e3846d022a1854c9f74574cdea73aeebf489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 16/34] fix: a document type did not belong to its document

It can not be used for a second document, and no other node can be used as a document type.
---
 src/level2/trait_impls.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 406b864..7433648 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1409,7 +1409,21 @@ pub(crate) fn create_document_with_options(
     doc_type: Option<RefNode>,
     options: ProcessingOptions,
 ) -> Result<RefNode> {
-    let node_impl = NodeImpl::new_document(doc_type, options);
+    //
+    // A document type can only be used once, it belongs to the document it was first given to.
+    //
+    if let Some(doc_type) = &doc_type {
+        if !is_document_type(doc_type) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
+        if doc_type.borrow().i_owner_document.is_some() {
+            warn!("Error::WrongDocument: document type already belongs to a document.");
+            return Err(Error::WrongDocument);
+        }
+    }
+
+    let node_impl = NodeImpl::new_document(doc_type.clone(), options);
     let mut document_node = RefNode::new(node_impl);
 
     //
@@ -1435,5 +1449,9 @@ pub(crate) fn create_document_with_options(
         let _safe_to_ignore = document.append_child(element_node)?;
     }
 
+    if let Some(doc_type) = doc_type {
+        doc_type.borrow_mut().i_owner_document = Some(document_node.clone().downgrade());
+    }
+
     Ok(document_node)
 }
-- 
2.43.0


From 6f641e74cad9ae832ba907b8e5298a8c94a47f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 17/34] fix: an attribute could be owned by several elements,
 or after its removal

Adding an attribute another element owns is an error, as is removing an attribute that the element
does not have; a removed attribute has no owner.
---
 src/level2/trait_impls.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 7433648..dcb8284 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -473,6 +473,13 @@ impl Element for RefNode {
                 return Err(Error::HierarchyRequest);
             }
 
+            if let Some(owner_element) = new_attribute.owner_element() {
+                if &owner_element != self {
+                    warn!("set_attribute_node: attribute is owned by another element");
+                    return Err(Error::InUseAttribute);
+                }
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -542,12 +549,15 @@ impl Element for RefNode {
 
     fn remove_attribute_node(&mut self, old_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) {
+            let old_name = old_attribute.node_name();
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore = i_attributes.remove(&old_attribute.node_name());
-                let mut_old = old_attribute.clone();
-                let mut mut_old = mut_old.borrow_mut();
-                mut_old.i_parent_node = None;
+                if i_attributes.get(&old_name) != Some(&old_attribute) {
+                    warn!("remove_attribute_node: attribute not found in `attributes`");
+                    return Err(Error::NotFound);
+                }
+                let _safe_to_ignore = i_attributes.remove(&old_name);
+                set_owner_element(&old_attribute, None);
                 // TODO: remove from Element::namespaces
                 // TODO: remove from Document::id_map
                 Ok(old_attribute)
-- 
2.43.0


From 04d44ba0a6bcd445694ab6451c0eddb7a1482bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 18/34] fix: an element could have several attributes with the
 same name

Uniqueness is by qualified name, and by namespace URI and local name; Element::set_attribute changes
an existing attribute, and Element::has_attribute_ns agrees with the other attribute functions.
---
 src/level2/trait_impls.rs | 51 +++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index dcb8284..6040fd5 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -421,6 +421,9 @@ impl Element for RefNode {
     }
 
     fn set_attribute(&mut self, name: &str, value: &str) -> Result<()> {
+        if let Some(mut attribute_node) = self.get_attribute_node(name) {
+            return as_attribute_mut(&mut attribute_node)?.set_value(value);
+        }
         let attr_name = Name::from_str(name)?;
         let attr_node = {
             let ref_self = &self.borrow_mut();
@@ -480,6 +483,19 @@ impl Element for RefNode {
                 }
             }
 
+            //
+            // Remove any attribute that has the same name, either the same qualified name or the same
+            // namespace URI and local name, as the new one replaces these.
+            //
+            let new_name = new_attribute.node_name();
+            for attribute in self.attributes().values() {
+                if attribute != &new_attribute
+                    && is_same_attribute(&attribute.node_name(), &new_name)
+                {
+                    let _safe_to_ignore = self.remove_attribute_node(attribute.clone())?;
+                }
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -684,29 +700,8 @@ impl Element for RefNode {
     }
 
     fn has_attribute_ns(&self, namespace_uri: &str, local_name: &str) -> bool {
-        if is_element(self) {
-            match Name::new_ns(namespace_uri, local_name) {
-                Ok(name) => {
-                    let ref_self = self.borrow();
-                    if let Extension::Element { i_attributes, .. } = &ref_self.i_extension {
-                        i_attributes.keys().any(|n| {
-                            n.namespace_uri() == name.namespace_uri()
-                                && n.local_name() == name.local_name()
-                        })
-                    } else {
-                        warn!("{}", MSG_INVALID_EXTENSION);
-                        false
-                    }
-                }
-                Err(_) => {
-                    warn!("{}: '{}'", MSG_INVALID_NAME, local_name);
-                    false
-                }
-            }
-        } else {
-            warn!("{}", MSG_INVALID_NODE_TYPE);
-            false
-        }
+        self.get_attribute_node_ns(namespace_uri, local_name)
+            .is_some()
     }
 }
 
@@ -1295,6 +1290,16 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// Returns `true` if an element can not have two attributes with these names.
+//
+fn is_same_attribute(name: &Name, other: &Name) -> bool {
+    name.to_string() == other.to_string()
+        || (name.namespace_uri().is_some()
+            && name.namespace_uri() == other.namespace_uri()
+            && name.local_name() == other.local_name())
+}
+
 //
 // Set, or unset, the owner element of an attribute.
 //
-- 
2.43.0


From 48763e5419fb2c88c788070fe9fdb47f195eeac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 19/34] fix: document ID map kept stale entries and was changed
 by failed calls

Duplicates are refused before anything is changed, setting the same ID again is not a duplicate, an
ID is found while the element has it, values set on the attribute node are tracked, and ID attributes
without a value or without a document do not panic.
---
 src/level2/trait_impls.rs | 114 ++++++++++++++++++++++++++------------
 1 file changed, 79 insertions(+), 35 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 6040fd5..8afa209 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -103,6 +103,11 @@ impl Attribute for RefNode {
         }
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
+        let owner_element = self.owner_element();
+        if let Some(owner_element) = &owner_element {
+            let value = text::escape(text::normalize_attribute_value(value, self, false));
+            check_id_value(owner_element, self, Some(value))?;
+        }
         self.unset_value()?;
         let text_node = {
             let ref_self = self.borrow();
@@ -110,6 +115,9 @@ impl Attribute for RefNode {
             NodeImpl::new_text(document.clone(), value)
         };
         let _safe_to_ignore = self.append_child(RefNode::new(text_node))?;
+        if let Some(owner_element) = &owner_element {
+            add_to_id_map(owner_element, self);
+        }
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
@@ -313,7 +321,12 @@ impl Document for RefNode {
 
     fn get_element_by_id(&self, id: &str) -> Option<RefNode> {
         let ref_self = self.borrow();
-        if let Extension::Document { i_id_map, .. } = &ref_self.i_extension {
+        if let Extension::Document {
+            i_id_map,
+            i_options,
+            ..
+        } = &ref_self.i_extension
+        {
             match i_id_map.get(&id.to_string()) {
                 None => None,
                 Some(weak_ref) => match weak_ref.clone().upgrade() {
@@ -321,7 +334,19 @@ impl Document for RefNode {
                         warn!("{}", MSG_WEAK_REF);
                         None
                     }
-                    Some(ref_element) => Some(ref_element),
+                    //
+                    // The attribute may have been removed, or changed, since it was mapped.
+                    //
+                    Some(ref_element) => ref_element
+                        .attributes()
+                        .values()
+                        .any(|attribute| {
+                            attribute
+                                .node_name()
+                                .is_id_attribute(i_options.has_assume_ids())
+                                && attribute.value().as_deref() == Some(id)
+                        })
+                        .then_some(ref_element),
                 },
             }
         } else {
@@ -483,6 +508,8 @@ impl Element for RefNode {
                 }
             }
 
+            check_id_value(self, &new_attribute, new_attribute.value())?;
+
             //
             // Remove any attribute that has the same name, either the same qualified name or the same
             // namespace URI and local name, as the new one replaces these.
@@ -520,38 +547,8 @@ impl Element for RefNode {
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
                 let _safe_to_ignore =
                     i_attributes.insert(new_attribute.node_name(), new_attribute.clone());
-                {
-                    //
-                    // Add to the owning document's id_map hash
-                    //
-                    let attribute = as_attribute(&new_attribute).unwrap();
-                    let document = attribute.owner_document().unwrap();
-                    let mut mut_document = document.borrow_mut();
-                    let lax =
-                        if let Extension::Document { i_options, .. } = &mut_document.i_extension {
-                            i_options.has_assume_ids()
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                            false
-                        };
-                    if name.is_id_attribute(lax) {
-                        //
-                        // Update the document ID mapping
-                        //
-                        if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension
-                        {
-                            let id_value = attribute.value().unwrap();
-                            if i_id_map.contains_key(&id_value) {
-                                warn!("{}", MSG_DUPLICATE_ID);
-                                return Err(Error::Syntax);
-                            }
-                            let _safe_to_ignore =
-                                i_id_map.insert(id_value, self.clone().downgrade());
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                        }
-                    }
-                }
+                drop(mut_self);
+                add_to_id_map(self, &new_attribute);
                 Ok(new_attribute)
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
@@ -575,7 +572,6 @@ impl Element for RefNode {
                 let _safe_to_ignore = i_attributes.remove(&old_name);
                 set_owner_element(&old_attribute, None);
                 // TODO: remove from Element::namespaces
-                // TODO: remove from Document::id_map
                 Ok(old_attribute)
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
@@ -1290,6 +1286,54 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// Returns the document that has to track the attribute, if it is an ID attribute.
+//
+fn id_attribute_document(attribute: &RefNode) -> Option<RefNode> {
+    let document = attribute.owner_document()?;
+    let is_id_attribute = {
+        let ref_document = document.borrow();
+        if let Extension::Document { i_options, .. } = &ref_document.i_extension {
+            attribute
+                .node_name()
+                .is_id_attribute(i_options.has_assume_ids())
+        } else {
+            warn!("{}", MSG_INVALID_EXTENSION);
+            false
+        }
+    };
+    is_id_attribute.then_some(document)
+}
+
+//
+// CHECK: Raise `Error::Syntax` if `value` is the ID of an element other than the one that has, or is
+// to have, the attribute.
+//
+fn check_id_value(element: &RefNode, attribute: &RefNode, value: Option<String>) -> Result<()> {
+    if let (Some(document), Some(value)) = (id_attribute_document(attribute), value) {
+        if document
+            .get_element_by_id(&value)
+            .is_some_and(|other| &other != element)
+        {
+            warn!("{}", MSG_DUPLICATE_ID);
+            return Err(Error::Syntax);
+        }
+    }
+    Ok(())
+}
+
+//
+// Add to the owning document's id_map hash.
+//
+fn add_to_id_map(element: &RefNode, attribute: &RefNode) {
+    if let (Some(document), Some(value)) = (id_attribute_document(attribute), attribute.value()) {
+        let mut mut_document = document.borrow_mut();
+        if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension {
+            let _safe_to_ignore = i_id_map.insert(value, element.clone().downgrade());
+        }
+    }
+}
+
 //
 // Returns `true` if an element can not have two attributes with these names.
 //
-- 
2.43.0


From 5751e1759cb9877e484a20c11fdcfefbea4d012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 20/34] fix: namespace mappings were keyed by xmlns and never
 removed or updated

---
 src/level2/trait_impls.rs | 59 ++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 8afa209..3755237 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -115,8 +115,9 @@ impl Attribute for RefNode {
             NodeImpl::new_text(document.clone(), value)
         };
         let _safe_to_ignore = self.append_child(RefNode::new(text_node))?;
-        if let Some(owner_element) = &owner_element {
-            add_to_id_map(owner_element, self);
+        if let Some(mut owner_element) = owner_element {
+            add_to_mappings(&mut owner_element, self)?;
+            add_to_id_map(&owner_element, self);
         }
         Ok(())
     }
@@ -124,6 +125,9 @@ impl Attribute for RefNode {
         for child_node in self.child_nodes() {
             let _safe_to_ignore = self.remove_child(child_node)?;
         }
+        if let Some(mut owner_element) = self.owner_element() {
+            remove_from_mappings(&mut owner_element, self)?;
+        }
         Ok(())
     }
     fn owner_element(&self) -> Option<Self::NodeRef> {
@@ -528,20 +532,7 @@ impl Element for RefNode {
             //
             set_owner_element(&new_attribute, Some(self));
 
-            let name: Name = new_attribute.node_name();
-            if name.is_namespace_attribute() {
-                //
-                // Add to the element's namespace mapping hash
-                //
-                let attribute = as_attribute(&new_attribute).unwrap();
-                let namespace_uri = attribute.value().unwrap();
-
-                let as_namespaced = as_element_namespaced_mut(self).unwrap();
-                let _ignore = match &name.prefix() {
-                    None => as_namespaced.insert_mapping(None, &namespace_uri),
-                    Some(prefix) => as_namespaced.insert_mapping(Some(prefix), &namespace_uri),
-                }?;
-            }
+            add_to_mappings(self, &new_attribute)?;
 
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
@@ -571,7 +562,8 @@ impl Element for RefNode {
                 }
                 let _safe_to_ignore = i_attributes.remove(&old_name);
                 set_owner_element(&old_attribute, None);
-                // TODO: remove from Element::namespaces
+                drop(mut_self);
+                remove_from_mappings(self, &old_attribute)?;
                 Ok(old_attribute)
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
@@ -1334,6 +1326,39 @@ fn add_to_id_map(element: &RefNode, attribute: &RefNode) {
     }
 }
 
+//
+// Add to the element's namespace mapping hash, the prefix is the local name of an `xmlns:prefix`
+// attribute.
+//
+fn add_to_mappings(element: &mut RefNode, attribute: &RefNode) -> Result<()> {
+    let name = attribute.node_name();
+    if name.is_namespace_attribute() {
+        if let Some(namespace_uri) = attribute.value() {
+            let as_namespaced = as_element_namespaced_mut(element)?;
+            let _ignore = match &name.prefix() {
+                None => as_namespaced.insert_mapping(None, &namespace_uri),
+                Some(_) => as_namespaced.insert_mapping(Some(name.local_name()), &namespace_uri),
+            }?;
+        }
+    }
+    Ok(())
+}
+
+//
+// Remove from the element's namespace mapping hash.
+//
+fn remove_from_mappings(element: &mut RefNode, attribute: &RefNode) -> Result<()> {
+    let name = attribute.node_name();
+    if name.is_namespace_attribute() {
+        let as_namespaced = as_element_namespaced_mut(element)?;
+        let _ignore = match &name.prefix() {
+            None => as_namespaced.remove_mapping(None),
+            Some(_) => as_namespaced.remove_mapping(Some(name.local_name())),
+        }?;
+    }
+    Ok(())
+}
+
 //
 // Returns `true` if an element can not have two attributes with these names.
 //
-- 
2.43.0


From 845be895bb1ba84462a928c01caf39ac18995f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 21/34] fix: the parser did not compile with quick-xml 0.34,
 and unescaped processing instructions

---
 src/parser/mod.rs | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d4e04be..5828761 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@ use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
-use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesStart, BytesText, Event};
+use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use std::borrow::Borrow;
 use std::io::BufRead;
@@ -90,7 +90,7 @@ impl<T> From<Error> for Result<T> {
 // ------------------------------------------------------------------------------------------------
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
-    let _safe_to_ignore = reader.trim_text(true);
+    reader.config_mut().trim_text(true);
 
     let mut event_buffer: Vec<u8> = Vec::new();
 
@@ -259,7 +259,7 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.unwrap();
-        let value = attribute.decode_and_unescape_value(reader)?;
+        let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
@@ -328,34 +328,19 @@ fn handle_cdata<T: BufRead>(
 }
 
 fn handle_pi<T: BufRead>(
-    _reader: &mut Reader<T>,
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
-    ev: BytesText<'_>,
+    ev: BytesPI<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = ev.unescape()?;
-    let parts = text.splitn(2, ' ').collect::<Vec<&str>>();
-    let (target, data) = match parts.len() {
-        1 => (parts[0].to_string(), None),
-        2 => {
-            let data = parts[1].trim();
-            if data.is_empty() {
-                (parts[0].to_string(), None)
-            } else {
-                (parts[0].to_string(), Some(data.to_string()))
-            }
-        }
-        _ => return Error::Malformed.into(),
-    };
-    let new_node = match data {
-        None => mut_document
-            .create_processing_instruction(&target, None)
-            .unwrap(),
-        Some(s) => mut_document
-            .create_processing_instruction(&target, Some(s.as_str()))
-            .unwrap(),
+    let target = reader.decoder().decode(ev.target())?;
+    let data = reader.decoder().decode(ev.content())?;
+    let data = match data.trim() {
+        "" => None,
+        data => Some(data),
     };
+    let new_node = mut_document.create_processing_instruction(&target, data)?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
-- 
2.43.0


From d473caaec995b365534de7123ad3cbb5ecb619cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 22/34] fix: the parser accepted malformed documents and
 panicked on others

---
 src/level2/ext/decl.rs |   2 +-
 src/parser/mod.rs      | 117 +++++++++++++++++++++++------------------
 2 files changed, 66 insertions(+), 53 deletions(-)

diff --git a/src/level2/ext/decl.rs b/src/level2/ext/decl.rs
index b64e5d3..26094ba 100644
--- a/src/level2/ext/decl.rs
+++ b/src/level2/ext/decl.rs
@@ -68,7 +68,7 @@ fn is_encoding_sub_string(s: &str) -> bool {
     s.chars().all(is_encoding_rest_char)
 }
 
-fn is_encoding(s: &str) -> bool {
+pub(crate) fn is_encoding(s: &str) -> bool {
     !s.is_empty()
         && s.starts_with(is_encoding_start_char)
         && s[1..].split(ENCODING_SEP_CHAR).all(is_encoding_sub_string)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5828761..bee5cf8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -19,13 +19,18 @@ assert!(dom.is_ok());
 */
 
 use crate::level2::convert::as_document_mut;
+use crate::level2::ext::decl::is_encoding;
 use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
+use crate::shared::syntax::{
+    XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_STANDALONE_NO, XML_DECL_STANDALONE_YES,
+    XML_DECL_VERSION,
+};
+use quick_xml::events::attributes::Attributes;
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
-use std::borrow::Borrow;
 use std::io::BufRead;
 use std::str::FromStr;
 
@@ -89,6 +94,8 @@ impl<T> From<Error> for Result<T> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+const XML_DECL_TARGET: &str = "xml";
+
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
     reader.config_mut().trim_text(true);
 
@@ -126,34 +133,27 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
         match reader.read_event_into(event_buffer) {
             Ok(Event::Decl(ev)) => {
                 let mut mut_document = document.borrow_mut();
+                let has_child_nodes = !mut_document.i_child_nodes.is_empty();
                 if let Extension::Document {
                     i_xml_declaration, ..
                 } = &mut mut_document.i_extension
                 {
-                    if i_xml_declaration.is_some() {
+                    if i_xml_declaration.is_some() || has_child_nodes {
                         error!("XML declaration must be first");
                         return Error::Malformed.into();
                     } else {
-                        let (version, encoding, standalone) = make_decl(reader, ev)?;
-                        *i_xml_declaration = Some(XmlDecl::new(
-                            XmlVersion::from_str(&version).unwrap(),
-                            encoding,
-                            standalone,
-                        ));
+                        *i_xml_declaration = Some(make_decl(reader, ev)?);
                     }
                 }
             }
             Ok(Event::Start(ev)) => {
                 let mut new_element = handle_start(reader, &mut document, None, ev)?;
                 let _safe_to_ignore =
-                    element(reader, event_buffer, &mut document, &mut new_element);
+                    element(reader, event_buffer, &mut document, &mut new_element)?;
             }
             Ok(Event::Empty(ev)) => {
                 let _safe_to_ignore = handle_start(reader, &mut document, None, ev)?;
             }
-            Ok(Event::End(ev)) => {
-                let _safe_to_ignore = handle_end(reader, &mut document, None, ev)?;
-            }
             Ok(Event::Comment(ev)) => {
                 let _safe_to_ignore = handle_comment(&mut document, None, ev)?;
             }
@@ -171,7 +171,13 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
             //     }
             //     prolog_pre_nodes.push(make_doc_type(reader, ev)?);
             // }
-            Ok(Event::Eof) => return Ok(document),
+            Ok(Event::Eof) => {
+                if document.document_element().is_none() {
+                    error!("No document element");
+                    return Error::Malformed.into();
+                }
+                return Ok(document);
+            }
             Ok(ev) => {
                 error!("Unexpected parser event: {:?}", ev);
                 return Error::Malformed.into();
@@ -249,7 +255,7 @@ fn handle_start<T: BufRead>(
     let mut element = {
         let mut_document = as_document_mut(document).unwrap();
         let name = reader.decoder().decode(ev.name().into_inner())?;
-        let new_node = mut_document.create_element(&name).unwrap();
+        let new_node = mut_document.create_element(&name)?;
         let mut actual_parent = match parent_node {
             None => document.clone(),
             Some(actual) => actual.clone(),
@@ -258,7 +264,7 @@ fn handle_start<T: BufRead>(
     };
 
     for attribute in ev.attributes() {
-        let attribute = attribute.unwrap();
+        let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
@@ -360,43 +366,50 @@ fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<
     Ok(decoded_string.to_string())
 }
 
-fn make_decl<T: BufRead>(
-    reader: &mut Reader<T>,
-    ev: BytesDecl<'_>,
-) -> Result<(String, Option<String>, Option<bool>)> {
-    let version = ev.version().unwrap();
-    let version = version.borrow();
-    let version = reader.decoder().decode(version).unwrap();
-    let version = unquote(version.to_string())?;
-    let encoding = if let Some(ev_value) = ev.encoding() {
-        let encoding = ev_value.unwrap();
-        let encoding = encoding.borrow();
-        let encoding = reader.decoder().decode(encoding).unwrap();
-        Some(encoding.to_string())
-    } else {
-        None
-    };
-    let standalone = if let Some(ev_value) = ev.standalone() {
-        let standalone = ev_value.unwrap();
-        let standalone = standalone.borrow();
-        let standalone = reader.decoder().decode(standalone).unwrap();
-        Some(standalone == "yes")
-    } else {
-        None
-    };
-    Ok((version, encoding, standalone))
-}
-
-#[allow(clippy::if_same_then_else)]
-fn unquote(s: String) -> Result<String> {
-    if s.starts_with('"') && s.ends_with('"') {
-        Ok(s[1..s.len() - 1].to_string())
-    } else if s.starts_with('\'') && s.ends_with('\'') {
-        Ok(s[1..s.len() - 1].to_string())
-    } else if s.starts_with('"') || s.starts_with('\'') {
-        Error::InvalidCharacter.into()
-    } else {
-        Ok(s)
+///
+/// The version is required, and has to be first; the encoding and standalone values are optional but
+/// have to be in that order.
+///
+fn make_decl<T: BufRead>(reader: &mut Reader<T>, ev: BytesDecl<'_>) -> Result<XmlDecl> {
+    let content = reader.decoder().decode(&ev)?;
+    let mut version: Option<XmlVersion> = None;
+    let mut encoding: Option<String> = None;
+    let mut standalone: Option<bool> = None;
+    for attribute in Attributes::new(&content, XML_DECL_TARGET.len()) {
+        let attribute = attribute.map_err(quick_xml::Error::from)?;
+        let value = reader.decoder().decode(&attribute.value)?;
+        match reader
+            .decoder()
+            .decode(attribute.key.into_inner())?
+            .as_ref()
+        {
+            XML_DECL_VERSION if version.is_none() => {
+                version = Some(XmlVersion::from_str(&value).map_err(|_| Error::Malformed)?);
+            }
+            XML_DECL_ENCODING
+                if version.is_some()
+                    && encoding.is_none()
+                    && standalone.is_none()
+                    && is_encoding(&value) =>
+            {
+                encoding = Some(value.to_string());
+            }
+            XML_DECL_STANDALONE if version.is_some() && standalone.is_none() => {
+                standalone = match value.as_ref() {
+                    XML_DECL_STANDALONE_YES => Some(true),
+                    XML_DECL_STANDALONE_NO => Some(false),
+                    _ => return Error::Malformed.into(),
+                };
+            }
+            _ => {
+                error!("Invalid XML declaration");
+                return Error::Malformed.into();
+            }
+        }
+    }
+    match version {
+        Some(version) => Ok(XmlDecl::new(version, encoding, standalone)),
+        None => Error::Malformed.into(),
     }
 }
 
-- 
2.43.0


From 42c8d77ac9e3f212e145c44c0a62f9c53ac169a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:39 +0000
Subject: [PATCH 23/34] fix: the parser replaced references in attribute values
 twice

---
 src/parser/mod.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index bee5cf8..4806257 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -28,7 +28,7 @@ use crate::shared::syntax::{
     XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_STANDALONE_NO, XML_DECL_STANDALONE_YES,
     XML_DECL_VERSION,
 };
-use quick_xml::events::attributes::Attributes;
+use quick_xml::events::attributes::{Attribute, Attributes};
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use std::io::BufRead;
@@ -265,7 +265,7 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.map_err(quick_xml::Error::from)?;
-        let value = attribute.decode_and_unescape_value(reader.decoder())?;
+        let value = make_attribute_value(reader, &attribute)?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
@@ -360,6 +360,25 @@ fn make_text(ev: BytesText<'_>) -> Result<String> {
     Ok(ev.unescape()?.to_string())
 }
 
+///
+/// References in an attribute's value are replaced by the DOM; however it only knows character
+/// references and so the predefined entities have to be written that way.
+///
+fn make_attribute_value<T: BufRead>(
+    reader: &mut Reader<T>,
+    attribute: &Attribute<'_>,
+) -> Result<String> {
+    let decoder = reader.decoder();
+    let _must_be_valid = attribute.decode_and_unescape_value(decoder)?;
+    Ok(decoder
+        .decode(&attribute.value)?
+        .replace("&amp;", "&#38;")
+        .replace("&lt;", "&#60;")
+        .replace("&gt;", "&#62;")
+        .replace("&apos;", "&#39;")
+        .replace("&quot;", "&#34;"))
+}
+
 fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<String> {
     let cdata_bytes = ev.into_inner();
     let decoded_string = reader.decoder().decode(cdata_bytes.as_ref())?;
-- 
2.43.0


From 660a2f555ace64680fcf2704ea44376e6dc5a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 24/34] fix: the parser rejected comments that contain an
 ampersand

---
 src/parser/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4806257..d311748 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -155,7 +155,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
                 let _safe_to_ignore = handle_start(reader, &mut document, None, ev)?;
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(&mut document, None, ev)?;
+                let _safe_to_ignore = handle_comment(reader, &mut document, None, ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, &mut document, None, ev)?;
@@ -221,7 +221,7 @@ fn element<T: BufRead>(
                 return Ok(parent_element.clone());
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(document, Some(parent_element), ev)?;
+                let _safe_to_ignore = handle_comment(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, document, Some(parent_element), ev)?;
@@ -287,13 +287,14 @@ fn handle_end<T: BufRead>(
     .clone())
 }
 
-fn handle_comment(
+fn handle_comment<T: BufRead>(
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
     ev: BytesText<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = make_text(ev)?;
+    let text = make_comment(reader, ev)?;
     let new_node = mut_document.create_comment(&text);
     let actual_parent = match parent_node {
         None => document,
@@ -379,6 +380,17 @@ fn make_attribute_value<T: BufRead>(
         .replace("&quot;", "&#34;"))
 }
 
+///
+/// There are no references in a comment, but `&` and `<` are allowed; the references that are replaced
+/// are those written when serializing a comment.
+///
+fn make_comment<T: BufRead>(reader: &mut Reader<T>, ev: BytesText<'_>) -> Result<String> {
+    match ev.unescape() {
+        Ok(text) => Ok(text.to_string()),
+        Err(_) => Ok(reader.decoder().decode(&ev)?.to_string()),
+    }
+}
+
 fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<String> {
     let cdata_bytes = ev.into_inner();
     let decoded_string = reader.decoder().decode(cdata_bytes.as_ref())?;
-- 
2.43.0


From 4db0630f164f78258cd428c35fa89cded05e7746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 25/34] fix: deeply nested documents overflowed the stack when
 parsed or dropped

---
 src/level2/node_impl.rs | 17 +++++++++++++++++
 src/parser/mod.rs       | 17 +++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 46fd314..103ec67 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -6,6 +6,7 @@ use crate::shared::name::Name;
 use crate::shared::rc_cell::{RcRefCell, WeakRefCell};
 use std::collections::HashMap;
 use std::fmt::{Debug, Formatter};
+use std::rc::Rc;
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -115,6 +116,22 @@ impl RefNode {
 
 // ------------------------------------------------------------------------------------------------
 
+impl Drop for NodeImpl {
+    ///
+    /// Drop the nodes below this one without recursion, there is no limit on how deep they are nested.
+    ///
+    fn drop(&mut self) {
+        let mut child_nodes = std::mem::take(&mut self.i_child_nodes);
+        while let Some(child_node) = child_nodes.pop() {
+            if Rc::strong_count(child_node.as_inner()) == 1 {
+                child_nodes.append(&mut child_node.borrow_mut().i_child_nodes);
+            }
+        }
+    }
+}
+
+// ------------------------------------------------------------------------------------------------
+
 impl NodeImpl {
     pub(crate) fn new_element(owner_document: WeakRefNode, name: Name) -> Self {
         Self {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d311748..5543aba 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -205,20 +205,29 @@ fn element<T: BufRead>(
     reader: &mut Reader<T>,
     event_buffer: &mut Vec<u8>,
     document: &mut RefNode,
-    parent_element: &mut RefNode,
+    root_element: &mut RefNode,
 ) -> Result<RefNode> {
+    //
+    // The nesting is limited by the input only, so do not use recursion.
+    //
+    let mut open_elements: Vec<RefNode> = Vec::new();
+    let mut current_element = root_element.clone();
     loop {
+        let parent_element = &mut current_element;
         match reader.read_event_into(event_buffer) {
             Ok(Event::Start(ev)) => {
-                let mut new_element = handle_start(reader, document, Some(parent_element), ev)?;
-                let _safe_to_ignore = element(reader, event_buffer, document, &mut new_element)?;
+                let new_element = handle_start(reader, document, Some(parent_element), ev)?;
+                open_elements.push(std::mem::replace(parent_element, new_element));
             }
             Ok(Event::Empty(ev)) => {
                 let _safe_to_ignore = handle_start(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::End(ev)) => {
                 let _safe_to_ignore = handle_end(reader, document, Some(parent_element), ev)?;
-                return Ok(parent_element.clone());
+                match open_elements.pop() {
+                    None => return Ok(current_element),
+                    Some(open_element) => current_element = open_element,
+                }
             }
             Ok(Event::Comment(ev)) => {
                 let _safe_to_ignore = handle_comment(reader, document, Some(parent_element), ev)?;
-- 
2.43.0


From 7ecf039d6fcad5c766a6123c484d9d8cb402ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:54 +0000
Subject: [PATCH 26/34] fix: a byte order mark was not recognized unless it was
 read in one piece

---
 src/parser/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5543aba..9421530 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -31,7 +31,7 @@ use crate::shared::syntax::{
 use quick_xml::events::attributes::{Attribute, Attributes};
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
-use std::io::BufRead;
+use std::io::{BufRead, Read};
 use std::str::FromStr;
 
 use thiserror::Error as E;
@@ -80,8 +80,17 @@ pub fn read_xml(xml: impl AsRef<str>) -> Result<RefNode> {
 /// Parse the provided string into a DOM structure; if the result is OK, the result returned
 /// can be safely assumed to be a `Document` node.
 ///
-pub fn read_reader<B: BufRead>(reader: B) -> Result<RefNode> {
-    inner_read(&mut Reader::from_reader(reader))
+pub fn read_reader<B: BufRead>(mut reader: B) -> Result<RefNode> {
+    //
+    // A byte order mark is only recognized if all of it is in the first part that is read.
+    //
+    let mut start: Vec<u8> = Vec::new();
+    let _safe_to_ignore = reader
+        .by_ref()
+        .take(BYTE_ORDER_MARK_LENGTH)
+        .read_to_end(&mut start)
+        .map_err(quick_xml::Error::from)?;
+    inner_read(&mut Reader::from_reader(start.chain(reader)))
 }
 
 impl<T> From<Error> for Result<T> {
@@ -94,6 +103,8 @@ impl<T> From<Error> for Result<T> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+const BYTE_ORDER_MARK_LENGTH: u64 = 3;
+
 const XML_DECL_TARGET: &str = "xml";
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
-- 
2.43.0


From 3cd16a17e64a02bd5b2fc8373419e4af55ac6a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 27/34] fix: character references with digits that are not
 ASCII panicked

---
 src/shared/text.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index e778903..6f06ac6 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -225,12 +225,10 @@ fn char_from_entity(entity: impl AsRef<str>) -> Option<String> {
     let entity = entity.as_ref();
     assert!(entity.starts_with("&#"));
     assert!(entity.ends_with(';'));
-    let code_point = if &entity[2..3] == "x" {
-        let code_point = &entity[3..entity.len() - 1];
-        u32::from_str_radix(code_point, 16).ok()?
-    } else {
-        let code_point = &entity[2..entity.len() - 1];
-        code_point.parse::<u32>().ok()?
+    let digits = &entity[2..entity.len() - 1];
+    let code_point = match digits.strip_prefix('x') {
+        Some(hex_digits) => u32::from_str_radix(hex_digits, 16).ok()?,
+        None => digits.parse::<u32>().ok()?,
     };
     let character = char::try_from(code_point).ok()?;
     Some(character.to_string())
-- 
2.43.0


From 5e8874d550738951228b0bfdf1e36145aa128116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 28/34] fix: text that ends at the end of a buffer was lost by
 read_reader

---
 src/parser/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9421530..3653f35 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -31,7 +31,7 @@ use crate::shared::syntax::{
 use quick_xml::events::attributes::{Attribute, Attributes};
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
-use std::io::{BufRead, Read};
+use std::io::BufRead;
 use std::str::FromStr;
 
 use thiserror::Error as E;
@@ -82,15 +82,14 @@ pub fn read_xml(xml: impl AsRef<str>) -> Result<RefNode> {
 ///
 pub fn read_reader<B: BufRead>(mut reader: B) -> Result<RefNode> {
     //
-    // A byte order mark is only recognized if all of it is in the first part that is read.
+    // All of it is kept by the DOM anyway; read in parts a byte order mark, or text, that ends where a
+    // part does is not recognized.
     //
-    let mut start: Vec<u8> = Vec::new();
+    let mut content: Vec<u8> = Vec::new();
     let _safe_to_ignore = reader
-        .by_ref()
-        .take(BYTE_ORDER_MARK_LENGTH)
-        .read_to_end(&mut start)
+        .read_to_end(&mut content)
         .map_err(quick_xml::Error::from)?;
-    inner_read(&mut Reader::from_reader(start.chain(reader)))
+    inner_read(&mut Reader::from_reader(content.as_slice()))
 }
 
 impl<T> From<Error> for Result<T> {
@@ -103,8 +102,6 @@ impl<T> From<Error> for Result<T> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
-const BYTE_ORDER_MARK_LENGTH: u64 = 3;
-
 const XML_DECL_TARGET: &str = "xml";
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
-- 
2.43.0


From 31d839bb663e7692b079634ffe485ce9c5329783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:05 +0000
Subject: [PATCH 29/34] fix: reading deeply nested elements that have
 attributes took quadratic time

---
 src/level2/trait_impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 3755237..7082c67 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -500,7 +500,11 @@ impl Element for RefNode {
     fn set_attribute_node(&mut self, new_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
-            if contains_node(&new_attribute, self) {
+            let has_references = new_attribute
+                .child_nodes()
+                .iter()
+                .any(|child| child.has_child_nodes());
+            if has_references && contains_node(&new_attribute, self) {
                 warn!("cannot add an attribute to one of its descendants");
                 return Err(Error::HierarchyRequest);
             }
-- 
2.43.0


From 13ee6e6fcebc85576a2a264d36b43be64e280184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:09 +0000
Subject: [PATCH 30/34] fix: elements in a namespace named * matched searches
 for every namespace

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 7082c67..d10f668 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1186,7 +1186,7 @@ fn namespaced_name_match(
                     || against_local == WILD_CARD)
         }
         Some(test_ns) => {
-            ((test_ns == against_ns) || test_ns == WILD_CARD || against_ns == WILD_CARD)
+            ((test_ns == against_ns) || against_ns == WILD_CARD)
                 && ((test_local == against_local)
                     || test_local == WILD_CARD
                     || against_local == WILD_CARD)
-- 
2.43.0


From 0d38c43ac38ab0210ba3d81c13d68416f7e8c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 31/34] fix: white space that is not XML white space was lost
 around the data of an instruction

---
 src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3653f35..9a5978e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -28,6 +28,7 @@ use crate::shared::syntax::{
     XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_STANDALONE_NO, XML_DECL_STANDALONE_YES,
     XML_DECL_VERSION,
 };
+use crate::shared::text::is_xml_space;
 use quick_xml::events::attributes::{Attribute, Attributes};
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
@@ -360,7 +361,7 @@ fn handle_pi<T: BufRead>(
     let mut_document = as_document_mut(document).unwrap();
     let target = reader.decoder().decode(ev.target())?;
     let data = reader.decoder().decode(ev.content())?;
-    let data = match data.trim() {
+    let data = match data.trim_matches(is_xml_space) {
         "" => None,
         data => Some(data),
     };
-- 
2.43.0


From 3c55fd7d022ecb5422629da65327d7a41dc2b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 32/34] fix: drop nodes below attributes without recursion

---
 src/level2/node_impl.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 103ec67..9e356eb 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -121,10 +121,18 @@ impl Drop for NodeImpl {
     /// Drop the nodes below this one without recursion, there is no limit on how deep they are nested.
     ///
     fn drop(&mut self) {
-        let mut child_nodes = std::mem::take(&mut self.i_child_nodes);
-        while let Some(child_node) = child_nodes.pop() {
-            if Rc::strong_count(child_node.as_inner()) == 1 {
-                child_nodes.append(&mut child_node.borrow_mut().i_child_nodes);
+        fn take_nodes(node_impl: &mut NodeImpl, nodes: &mut Vec<RefNode>) {
+            nodes.append(&mut node_impl.i_child_nodes);
+            if let Extension::Element { i_attributes, .. } = &mut node_impl.i_extension {
+                nodes.extend(i_attributes.drain().map(|(_, attribute)| attribute));
+            }
+        }
+
+        let mut nodes = Vec::new();
+        take_nodes(self, &mut nodes);
+        while let Some(node) = nodes.pop() {
+            if Rc::strong_count(node.as_inner()) == 1 {
+                take_nodes(&mut node.borrow_mut(), &mut nodes);
             }
         }
     }
-- 
2.43.0


From b8d97b25f97c902149ab4c605e6991f46f2a4cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:42 +0000
Subject: [PATCH 33/34] fix: adding elements with attributes to a deep tree
 took quadratic time

---
 src/level2/trait_impls.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index d10f668..0470bfe 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1392,12 +1392,26 @@ fn is_node_value_allowed(node: &RefNode) -> bool {
     is_character_data(node) || is_processing_instruction(node)
 }
 
+//
+// Returns `true` if the content of the attribute is more than text, only an entity reference may have
+// anything below it.
+//
+fn has_references(attribute: &RefNode) -> bool {
+    attribute
+        .child_nodes()
+        .iter()
+        .any(|child| child.node_type() == NodeType::EntityReference)
+}
+
 //
 // Returns `true` if `node` is the same node as `ancestor` or is anywhere below it; this includes
 // the content of the attributes of an element.
 //
 fn contains_node(ancestor: &RefNode, node: &RefNode) -> bool {
-    if ancestor != node && !ancestor.has_child_nodes() && !ancestor.has_attributes() {
+    if ancestor != node
+        && !ancestor.has_child_nodes()
+        && !ancestor.attributes().values().any(has_references)
+    {
         return false;
     }
     let mut current = Some(node.clone());
-- 
2.43.0


From 9fb66149a2046b1db1817a55ee29a1ab45acaf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:26 +0000
Subject: [PATCH 34/34] fix: identifiers no element has any more kept their
 memory

---
 src/level2/trait_impls.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 0470bfe..1f748ce 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -9,7 +9,7 @@ use crate::shared::name::Name;
 use crate::shared::syntax::*;
 use crate::shared::{display, text};
 use std::collections::hash_map::RandomState;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter, Result as FmtResult};
 use std::ops::Range;
 use std::str::FromStr;
@@ -1318,13 +1318,34 @@ fn check_id_value(element: &RefNode, attribute: &RefNode, value: Option<String>)
     Ok(())
 }
 
+//
+// Returns the IDs in the document's id_map hash that no element has any more. As these only need to be
+// removed before the map grows, there are none to report as long as it has room.
+//
+fn unused_ids(document: &RefNode) -> HashSet<String> {
+    let ref_document = document.borrow();
+    match &ref_document.i_extension {
+        Extension::Document { i_id_map, .. } if i_id_map.len() == i_id_map.capacity() => i_id_map
+            .keys()
+            .filter(|id| document.get_element_by_id(id).is_none())
+            .cloned()
+            .collect(),
+        _ => HashSet::default(),
+    }
+}
+
 //
 // Add to the owning document's id_map hash.
 //
 fn add_to_id_map(element: &RefNode, attribute: &RefNode) {
     if let (Some(document), Some(value)) = (id_attribute_document(attribute), attribute.value()) {
+        let unused = unused_ids(&document);
         let mut mut_document = document.borrow_mut();
         if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension {
+            if !unused.is_empty() {
+                i_id_map.retain(|id, _| !unused.contains(id));
+                i_id_map.reserve(i_id_map.len());
+            }
             let _safe_to_ignore = i_id_map.insert(value, element.clone().downgrade());
         }
     }
-- 
2.43.0

