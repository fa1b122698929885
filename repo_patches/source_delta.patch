From 7d7963cc6ff2a47afbbb078f9b988a2eeb013907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:41 +0000
Subject: [PATCH 01/59] fix: read line style "double" as a double line, not a
 dotted one

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 9d4a2cb..0191e5c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -105,7 +105,7 @@ impl LineStyle {
       Some("solid") => Some(LineStyle::Solid),
       Some("none") => Some(LineStyle::None),
       Some("dotted") => Some(LineStyle::Dotted),
-      Some("double") => Some(LineStyle::Dotted),
+      Some("double") => Some(LineStyle::Double),
       _ => None,
     }
   }
-- 
2.43.0


From f5f7e96b7e81495dd2f40852a07f493a2df27cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:41 +0000
Subject: [PATCH 02/59] fix: write the RemarksLabel of Remarks

---
 src/remarks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/remarks.rs b/src/remarks.rs
index 3cc1b79..3ce447c 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -56,6 +56,8 @@ impl Parser for Remarks {
 impl ToXmlElement for Remarks {
   fn to_xml_element(&self) -> Element {
     let mut e = Element::new("Remarks");
+    e.children
+      .push(XMLNode::Element(self.label.to_xml_element()));
     for n in self.children.iter() {
       match n {
         RemarksContents::Item(v) => {
-- 
2.43.0


From 2af7c222ed3ff158beb3058c3ddc1b490fcda756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:41 +0000
Subject: [PATCH 03/59] fix: write the Num attribute of ArithFormula

---
 src/contents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/contents.rs b/src/contents.rs
index bde732d..0006ffa 100644
--- a/src/contents.rs
+++ b/src/contents.rs
@@ -312,6 +312,10 @@ impl Parser for ArithFormula {
 
 impl ToXmlElement for ArithFormula {
   fn to_xml_element(&self) -> Element {
-    self.contentes.to_xml_element_with_name("ArithFormula")
+    let mut e = self.contentes.to_xml_element_with_name("ArithFormula");
+    if let Some(n) = self.num {
+      e.attributes.insert("Num".to_string(), n.to_string());
+    }
+    e
   }
 }
-- 
2.43.0


From e80e244fa033238fd02a82d444fda534354cdd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:51 +0000
Subject: [PATCH 04/59] fix: write the related article number of Appdx as
 RelatedArticleNum

---
 src/appdx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index 6d17c9b..d739d31 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -401,7 +401,7 @@ impl ToXmlElement for Appdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From 66e2918b0e2ed7758fb9d5da024ad5144560028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:52 +0000
Subject: [PATCH 05/59] fix: write SupplProvisionAppdx under its own element
 name and its RelatedArticleNum

---
 src/suppl_provision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index c7c5f69..249a385 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -347,7 +347,7 @@ impl Parser for SupplProvisionAppdx {
 
 impl ToXmlElement for SupplProvisionAppdx {
   fn to_xml_element(&self) -> Element {
-    let mut e = Element::new("Appdx");
+    let mut e = Element::new("SupplProvisionAppdx");
     if let Some(v) = &self.arith_formula_num {
       e.children.push(XMLNode::Element(
         v.to_xml_element_with_name("ArithFormulaNum"),
@@ -355,7 +355,7 @@ impl ToXmlElement for SupplProvisionAppdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From 9a0d53fb8ba652b763add97ba6212a4013af4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:52 +0000
Subject: [PATCH 06/59] fix: correct the element name of
 SupplProvisionAppdxTableTitle

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 249a385..a013743 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -210,7 +210,7 @@ impl ToXmlElement for SupplProvisionAppdxTable {
     e.children.push(XMLNode::Element(
       self
         .title
-        .to_xml_element_with_name("SupplProvisionAppdxTableitle"),
+        .to_xml_element_with_name("SupplProvisionAppdxTableTitle"),
     ));
     if let Some(t) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-- 
2.43.0


From 945ab6efc2f8dedbcbc2cff3ceb699d9a68c7deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:05 +0000
Subject: [PATCH 07/59] fix: write the preamble label of a table of contents as
 TOCPreambleLabel

---
 src/table_of_contents.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 8417bf2..9fffb87 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -89,8 +89,9 @@ impl ToXmlElement for TOC {
         .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
     }
     if let Some(label) = &self.toc_preamble_label {
-      e.children
-        .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
+      e.children.push(XMLNode::Element(
+        label.to_xml_element_with_name("TOCPreambleLabel"),
+      ));
     }
     for v in self.toc_main_contents.iter() {
       match v {
-- 
2.43.0


From e05ca63ec0f3ddbb72983149a1a38b80beaa51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 08/59] fix: write Align and Valign of a table column under
 their own attribute names

---
 src/table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 9a9c7b7..b1cab15 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -309,10 +309,10 @@ impl ToXmlElement for TableColumn {
       e.attributes.insert("colspan".to_string(), s.clone());
     }
     if let Some(a) = &self.align {
-      e.attributes.insert("rowspan".to_string(), a.to_attribute());
+      e.attributes.insert("Align".to_string(), a.to_attribute());
     }
     if let Some(v) = &self.valign {
-      e.attributes.insert("rowspan".to_string(), v.to_attribute());
+      e.attributes.insert("Valign".to_string(), v.to_attribute());
     }
     for n in self.contents.iter() {
       match n {
-- 
2.43.0


From 1b5c6b993ffc2784ef14abaa215759bf70b098d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:07 +0000
Subject: [PATCH 09/59] fix: write the end of a number range once, also without
 branch numbers

---
 src/article_number.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 65b3a53..c77100c 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -25,15 +25,15 @@ impl ArticleNumber {
     for n in self.eda_numbers.iter() {
       s.push('_');
       s.push_str(&n.to_string());
-      if !self.range_end_numbers.is_empty() {
-        let l = &self.range_end_numbers;
-        let mut l = l.iter();
-        s.push(':');
-        s.push_str(&l.next().unwrap().to_string());
-        for n in l {
-          s.push('_');
-          s.push_str(&n.to_string());
-        }
+    }
+    if !self.range_end_numbers.is_empty() {
+      let l = &self.range_end_numbers;
+      let mut l = l.iter();
+      s.push(':');
+      s.push_str(&l.next().unwrap().to_string());
+      for n in l {
+        s.push('_');
+        s.push_str(&n.to_string());
       }
     }
     s
-- 
2.43.0


From ac23e81880fa1194e46191496f1ca9862645aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:08 +0000
Subject: [PATCH 10/59] fix: write new provisions of an amendment as
 NewProvision

---
 src/law.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/law.rs b/src/law.rs
index 6a8c383..6dd90de 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -892,7 +892,7 @@ impl ToXmlElement for AmendProvision {
       e.children.push(XMLNode::Element(se));
     }
     for v in self.new_provision.iter() {
-      let mut se = Element::new("AmendProvisionSentence");
+      let mut se = Element::new("NewProvision");
       match v {
         NewProvision::LawTitle(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
         NewProvision::Preamble(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
-- 
2.43.0


From a3a45c8338e6025d0a9898d0103eaa0ce9a9aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:29 +0000
Subject: [PATCH 11/59] fix: do not panic on an Article without any child after
 its title

---
 src/article.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/article.rs b/src/article.rs
index 5316e62..baec35f 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -651,7 +651,9 @@ impl Parser for Article {
             break;
           }
         }
-        let next = children.next().unwrap();
+        let Some(next) = children.next() else {
+          break;
+        };
         if let XMLNode::Element(e) = next {
           match e.name.as_str() {
             "ArticleCaption" => {
-- 
2.43.0


From ced5b5499d1d2497566f4626887f5540460ba5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:30 +0000
Subject: [PATCH 12/59] fix: report a Law without Num as an error and write an
 unknown Num as empty

---
 src/law.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 6dd90de..9a108d0 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -61,11 +61,11 @@ impl Parser for Law {
         }
       };
       let year = get_attribute_with_parse(element, "Year")?;
-      let num_str = element.attributes.get("Num").unwrap();
+      let num_str = get_attribute(element, "Num")?;
       let num = if num_str.is_empty() {
         None
       } else {
-        Some(ArticleNumber::from_str(num_str)?)
+        Some(ArticleNumber::from_str(&num_str)?)
       };
       let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
         if s.is_empty() {
@@ -208,6 +208,8 @@ impl ToXmlElement for Law {
       .insert("Year".to_string(), self.year.to_string());
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if let Some(n) = &self.promulgate_month {
       e.attributes
-- 
2.43.0


From 2f6b1becb99eed25e1a0b759bcb1b7258fad4247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 13/59] fix: write the required Num attribute of items whose
 number is unknown

---
 src/paragraph.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index baa7a5e..eb8c017 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -291,6 +291,8 @@ impl ToXmlElement for Item {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -435,6 +437,8 @@ impl ToXmlElement for Subitem1 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -579,6 +583,8 @@ impl ToXmlElement for Subitem2 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -723,6 +729,8 @@ impl ToXmlElement for Subitem3 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -867,6 +875,8 @@ impl ToXmlElement for Subitem4 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1011,6 +1021,8 @@ impl ToXmlElement for Subitem5 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1155,6 +1167,8 @@ impl ToXmlElement for Subitem6 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1299,6 +1313,8 @@ impl ToXmlElement for Subitem7 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1443,6 +1459,8 @@ impl ToXmlElement for Subitem8 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1587,6 +1605,8 @@ impl ToXmlElement for Subitem9 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
@@ -1719,6 +1739,8 @@ impl ToXmlElement for Subitem10 {
     }
     if let Some(n) = &self.num {
       e.attributes.insert("Num".to_string(), n.num_str());
+    } else {
+      e.attributes.insert("Num".to_string(), String::new());
     }
     if self.delete {
       e.attributes
-- 
2.43.0


From b90425264766bc338d761e087068dd7e06ab4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 14/59] fix: ignore XML comments and processing instructions
 instead of rejecting the law

---
 src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63925fa..3667f16 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,15 +49,28 @@ use koyomi::{era, Date};
 use result::*;
 use std::io::{Read, Write};
 use to_xml::ToXmlElement;
-use xmltree::Element;
+use xmltree::{Element, XMLNode};
 
 /// XML文字列を法律の構造体に変換する
 pub fn parse_xml(xml: &[u8]) -> Result<law::Law> {
-  let element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  let mut element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  remove_comments(&mut element);
   let law = law::Law::parser(&element)?;
   Ok(law)
 }
 
+/// コメントと処理命令は法令の内容ではないので取り除く
+fn remove_comments(element: &mut Element) {
+  element
+    .children
+    .retain(|node| matches!(node, XMLNode::Element(_) | XMLNode::Text(_)));
+  for node in element.children.iter_mut() {
+    if let XMLNode::Element(e) = node {
+      remove_comments(e);
+    }
+  }
+}
+
 /// ファイルのパスから法律の構造体に変換する
 pub fn parse_xml_file(path: &str) -> Result<law::Law> {
   let mut file = std::fs::File::open(path).map_err(|_| result::Error::Io)?;
-- 
2.43.0


From 34db45ece79931388e1fb8e1aab447e0c4766483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:31 +0000
Subject: [PATCH 15/59] fix: keep the whole text of Sup and Sub when it comes
 in several pieces

---
 src/text.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index a154f0b..e9e8fa8 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -332,15 +332,15 @@ impl Parser for Sup {
     if element.name.as_str() == "Sup" {
       let text = element
         .children
-        .first()
-        .and_then(|n| {
+        .iter()
+        .filter_map(|n| {
           if let XMLNode::Text(s) = n {
-            Some(s.clone())
+            Some(s.as_str())
           } else {
             None
           }
         })
-        .unwrap_or_default();
+        .collect::<String>();
       Ok(Sup { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sup"))
@@ -367,15 +367,15 @@ impl Parser for Sub {
     if element.name.as_str() == "Sub" {
       let text = element
         .children
-        .first()
-        .and_then(|n| {
+        .iter()
+        .filter_map(|n| {
           if let XMLNode::Text(s) = n {
-            Some(s.clone())
+            Some(s.as_str())
           } else {
             None
           }
         })
-        .unwrap_or_default();
+        .collect::<String>();
       Ok(Sub { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sub"))
-- 
2.43.0


From 43495584bd1b3691e7e5dc9112f34dfe1e02d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 16/59] fix: report malformed Remarks in a structure instead of
 dropping them silently

---
 src/structs.rs | 55 +++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index 49713ed..c20ac56 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -83,12 +83,11 @@ impl Parser for NoteStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if note.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  note_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if note.is_none() {
+                title_remarks.push(r);
+              } else {
+                note_remarks.push(r);
               }
             }
             "Note" => {
@@ -159,12 +158,11 @@ impl Parser for StyleStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if style.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  style_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if style.is_none() {
+                title_remarks.push(r);
+              } else {
+                style_remarks.push(r);
               }
             }
             "Style" => {
@@ -235,12 +233,11 @@ impl Parser for FormatStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if format.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  format_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if format.is_none() {
+                title_remarks.push(r);
+              } else {
+                format_remarks.push(r);
               }
             }
             "Format" => {
@@ -311,12 +308,11 @@ impl Parser for FigStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if fig.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  fig_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if fig.is_none() {
+                title_remarks.push(r);
+              } else {
+                fig_remarks.push(r);
               }
             }
             "Fig" => {
@@ -387,12 +383,11 @@ impl Parser for TableStruct {
               title = Some(v);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if table.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  table_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if table.is_none() {
+                title_remarks.push(r);
+              } else {
+                table_remarks.push(r);
               }
             }
             "Table" => {
-- 
2.43.0


From 24c7365f056c336c6b3a55cf714854bbdb692952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:35 +0000
Subject: [PATCH 17/59] fix: report unexpected elements in a preamble or table
 row instead of dropping them silently

---
 src/law.rs   | 6 ++----
 src/table.rs | 8 ++++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 9a108d0..9286793 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -534,10 +534,8 @@ impl Parser for Preamble {
       let mut children = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
-          if e.name.as_str() == "Paragraph" {
-            let v = Paragraph::parser(e)?;
-            children.push(v)
-          }
+          let v = Paragraph::parser(e)?;
+          children.push(v)
         }
       }
       Ok(Preamble { children })
diff --git a/src/table.rs b/src/table.rs
index b1cab15..c6c4690 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -88,6 +88,8 @@ impl Parser for TableHeaderRow {
           if e.name.as_str() == "TableHeaderColumn" {
             let text = Text::from_children(&e.children);
             columns.push(text);
+          } else {
+            return Err(Error::wrong_tag_name(e, "TableHeaderColumn"));
           }
         }
       }
@@ -121,10 +123,8 @@ impl Parser for TableRow {
       let mut columns = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
-          if e.name.as_str() == "TableColumn" {
-            let v = TableColumn::parser(e)?;
-            columns.push(v);
-          }
+          let v = TableColumn::parser(e)?;
+          columns.push(v);
         }
       }
       Ok(TableRow { columns })
-- 
2.43.0


From 393d0f396264945a5e018b8591991ba5b9df9b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:04 +0000
Subject: [PATCH 18/59] fix: report a mixture of Sentence, Column and Table
 instead of dropping all but one kind

---
 src/class.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/class.rs b/src/class.rs
index cf7a79a..2de1478 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -119,15 +119,17 @@ impl SentenceOrColumnOrTable {
     for node in element.children.iter() {
       if let XMLNode::Element(e) = node {
         match e.name.as_str() {
-          "Sentence" => {
+          "Sentence" if column_list.is_empty() && sentence_opt.is_none() => {
             let v = Sentence::parser(e)?;
             sentence_list.push(v);
           }
-          "Column" => {
+          "Column" if sentence_list.is_empty() && sentence_opt.is_none() => {
             let v = Column::parser(e)?;
             column_list.push(v);
           }
-          "Table" => {
+          "Table"
+            if sentence_list.is_empty() && column_list.is_empty() && sentence_opt.is_none() =>
+          {
             let v = Table::parser(e)?;
             sentence_opt = Some(SentenceOrColumnOrTable::Table(v));
           }
-- 
2.43.0


From 3d0a10aa856b8c62718a56da87f379575bb864c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:01 +0000
Subject: [PATCH 19/59] fix: parse kansuji numbers of ten thousand and above

---
 src/article_number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index c77100c..8429ac7 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -209,7 +209,7 @@ impl FromStr for ArticleNumber {
 }
 
 pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
-  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*))まで)?").unwrap();
+  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千万億兆京]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千万億兆京]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千万億兆京]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千万億兆京]+))*))まで)?").unwrap();
   let re_paragraph = Regex::new(
     r"^(?<num>([０-９]+|[0-9]+))(?<eda_str>((の|ノ)([０-９]+|[0-9]+))*)(から(?<num_2>([０-９]+|[0-9]+))(?<eda_str_2>((の|ノ)([０-９]+|[0-9]+))*)まで)?",
   )
@@ -435,7 +435,7 @@ impl ItemPattern {
 
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
-  let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン]+)|(?<paren_iroha_hiragana>[あ-ん]+)|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン]+)|(?<no_paren_iroha_hiragana>[あ-ん]+)|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
+  let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン]+)|(?<paren_iroha_hiragana>[あ-ん]+)|(?<paren_kansuji>[一二三四五六七八九十百千万億兆京]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン]+)|(?<no_paren_iroha_hiragana>[あ-ん]+)|(?<no_paren_kansuji>[一二三四五六七八九十百千万億兆京]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
   let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
@@ -561,7 +561,7 @@ fn check_parse_article_number() {
 }
 
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
-  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
+  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
     println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
-- 
2.43.0


From 9184db52d4d567685266e7de250e4d25a91c1fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:42 +0000
Subject: [PATCH 20/59] fix: do not panic on numbers that are too large or
 malformed

---
 src/article_number.rs | 108 +++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 70 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 8429ac7..d500d0b 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -217,13 +217,11 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
   if let Some(caps) = re_article.captures(str) {
     // 編-条
     let base_number = if let Some(arabic_num) = caps.name("arabic_num") {
-      arabic_num.as_str().parse::<usize>().unwrap()
+      arabic_num.as_str().parse::<usize>().ok()?
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
-      let kansuji = Kansuji::try_from(kansuji.as_str()).ok()?;
-      let n: u128 = kansuji.into();
-      n as usize
+      parse_kansuji(kansuji.as_str())?
     } else {
       return None;
     };
@@ -238,9 +236,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
       } else if let Some(n) = parse_zenkaku_num(s) {
         eda_numbers.push(n)
       } else {
-        let kansuji = Kansuji::try_from(s).ok()?;
-        let n: u128 = kansuji.into();
-        eda_numbers.push(n as usize)
+        eda_numbers.push(parse_kansuji(s)?)
       }
     }
     let mut num_str = base_number.to_string();
@@ -249,13 +245,11 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     }
     let mut range_end_numbers = Vec::new();
     if let Some(arabic_num) = caps.name("arabic_num_2") {
-      range_end_numbers.push(arabic_num.as_str().parse::<usize>().unwrap())
+      range_end_numbers.push(arabic_num.as_str().parse::<usize>().ok()?)
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
-      let kansuji = Kansuji::try_from(kansuji.as_str()).ok()?;
-      let n: u128 = kansuji.into();
-      range_end_numbers.push(n as usize)
+      range_end_numbers.push(parse_kansuji(kansuji.as_str())?)
     };
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
@@ -269,9 +263,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         } else if let Some(n) = parse_zenkaku_num(s) {
           range_end_numbers.push(n);
         } else {
-          let kansuji = Kansuji::try_from(*s).ok()?;
-          let n: u128 = kansuji.into();
-          range_end_numbers.push(n as usize);
+          range_end_numbers.push(parse_kansuji(s)?);
         }
       }
     }
@@ -285,19 +277,16 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     let base_number = if let Ok(n) = &caps["num"].parse::<usize>() {
       *n
     } else {
-      parse_zenkaku_num(&caps["num"]).unwrap()
+      parse_zenkaku_num(&caps["num"])?
     };
-    let eda_numbers = &caps["eda_str"]
-      .split('の')
-      .filter(|s| !s.is_empty())
-      .map(|s| {
-        if let Ok(n) = s.parse::<usize>() {
-          n
-        } else {
-          parse_zenkaku_num(s).unwrap()
-        }
-      })
-      .collect::<Vec<usize>>();
+    let mut eda_numbers = Vec::new();
+    for s in caps["eda_str"].split('の').filter(|s| !s.is_empty()) {
+      if let Ok(n) = s.parse::<usize>() {
+        eda_numbers.push(n)
+      } else {
+        eda_numbers.push(parse_zenkaku_num(s)?)
+      }
+    }
     let mut range_end_numbers = Vec::new();
     if let Some(m) = caps.name("num_2") {
       if let Ok(n) = m.as_str().parse::<usize>() {
@@ -439,74 +428,46 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
-      (
-        ParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_iroha_hiragana") {
-      (
-        ParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
-      let n: u128 = kansuji.into();
-      (ParenKansuji, n as usize)
+      (ParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
-      (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     }
     // 括弧なし
     else if let Some(s) = caps.name("no_paren_iroha_katakana") {
-      (
-        NoParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_iroha_hiragana") {
-      (
-        NoParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
-      let n: u128 = kansuji.into();
-      (NoParenKansuji, n as usize)
+      (NoParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
-      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else {
       unreachable!()
@@ -611,6 +572,13 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   }
 }
 
+/// 漢数字を解析する 漢数字として正しくない場合や大きすぎる場合は`None`
+fn parse_kansuji(str: &str) -> Option<usize> {
+  let kansuji = Kansuji::try_from(str).ok()?;
+  let n: u128 = kansuji.into();
+  usize::try_from(n).ok().filter(|n| *n > 0)
+}
+
 fn parse_zenkaku_num(str: &str) -> Option<usize> {
   str
     .replace('０', "0")
-- 
2.43.0


From 4a1635b771d2d7cd6eb1c4f0331767a86e14d7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:48 +0000
Subject: [PATCH 21/59] =?UTF-8?q?fix:=20read=20branch=20numbers=20written?=
 =?UTF-8?q?=20with=20=E3=83=8E=20and=20those=20of=20the=20end=20of=20a=20p?=
 =?UTF-8?q?aragraph=20range?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/article_number.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index d500d0b..068a4e1 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -254,8 +254,10 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
         .as_str()
+        .replace('ノ', "の")
         .split('の')
         .filter(|s| !s.is_empty())
+        .map(|s| s.to_string())
         .collect::<Vec<_>>();
       for s in eda_numbers_2.iter() {
         if let Ok(n) = s.parse::<usize>() {
@@ -280,7 +282,11 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
       parse_zenkaku_num(&caps["num"])?
     };
     let mut eda_numbers = Vec::new();
-    for s in caps["eda_str"].split('の').filter(|s| !s.is_empty()) {
+    for s in caps["eda_str"]
+      .replace('ノ', "の")
+      .split('の')
+      .filter(|s| !s.is_empty())
+    {
       if let Ok(n) = s.parse::<usize>() {
         eda_numbers.push(n)
       } else {
@@ -295,6 +301,20 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         range_end_numbers.push(parse_zenkaku_num(m.as_str())?);
       }
     }
+    if let Some(m) = caps.name("eda_str_2") {
+      for s in m
+        .as_str()
+        .replace('ノ', "の")
+        .split('の')
+        .filter(|s| !s.is_empty())
+      {
+        if let Ok(n) = s.parse::<usize>() {
+          range_end_numbers.push(n)
+        } else {
+          range_end_numbers.push(parse_zenkaku_num(s)?)
+        }
+      }
+    }
     Some(ArticleNumber {
       base_number,
       eda_numbers: eda_numbers.clone(),
-- 
2.43.0


From 138aa55434c51bf0a9079c11150b7e714394a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 22/59] fix: keep the end of a range of item numbers

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 068a4e1..fa92293 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -558,12 +558,12 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
-      if let Some(m) = &caps.name("base_number_2") {
+      if let Some(m) = &caps.name("base_number2") {
         if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
           range_end_numbers.push(base_number2);
         }
       }
-      if let Some(m) = &caps.name("eda_number_2") {
+      if let Some(m) = &caps.name("eda_numbers2") {
         let eda_numbers2 = &m
           .as_str()
           .split('の')
-- 
2.43.0


From e8af89c3480b04c5b239fa91bbc099eec1a9c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:01 +0000
Subject: [PATCH 23/59] fix: read iroha item numbers one kana at a time, also
 as branch numbers

---
 src/article_number.rs | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index fa92293..9497fd5 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -444,7 +444,7 @@ impl ItemPattern {
 
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
-  let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン]+)|(?<paren_iroha_hiragana>[あ-ん]+)|(?<paren_kansuji>[一二三四五六七八九十百千万億兆京]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン]+)|(?<no_paren_iroha_hiragana>[あ-ん]+)|(?<no_paren_kansuji>[一二三四五六七八九十百千万億兆京]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
+  let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン])|(?<paren_iroha_hiragana>[あ-ん])|(?<paren_kansuji>[一二三四五六七八九十百千万億兆京]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン])|(?<no_paren_iroha_hiragana>[あ-ん])|(?<no_paren_kansuji>[一二三四五六七八九十百千万億兆京]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
   let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
@@ -498,6 +498,19 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   }
 }
 
+/// 「のロのハ」のような号の枝番号を解析する
+/// 「の」自身がいろはの番号でもあるので、区切りの「の」とその直後の番号を組にして読む
+fn parse_item_eda_numbers(str: &str) -> Option<Vec<usize>> {
+  let re_eda = Regex::new(
+    r"の(?<num>（[^）]+）|[ア-ン]|[あ-ん]|[一二三四五六七八九十百千]+|[０-９]+|[Ａ-Ｚ]+|[ａ-ｚ]+)",
+  )
+  .unwrap();
+  re_eda
+    .captures_iter(str)
+    .map(|caps| parse_item_number_base(&caps["num"]).map(|(_, n)| n))
+    .collect()
+}
+
 pub fn split_number(str: &str) -> Option<(String, String)> {
   let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]*(?<text>.+)$").unwrap();
   re.captures(str).map(|caps| {
@@ -542,39 +555,21 @@ fn check_parse_article_number() {
 }
 
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
-  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
+  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
     println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
-        m.as_str()
-          .split('の')
-          .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>()
+        parse_item_eda_numbers(m.as_str())?
       } else {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
       if let Some(m) = &caps.name("base_number2") {
-        if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
-          range_end_numbers.push(base_number2);
-        }
+        range_end_numbers.push(parse_item_number_base(m.as_str())?.1);
       }
       if let Some(m) = &caps.name("eda_numbers2") {
-        let eda_numbers2 = &m
-          .as_str()
-          .split('の')
-          .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>();
-        for v in eda_numbers2.iter() {
-          range_end_numbers.push(*v)
-        }
+        range_end_numbers.append(&mut parse_item_eda_numbers(m.as_str())?);
       }
       Some(ItemNumber {
         str: str.to_string(),
-- 
2.43.0


From c974033fa2bee3e2ca69b0c55c8066b184765a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:07 +0000
Subject: [PATCH 24/59] fix: read and write the roman numeral V, and letters
 beside numerals as letters

---
 src/article_number.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 9497fd5..6d5bbd7 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -445,7 +445,7 @@ impl ItemPattern {
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
   let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン])|(?<paren_iroha_hiragana>[あ-ん])|(?<paren_kansuji>[一二三四五六七八九十百千万億兆京]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン])|(?<no_paren_iroha_hiragana>[あ-ん])|(?<no_paren_kansuji>[一二三四五六七八九十百千万億兆京]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
-  let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
+  let re_is_roman = Regex::new(r"^[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+$").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
       (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
@@ -840,14 +840,17 @@ fn parse_roman(str: &str) -> Option<usize> {
   roman::from(
     &str
       .replace('i', "I")
+      .replace('v', "V")
       .replace('x', "X")
       .replace('l', "L")
       .replace('c', "C")
       .replace('ｉ', "I")
+      .replace('ｖ', "V")
       .replace('ｘ', "X")
       .replace('ｌ', "L")
       .replace('ｃ', "C")
       .replace('Ｉ', "I")
+      .replace('Ｖ', "V")
       .replace('Ｘ', "X")
       .replace('Ｌ', "L")
       .replace('Ｃ', "C"),
@@ -858,18 +861,24 @@ fn parse_roman(str: &str) -> Option<usize> {
 fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "Ｉ")
+      .replace('V', "Ｖ")
       .replace('X', "Ｘ")
       .replace('L', "Ｌ")
       .replace('C', "Ｃ")
+      .replace('D', "Ｄ")
+      .replace('M', "Ｍ")
   })
 }
 
 fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "ｉ")
+      .replace('V', "ｖ")
       .replace('X', "ｘ")
       .replace('L', "ｌ")
       .replace('C', "ｃ")
+      .replace('D', "ｄ")
+      .replace('M', "ｍ")
   })
 }
 
-- 
2.43.0


From d1dbcf186a0921ad272a5fa8f8d70fec3b503453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:12 +0000
Subject: [PATCH 25/59] fix: do not swap upper and lower case of roman numerals
 in parentheses

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 6d5bbd7..71a0a66 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -400,10 +400,10 @@ impl ItemPattern {
       }
       ItemPattern::ParenZenkakuNum => format!("（{}）", to_zenkaku_num(n)),
       ItemPattern::ParenZenkakuRomanUpper => {
-        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
       }
       ItemPattern::ParenZenkakuRomanLower => {
-        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
       }
       ItemPattern::ParenZenkakuUpper => {
         format!("（{}）", to_zenkaku_alphabet_upper(n))
-- 
2.43.0


From fbf039fb3669cbcb940edc49b22bec2ad2242c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:18 +0000
Subject: [PATCH 26/59] fix: write item letters as letters instead of panicking

---
 src/article_number.rs | 52 ++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 71a0a66..c0b2ed5 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -882,42 +882,38 @@ fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   })
 }
 
+/// Ａ＝１、…、Ｚ＝２６、ＡＡ＝２７、…と数える
 fn parse_zenkaku_alphabet(str: &str) -> Option<usize> {
-  let s = str
-    .chars()
-    .map(|c| {
-      let v = c as u32;
-      let n =
-    // 大文字
-    if v < 0xFF41 {
-      v - 0xFF20
-    } else {
-      v - 0xFF40
+  str.chars().try_fold(0_usize, |n, c| {
+    let d = match c {
+      // 大文字
+      'Ａ'..='Ｚ' => c as usize - 'Ａ' as usize + 1,
+      // 小文字
+      'ａ'..='ｚ' => c as usize - 'ａ' as usize + 1,
+      _ => return None,
     };
-      n.to_string()
-    })
-    .collect::<String>();
-  s.parse::<usize>().ok()
+    n.checked_mul(26)?.checked_add(d)
+  })
+}
+
+/// `parse_zenkaku_alphabet`の逆で、`base`は「Ａ」か「ａ」
+fn to_zenkaku_alphabet(n: usize, base: char) -> String {
+  let mut n = n;
+  let mut chars = Vec::new();
+  while n > 0 {
+    let d = (n - 1) % 26;
+    chars.extend(char::from_u32(base as u32 + d as u32));
+    n = (n - 1) / 26;
+  }
+  chars.iter().rev().collect()
 }
 
 fn to_zenkaku_alphabet_upper(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF20, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 'Ａ')
 }
 
 fn to_zenkaku_alphabet_lower(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF40, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 'ａ')
 }
 
 #[test]
-- 
2.43.0


From ab6f3f4337654de109b55688680d7ece503e36b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:24 +0000
Subject: [PATCH 27/59] fix: do not print debugging output when parsing an item
 number

---
 src/article_number.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index c0b2ed5..1934ea9 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -557,7 +557,6 @@ fn check_parse_article_number() {
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千万億兆京]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
-    println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
         parse_item_eda_numbers(m.as_str())?
@@ -582,7 +581,6 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
       None
     }
   } else {
-    println!("err!!");
     None
   }
 }
-- 
2.43.0


From 7404cc7e98e0132aed996cd133581875ed76a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:50 +0000
Subject: [PATCH 28/59] fix: read branch numbers of items of ten thousand and
 above

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 1934ea9..99b03e2 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -502,7 +502,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
 /// 「の」自身がいろはの番号でもあるので、区切りの「の」とその直後の番号を組にして読む
 fn parse_item_eda_numbers(str: &str) -> Option<Vec<usize>> {
   let re_eda = Regex::new(
-    r"の(?<num>（[^）]+）|[ア-ン]|[あ-ん]|[一二三四五六七八九十百千]+|[０-９]+|[Ａ-Ｚ]+|[ａ-ｚ]+)",
+    r"の(?<num>（[^）]+）|[ア-ン]|[あ-ん]|[一二三四五六七八九十百千万億兆京]+|[０-９]+|[Ａ-Ｚ]+|[ａ-ｚ]+)",
   )
   .unwrap();
   re_eda
-- 
2.43.0


From 3f779a1a3ba57cdb1b670ed392efeb8a6b066458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:55 +0000
Subject: [PATCH 29/59] fix: do not take the beginning of a word for an article
 number

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 99b03e2..050ceac 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -209,9 +209,9 @@ impl FromStr for ArticleNumber {
 }
 
 pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
-  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千万億兆京]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千万億兆京]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千万億兆京]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千万億兆京]+))*))まで)?").unwrap();
+  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千万億兆京]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千万億兆京]+))*)((から|及び)(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千万億兆京]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千万億兆京]+))*))(まで)?)?$").unwrap();
   let re_paragraph = Regex::new(
-    r"^(?<num>([０-９]+|[0-9]+))(?<eda_str>((の|ノ)([０-９]+|[0-9]+))*)(から(?<num_2>([０-９]+|[0-9]+))(?<eda_str_2>((の|ノ)([０-９]+|[0-9]+))*)まで)?",
+    r"^(?<num>([０-９]+|[0-9]+))(?<eda_str>((の|ノ)([０-９]+|[0-9]+))*)(から(?<num_2>([０-９]+|[0-9]+))(?<eda_str_2>((の|ノ)([０-９]+|[0-9]+))*)まで)?$",
   )
   .unwrap();
   if let Some(caps) = re_article.captures(str) {
-- 
2.43.0


From 2c8b8ef135b986d548fcce50d134243ae4bd2f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:01 +0000
Subject: [PATCH 30/59] fix: do not split a line without a space into a number
 and a text

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 050ceac..c25678d 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -512,7 +512,7 @@ fn parse_item_eda_numbers(str: &str) -> Option<Vec<usize>> {
 }
 
 pub fn split_number(str: &str) -> Option<(String, String)> {
-  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]*(?<text>.+)$").unwrap();
+  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]+(?<text>.+)$").unwrap();
   re.captures(str).map(|caps| {
     let s = &caps["s"];
     let text = &caps["text"];
-- 
2.43.0


From 38eb803f4da31d4def738f7599ed63767aae2d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 31/59] fix: recognise supplementary provisions in a text and
 read their contents

---
 src/parse_from_text.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index af25bc6..8e69b83 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -750,6 +750,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut suppl_provision = Vec::new();
   let mut suppl_provision_children = Vec::new();
   let mut suppl_provision_law_num_opt: Option<Option<String>> = None;
+  let mut suppl_provision_extract = None;
 
   let mut caption_opt = None;
   let mut lines = lines.iter().peekable();
@@ -807,7 +808,8 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
           lines.next();
         }
       }
-      LineContents::SupplProvision(law_num) => {
+      LineContents::SupplProvision(law_num, extract) => {
+        lines.next();
         if let Some(amend_law_num) = suppl_provision_law_num_opt {
           if !suppl_provision_children.is_empty() {
             suppl_provision.push(suppl_provision::SupplProvision {
@@ -815,12 +817,15 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
               children: suppl_provision_children,
               suppl_provision_type: None,
               amend_law_num,
-              extract: None,
+              extract: suppl_provision_extract,
             })
           }
         }
         suppl_provision_law_num_opt = Some(law_num.clone());
+        suppl_provision_extract = *extract;
         suppl_provision_children = Vec::new();
+        caption_opt = None;
+        is_preamble = false;
       }
       _ => break,
     }
@@ -870,7 +875,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         children: suppl_provision_children,
         suppl_provision_type: None,
         amend_law_num,
-        extract: None,
+        extract: suppl_provision_extract,
       })
     }
   }
@@ -930,8 +935,8 @@ enum LineContents {
   /// - <https://elaws.e-gov.go.jp/document?lawid=403M50000400049#Mp-At_9>
   /// - <https://note.com/lawyer_alpaca/n/ne09c189e813b#Gcaq9>
   Item(article_number::ItemNumber, String),
-  /// 附則：附則（昭和三一年四月二日法律第六三号）
-  SupplProvision(Option<String>),
+  /// 附則：附則（昭和三一年四月二日法律第六三号）　抄
+  SupplProvision(Option<String>, Option<bool>),
   /// その他テキスト
   Text(String),
 }
@@ -941,9 +946,13 @@ fn parse_line_contents(line: &str) -> LineContents {
   let line = line.trim();
   let re_caption = Regex::new("^（(?<caption>[^）]+)）$").unwrap();
   let re_suppl_provision =
-    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?[^（）]*$").unwrap();
+    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?([　\s]*)(?<extract>抄)?$").unwrap();
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
+  } else if let Some(caps) = re_suppl_provision.captures(line) {
+    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
+    let extract = caps.name("extract").map(|_| true);
+    SupplProvision(law_num, extract)
   } else if let Some((s, text)) = split_number(line) {
     println!("{s}: {text}");
     if let Some(article_number) = article_number::parse_article_number(&s) {
@@ -968,9 +977,6 @@ fn parse_line_contents(line: &str) -> LineContents {
       println!("text!!!{s}: {text}");
       Text(line.to_string())
     }
-  } else if let Some(caps) = re_suppl_provision.captures(line) {
-    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
-    SupplProvision(law_num)
   } else {
     Text(line.to_string())
   }
-- 
2.43.0


From a8bbb44e9029353e12451917a553797d2d55c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 32/59] fix: skip blank lines of a law text

---
 src/parse_from_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 8e69b83..37bfd91 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -740,7 +740,7 @@ fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
 
 pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut lines = Vec::new();
-  for line in text.lines().map(|s| s.trim()) {
+  for line in text.lines().map(|s| s.trim()).filter(|s| !s.is_empty()) {
     let line_contents = parse_line_contents(line);
     lines.push(line_contents)
   }
-- 
2.43.0


From 92327cc8880e5735cb890d52426113b6afdb3df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:19 +0000
Subject: [PATCH 33/59] fix: return to the right level after nested items

---
 src/parse_from_text.rs | 134 ++++++++++++++++++++++++++---------------
 1 file changed, 85 insertions(+), 49 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 37bfd91..bf2c246 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -259,7 +259,7 @@ fn parse_paragraph(
     let mut subitem1 = Vec::new();
     if let Some(LineContents::Item(item_number_sub1, _)) = lines.peek() {
       if item_number_sub1.pattern != item_number.pattern {
-        subitem1 = parse_subitem1(item_number.pattern, item_number_sub1.pattern, lines);
+        subitem1 = parse_subitem1(&[item_number.pattern], item_number_sub1.pattern, lines);
       }
     }
     let item = paragraph::Item {
@@ -296,13 +296,13 @@ fn parse_paragraph(
 }
 
 fn parse_subitem1(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem1> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -313,8 +313,12 @@ fn parse_subitem1(
       }
       let mut subitem2 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem2 = parse_subitem2(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem2 = parse_subitem2(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem1 {
@@ -333,20 +337,20 @@ fn parse_subitem1(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem2(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem2> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -357,8 +361,12 @@ fn parse_subitem2(
       }
       let mut subitem3 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem3 = parse_subitem3(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem3 = parse_subitem3(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem2 {
@@ -377,20 +385,20 @@ fn parse_subitem2(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem3(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem3> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -401,8 +409,12 @@ fn parse_subitem3(
       }
       let mut subitem4 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem4 = parse_subitem4(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem4 = parse_subitem4(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem3 {
@@ -421,20 +433,20 @@ fn parse_subitem3(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem4(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem4> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -445,8 +457,12 @@ fn parse_subitem4(
       }
       let mut subitem5 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem5 = parse_subitem5(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem5 = parse_subitem5(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem4 {
@@ -465,20 +481,20 @@ fn parse_subitem4(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem5(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem5> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -489,8 +505,12 @@ fn parse_subitem5(
       }
       let mut subitem6 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem6 = parse_subitem6(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem6 = parse_subitem6(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem5 {
@@ -509,20 +529,20 @@ fn parse_subitem5(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem6(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem6> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -533,8 +553,12 @@ fn parse_subitem6(
       }
       let mut subitem7 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem7 = parse_subitem7(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem7 = parse_subitem7(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem6 {
@@ -553,20 +577,20 @@ fn parse_subitem6(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem7(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem7> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -577,8 +601,12 @@ fn parse_subitem7(
       }
       let mut subitem8 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem8 = parse_subitem8(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem8 = parse_subitem8(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem7 {
@@ -597,20 +625,20 @@ fn parse_subitem7(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem8(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem8> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -621,8 +649,12 @@ fn parse_subitem8(
       }
       let mut subitem9 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem9 = parse_subitem9(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem9 = parse_subitem9(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem8 {
@@ -641,20 +673,20 @@ fn parse_subitem8(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem9(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem9> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -665,8 +697,12 @@ fn parse_subitem9(
       }
       let mut subitem10 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem10 = parse_subitem10(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem10 = parse_subitem10(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem9 {
@@ -685,20 +721,20 @@ fn parse_subitem9(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem10(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem10> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -722,7 +758,7 @@ fn parse_subitem10(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
-- 
2.43.0


From 2c16208a880a3c4d07858b30fb5fa7c15a875449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 34/59] fix: read divisions directly in a section

---
 src/parse_from_text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index bf2c246..df21309 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -115,6 +115,12 @@ fn parse_section(
         children.push(article::SectionContents::Subsection(subsec));
         caption_opt = None;
       }
+      Some(LineContents::Division(n, title)) => {
+        lines.next();
+        let div = parse_division(n, title, lines);
+        children.push(article::SectionContents::Division(div));
+        caption_opt = None;
+      }
       _ => break,
     }
   }
-- 
2.43.0


From 53d00337442fcefa5e6d80e5fe8928ae3579bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:32 +0000
Subject: [PATCH 35/59] fix: place paragraphs without an article, and report
 lines that cannot be placed instead of dropping them or looping forever

---
 src/parse_from_text.rs | 113 ++++++++++++++++++++++++++++++++---------
 1 file changed, 88 insertions(+), 25 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index df21309..3aab66b 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -15,9 +15,9 @@ fn parse_part(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         lines.next();
         caption_opt = Some(cap);
       }
@@ -56,9 +56,9 @@ fn parse_chapter(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         lines.next();
         caption_opt = Some(cap);
       }
@@ -97,9 +97,9 @@ fn parse_section(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         lines.next();
         caption_opt = Some(cap);
       }
@@ -144,9 +144,9 @@ fn parse_subsection(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         caption_opt = Some(cap);
         lines.next();
       }
@@ -185,9 +185,9 @@ fn parse_division(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         caption_opt = Some(cap);
         lines.next();
       }
@@ -209,6 +209,16 @@ fn parse_division(
   }
 }
 
+/// 見出しの次の行が条であるかどうか
+fn is_article_caption(lines: &std::iter::Peekable<std::slice::Iter<LineContents>>) -> bool {
+  matches!(lines.clone().nth(1), Some(LineContents::Article(_, _)))
+}
+
+/// 見出しの次の行が項であるかどうか
+fn is_paragraph_caption(lines: &std::iter::Peekable<std::slice::Iter<LineContents>>) -> bool {
+  matches!(lines.clone().nth(1), Some(LineContents::Paragraph(_, _)))
+}
+
 fn parse_article(
   caption_opt: Option<&String>,
   n: &ArticleNumber,
@@ -219,12 +229,29 @@ fn parse_article(
     text: text::Text::from_value(s),
     common_caption: None,
   });
-  let para = parse_paragraph(&ArticleNumber::from_num_str("1").unwrap(), text, lines);
+  let para = parse_paragraph(
+    None,
+    &ArticleNumber::from_num_str("1").unwrap(),
+    text,
+    lines,
+  );
   let mut paragraph = vec![para];
-  while let Some(LineContents::Paragraph(n, text)) = lines.peek() {
-    lines.next();
-    let para = parse_paragraph(n, text, lines);
-    paragraph.push(para)
+  let mut paragraph_caption = None;
+  loop {
+    let next = lines.peek().copied();
+    match next {
+      Some(LineContents::Caption(cap)) if is_paragraph_caption(lines) => {
+        lines.next();
+        paragraph_caption = Some(cap);
+      }
+      Some(LineContents::Paragraph(n, text)) => {
+        lines.next();
+        let para = parse_paragraph(paragraph_caption, n, text, lines);
+        paragraph.push(para);
+        paragraph_caption = None;
+      }
+      _ => break,
+    }
   }
   let article = article::Article {
     caption,
@@ -239,6 +266,7 @@ fn parse_article(
 }
 
 fn parse_paragraph(
+  caption_opt: Option<&String>,
   n: &ArticleNumber,
   text: &str,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
@@ -287,7 +315,10 @@ fn parse_paragraph(
   }
 
   paragraph::Paragraph {
-    caption: None,
+    caption: caption_opt.map(|s| class::Caption {
+      text: text::Text::from_value(s),
+      common_caption: None,
+    }),
     paragraph_num: text::Text::new(), // TODO 謎
     amend_provision: Vec::new(),
     class: Vec::new(),
@@ -797,9 +828,9 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut caption_opt = None;
   let mut lines = lines.iter().peekable();
 
-  while let Some(line_contents) = lines.peek() {
+  while let Some(line_contents) = lines.peek().copied() {
     match line_contents {
-      LineContents::Part(n, text) => {
+      LineContents::Part(n, text) if suppl_provision_law_num_opt.is_none() => {
         lines.next();
         let part = parse_part(n, text, &mut lines);
         main_provision_children.push(law::MainProvisionContents::Part(part));
@@ -819,18 +850,22 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Section(n, text) => {
+      LineContents::Section(n, text) if suppl_provision_law_num_opt.is_none() => {
         lines.next();
         let sec = parse_section(n, text, &mut lines);
         main_provision_children.push(law::MainProvisionContents::Section(sec));
         caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Caption(cap) => {
+      LineContents::Caption(cap) if is_article_caption(&lines) || is_paragraph_caption(&lines) => {
         caption_opt = Some(cap);
         is_preamble = false;
         lines.next();
       }
+      LineContents::Caption(cap) if is_preamble => {
+        preamble_text_list.push(format!("（{cap}）"));
+        lines.next();
+      }
       LineContents::Article(n, text) => {
         lines.next();
         let article = parse_article(caption_opt, n, text, &mut lines);
@@ -844,11 +879,33 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Text(s) => {
-        if is_preamble {
-          preamble_text_list.push(s.to_string());
-          lines.next();
+      LineContents::Paragraph(n, text) => {
+        lines.next();
+        let para = parse_paragraph(caption_opt, n, text, &mut lines);
+        if suppl_provision_law_num_opt.is_some() {
+          suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+            para,
+          ))
+        } else {
+          main_provision_children.push(law::MainProvisionContents::Paragraph(para));
         }
+        caption_opt = None;
+        is_preamble = false;
+      }
+      LineContents::Text(s) if is_preamble => {
+        preamble_text_list.push(s.to_string());
+        lines.next();
+      }
+      // 項番号の無い1項だけの附則
+      LineContents::Text(s)
+        if suppl_provision_law_num_opt.is_some() && suppl_provision_children.is_empty() =>
+      {
+        lines.next();
+        let num = ArticleNumber::from_num_str("1")?;
+        let para = parse_paragraph(None, &num, s, &mut lines);
+        suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+          para,
+        ));
       }
       LineContents::SupplProvision(law_num, extract) => {
         lines.next();
@@ -869,7 +926,13 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
-      _ => break,
+      // どこにも置けない行を読み捨てない
+      _ => {
+        return Err(Error::ParsingError(
+          "law text".to_string(),
+          format!("{line_contents:?}"),
+        ))
+      }
     }
   }
 
-- 
2.43.0


From 6780c0c1b6be936c7f8686e182dde041178ce5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:38 +0000
Subject: [PATCH 36/59] fix: do not print debugging output when parsing a law
 text

---
 src/parse_from_text.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 3aab66b..2205460 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -1059,7 +1059,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     let extract = caps.name("extract").map(|_| true);
     SupplProvision(law_num, extract)
   } else if let Some((s, text)) = split_number(line) {
-    println!("{s}: {text}");
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
         Part(article_number, text)
@@ -1079,7 +1078,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else if let Some(item_number) = article_number::parse_item_number(&s) {
       Item(item_number, text)
     } else {
-      println!("text!!!{s}: {text}");
       Text(line.to_string())
     }
   } else {
-- 
2.43.0


From f4980582c527f914f988cb787714ed0d8106e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:43 +0000
Subject: [PATCH 37/59] fix: count the paragraphs of a preamble from one

---
 src/parse_from_text.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 2205460..2354645 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -943,9 +943,9 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       .iter()
       .enumerate()
       .map(|(n, s)| {
-        let sentence = text_to_sentence(0, s);
+        let sentence = text_to_sentence(1, s);
         let num = ArticleNumber {
-          base_number: n,
+          base_number: n + 1,
           eda_numbers: Vec::new(),
           range_end_numbers: Vec::new(),
         };
-- 
2.43.0


From f7d129f1f2f5d81cd62734723ca39d676332d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:48 +0000
Subject: [PATCH 38/59] fix: report an invalid date as an error instead of
 panicking

---
 src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3667f16..706602c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -93,13 +93,17 @@ pub fn parse_text(
   law_num: String,
   title: &str,
 ) -> Result<law::Law> {
+  let month_num = month.unwrap_or(1);
+  let day_num = day.unwrap_or(1);
+  let date_error =
+    || Error::ParsingError("date".to_string(), format!("{year}-{month_num}-{day_num}"));
   let date = Date::from_ymd(
-    year as i32,
-    month.unwrap_or(1) as u32,
-    day.unwrap_or(1) as u32,
+    i32::try_from(year).map_err(|_| date_error())?,
+    u32::try_from(month_num).map_err(|_| date_error())?,
+    u32::try_from(day_num).map_err(|_| date_error())?,
   )
-  .unwrap();
-  let e = era(&date).unwrap();
+  .map_err(|_| date_error())?;
+  let e = era(&date).ok_or_else(date_error)?;
   let era = match e.name().as_str() {
     "明治" => law::Era::Meiji,
     "大正" => law::Era::Taisho,
-- 
2.43.0


From dc851859b149d30811bb55242c5574a8b9d058b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 39/59] fix: store the year of the era, as in the XML, for a
 law parsed from a text

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 706602c..da2c063 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -115,7 +115,7 @@ pub fn parse_text(
   let body = parse_from_text::parse_body(title, text)?;
   Ok(law::Law {
     era,
-    year,
+    year: e.year() as usize,
     num,
     promulgate_month: month,
     promulgate_day: day,
-- 
2.43.0


From cacd79ed7b1354e188254231e11dee4d90ef6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:03 +0000
Subject: [PATCH 40/59] fix: read item letters that look like roman numerals as
 letters within a list of letters

---
 src/article_number.rs  | 26 ++++++++++++++++++++++++++
 src/parse_from_text.rs | 25 +++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/src/article_number.rs b/src/article_number.rs
index c25678d..4ffed55 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -337,6 +337,32 @@ pub struct ItemNumber {
   pub pattern: ItemPattern,
 }
 
+impl ItemNumber {
+  /// 1文字のローマ数字と解析されたものをアルファベットとして読み直す
+  pub(crate) fn as_alphabet(&self) -> Option<Self> {
+    let pattern = match self.pattern {
+      ItemPattern::NoParenZenkakuRomanUpper => ItemPattern::NoParenZenkakuUpper,
+      ItemPattern::NoParenZenkakuRomanLower => ItemPattern::NoParenZenkakuLower,
+      ItemPattern::ParenZenkakuRomanUpper => ItemPattern::ParenZenkakuUpper,
+      ItemPattern::ParenZenkakuRomanLower => ItemPattern::ParenZenkakuLower,
+      _ => return None,
+    };
+    let letters = self
+      .str
+      .chars()
+      .filter(|c| matches!(c, 'Ａ'..='Ｚ' | 'ａ'..='ｚ'))
+      .collect::<String>();
+    match parse_zenkaku_alphabet(&letters) {
+      Some(base_number @ 1..=26) => Some(ItemNumber {
+        pattern,
+        base_number,
+        ..self.clone()
+      }),
+      _ => None,
+    }
+  }
+}
+
 /// 号の数字を表す記号の種類
 #[derive(Clone, Copy, Debug, Deserialize, Serialize, PartialEq, Eq, Hash)]
 pub enum ItemPattern {
diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 2354645..280ea23 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -817,6 +817,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
     let line_contents = parse_line_contents(line);
     lines.push(line_contents)
   }
+  resolve_alphabet_items(&mut lines);
   let mut preamble_text_list: Vec<String> = Vec::new();
   let mut is_preamble = true;
   let mut main_provision_children = Vec::new();
@@ -1008,6 +1009,30 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   })
 }
 
+/// 「ｃ」や「ｉ」はローマ数字にもアルファベットにも読める
+/// 直前の同じ形のアルファベットの号に続く文字であればアルファベットとして読み直す
+fn resolve_alphabet_items(lines: &mut [LineContents]) {
+  let mut last: Vec<(ItemPattern, usize)> = Vec::new();
+  for line in lines.iter_mut() {
+    match line {
+      LineContents::Item(item_number, _) => {
+        if let Some(alphabet) = item_number.as_alphabet() {
+          if last.contains(&(alphabet.pattern, alphabet.base_number - 1)) {
+            *item_number = alphabet;
+          }
+        }
+        // 浅い階層に戻ったときは、それより深い階層の号の続きではない
+        if let Some(depth) = last.iter().position(|(p, _)| *p == item_number.pattern) {
+          last.truncate(depth);
+        }
+        last.push((item_number.pattern, item_number.base_number));
+      }
+      LineContents::Text(_) => (),
+      _ => last.clear(),
+    }
+  }
+}
+
 /// 各行が何に当てはまるのかの種類
 #[derive(Clone, Debug, PartialEq, Eq)]
 enum LineContents {
-- 
2.43.0


From c62a53deb961c7df65099fd28cc93ffc4876d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:01 +0000
Subject: [PATCH 41/59] fix: give listed articles the numbers of their own
 part, chapter, section and subsection

---
 src/utils.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6b1029d..96e925c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -211,7 +211,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_part(Some(t.num.clone()));
+            w.set_part(Some(part.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -219,7 +219,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
       }
       PartContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_part(Some(t.num.clone()));
+        w.set_part(Some(part.num.clone()));
         v.push(w)
       }
     }
@@ -227,16 +227,16 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
+fn article_list_from_chapter(chapter: &Chapter) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in chapter.children.iter() {
     match contents {
       ChapterContents::Section(t) => {
         let mut v2 = article_list_from_section(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_chapter(Some(t.num.clone()));
+            w.set_chapter(Some(chapter.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -244,7 +244,7 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
       }
       ChapterContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_chapter(Some(t.num.clone()));
+        w.set_chapter(Some(chapter.num.clone()));
         v.push(w)
       }
     }
@@ -252,16 +252,16 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
+fn article_list_from_section(section: &Section) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in section.children.iter() {
     match contents {
       SectionContents::Subsection(t) => {
         let mut v2 = article_list_from_subsection(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -272,7 +272,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -280,7 +280,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
       }
       SectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_section(Some(t.num.clone()));
+        w.set_section(Some(section.num.clone()));
         v.push(w)
       }
     }
@@ -289,16 +289,16 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
 }
 
 #[allow(clippy::too_many_arguments)]
-fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
+fn article_list_from_subsection(subsection: &Subsection) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in subsection.children.iter() {
     match contents {
       SubsectionContents::Division(t) => {
         let mut v2 = article_list_from_division(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_subsection(Some(t.num.clone()));
+            w.set_subsection(Some(subsection.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -306,7 +306,7 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
       }
       SubsectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_subsection(Some(t.num.clone()));
+        w.set_subsection(Some(subsection.num.clone()));
         v.push(w)
       }
     }
@@ -315,11 +315,11 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
 }
 
 #[allow(clippy::too_many_arguments)]
-fn article_list_from_division(t: &Division) -> Vec<WithNumberArticle> {
+fn article_list_from_division(division: &Division) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for a in t.children.iter() {
+  for a in division.children.iter() {
     let mut w = WithNumberArticle::new(a.clone());
-    w.set_division(Some(t.num.clone()));
+    w.set_division(Some(division.num.clone()));
     v.push(w)
   }
   v
-- 
2.43.0


From 9854263f4c3175c5aef2dd73a6ac205fe5d9caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:06 +0000
Subject: [PATCH 42/59] fix: store the article number of a table of contents
 entry as such

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 96e925c..ab011a7 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -940,7 +940,7 @@ impl Toc {
     self.division_number = num;
   }
   pub fn set_article(&mut self, num: Option<ArticleNumber>) {
-    self.division_number = num;
+    self.article_number = num;
   }
   pub fn set_title(&mut self, title: Option<String>) {
     self.title = title;
-- 
2.43.0


From 3497830fa34f1a4f7c8070abe3287ac52cf8e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 43/59] fix: do not carry numbers over from earlier siblings in
 the table of contents list

---
 src/utils.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index ab011a7..4c86629 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1027,6 +1027,7 @@ fn toc_list_from_part(t: &Part) -> Vec<Toc> {
   toc.set_title(Some(t.part_title.to_string()));
   v.push(toc.clone());
   for children in t.children.iter() {
+    let mut toc = toc.clone();
     match children {
       PartContents::Article(t) => {
         toc.set_article(Some(t.num.clone()));
@@ -1049,6 +1050,7 @@ fn toc_list_from_chapter(t: &Chapter, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.chapter_title.to_string()));
   v.push(toc.clone());
   for children in t.children.iter() {
+    let mut toc = toc.clone();
     match children {
       ChapterContents::Article(t) => {
         toc.set_article(Some(t.num.clone()));
@@ -1056,7 +1058,7 @@ fn toc_list_from_chapter(t: &Chapter, toc: &mut Toc) -> Vec<Toc> {
         v.push(toc.clone());
       }
       ChapterContents::Section(t) => {
-        let mut toc_list = toc_list_from_section(t, &mut toc.clone());
+        let mut toc_list = toc_list_from_section(t, &mut toc);
         v.append(&mut toc_list);
       }
     }
@@ -1071,6 +1073,7 @@ fn toc_list_from_section(t: &Section, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.section_title.to_string()));
   v.push(toc.clone());
   for children in t.children.iter() {
+    let mut toc = toc.clone();
     match children {
       SectionContents::Article(t) => {
         toc.set_article(Some(t.num.clone()));
@@ -1078,11 +1081,11 @@ fn toc_list_from_section(t: &Section, toc: &mut Toc) -> Vec<Toc> {
         v.push(toc.clone());
       }
       SectionContents::Subsection(t) => {
-        let mut toc_list = toc_list_from_subsection(t, &mut toc.clone());
+        let mut toc_list = toc_list_from_subsection(t, &mut toc);
         v.append(&mut toc_list);
       }
       SectionContents::Division(t) => {
-        let mut toc_list = toc_list_from_division(t, &mut toc.clone());
+        let mut toc_list = toc_list_from_division(t, &mut toc);
         v.append(&mut toc_list);
       }
     }
@@ -1097,6 +1100,7 @@ fn toc_list_from_subsection(t: &Subsection, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.subsection_title.to_string()));
   v.push(toc.clone());
   for children in t.children.iter() {
+    let mut toc = toc.clone();
     match children {
       SubsectionContents::Article(t) => {
         toc.set_article(Some(t.num.clone()));
@@ -1104,7 +1108,7 @@ fn toc_list_from_subsection(t: &Subsection, toc: &mut Toc) -> Vec<Toc> {
         v.push(toc.clone());
       }
       SubsectionContents::Division(t) => {
-        let mut toc_list = toc_list_from_division(t, &mut toc.clone());
+        let mut toc_list = toc_list_from_division(t, &mut toc);
         v.append(&mut toc_list);
       }
     }
@@ -1119,6 +1123,7 @@ fn toc_list_from_division(t: &Division, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.division_title.to_string()));
   v.push(toc.clone());
   for t in t.children.iter() {
+    let mut toc = toc.clone();
     toc.set_article(Some(t.num.clone()));
     toc.set_title(Some(t.title.to_string()));
     v.push(toc.clone());
-- 
2.43.0


From 846576a9513c6384289a151edb35cb211740ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:15 +0000
Subject: [PATCH 44/59] fix: include the text of a table in a sixth level
 subitem

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 4c86629..6cd7b7b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -629,7 +629,7 @@ fn text_list_from_subitem6(
         })
         .collect::<Vec<_>>()
         .join(" "),
-      SentenceOrColumnOrTable::Table(_) => String::new(),
+      SentenceOrColumnOrTable::Table(table) => table_to_str(table),
     };
     v.push((
       TextIndex {
-- 
2.43.0


From a51c1d8334b6e341ce908241a7e0d4893e6d28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:03 +0000
Subject: [PATCH 45/59] fix: take a Line without Style for a solid line, its
 default, instead of rejecting or dropping it

---
 src/line.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 0191e5c..d8ac9d5 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -106,7 +106,9 @@ impl LineStyle {
       Some("none") => Some(LineStyle::None),
       Some("dotted") => Some(LineStyle::Dotted),
       Some("double") => Some(LineStyle::Double),
-      _ => None,
+      // 属性が無い場合の既定値
+      None => Some(LineStyle::Solid),
+      Some(_) => None,
     }
   }
 
-- 
2.43.0


From 590524bae4e79b2b0fbb41cb3508320eea7b4283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:18 +0000
Subject: [PATCH 46/59] fix: report unexpected or malformed elements within a
 title instead of dropping them silently

---
 src/appdx.rs             | 14 +++++-----
 src/article.rs           | 14 +++++-----
 src/class.rs             |  4 +--
 src/law.rs               | 22 ++++++---------
 src/paragraph.rs         | 24 ++++++++--------
 src/remarks.rs           |  2 +-
 src/structs.rs           |  8 +++---
 src/suppl_provision.rs   | 10 +++----
 src/table.rs             |  2 +-
 src/table_of_contents.rs | 32 ++++++++++-----------
 src/text.rs              | 60 ++++++++++++++++++++++------------------
 11 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index d739d31..a818423 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -36,7 +36,7 @@ impl Parser for AppdxTable {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => related_article_num = Some(Text::from_element(e)?),
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
               children.push(AppdxTableContents::TableStruct(v))
@@ -125,7 +125,7 @@ impl Parser for AppdxNote {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => related_article_num = Some(Text::from_element(e)?),
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
               children.push(AppdxNoteContents::TableStruct(v))
@@ -220,7 +220,7 @@ impl Parser for AppdxStyle {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => related_article_num = Some(Text::from_element(e)?),
             "StyleStruct" => {
               let v = StyleStruct::parser(e)?;
               children.push(v)
@@ -296,7 +296,7 @@ impl Parser for AppdxFormat {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => related_article_num = Some(Text::from_element(e)?),
             "FormatStruct" => {
               let v = FormatStruct::parser(e)?;
               children.push(v)
@@ -365,8 +365,8 @@ impl Parser for Appdx {
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
-            "ArithFormulaNum" => arith_formula_num = Some(Text::from_children(&e.children)),
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "ArithFormulaNum" => arith_formula_num = Some(Text::from_element(e)?),
+            "RelatedArticleNum" => related_article_num = Some(Text::from_element(e)?),
             "ArithFormula" => {
               let v = ArithFormula::parser(e)?;
               arith_formula.push(v)
@@ -436,7 +436,7 @@ impl Parser for AppdxFig {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => related_article_num = Some(Text::from_element(e)?),
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
               children.push(AppdxFigContents::TableStruct(v))
diff --git a/src/article.rs b/src/article.rs
index baec35f..7037121 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -63,7 +63,7 @@ impl Parser for Part {
         .ok_or(Error::missing_required_tag("PartTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "PartTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::from_element(title_element)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -181,7 +181,7 @@ impl Parser for Chapter {
         .ok_or(Error::missing_required_tag("ChapterTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "ChapterTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::from_element(title_element)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -299,7 +299,7 @@ impl Parser for Section {
         .ok_or(Error::missing_required_tag("SectionTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "SectionTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::from_element(title_element)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -425,7 +425,7 @@ impl Parser for Subsection {
         .ok_or(Error::missing_required_tag("SubsectionTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "SubsectionTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::from_element(title_element)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -545,7 +545,7 @@ impl Parser for Division {
         .ok_or(Error::missing_required_tag("DivisionTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "DivisionTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::from_element(title_element)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -661,7 +661,7 @@ impl Parser for Article {
               caption = Some(v);
             }
             "ArticleTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::from_element(e)?;
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -676,7 +676,7 @@ impl Parser for Article {
               let v = Paragraph::parser(e)?;
               paragraph.push(v);
             }
-            "SupplNote" => suppl_note = Some(Text::from_children(&e.children)),
+            "SupplNote" => suppl_note = Some(Text::from_element(e)?),
 
             s => return Err(Error::unexpected_tag(element, s)),
           }
diff --git a/src/class.rs b/src/class.rs
index 2de1478..ac9c748 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -31,7 +31,7 @@ impl Parser for Class {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ClassTitle" => {
-              class_title = Some(Text::from_children(&e.children));
+              class_title = Some(Text::from_element(e)?);
             }
             "ClassSentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -170,7 +170,7 @@ impl Caption {
 
 impl Parser for Caption {
   fn parser(element: &Element) -> Result<Self> {
-    let text = text::Text::from_children(&element.children);
+    let text = text::Text::from_element(element)?;
     let common_caption = get_attribute_opt_with_parse::<bool>(element, "CommonCaption")?;
     Ok(Caption::new(text, common_caption))
   }
diff --git a/src/law.rs b/src/law.rs
index 9286793..8e660b2 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -356,7 +356,7 @@ impl Parser for LawBody {
               let v = LawTitle::parser(e)?;
               law_title = Some(v);
             }
-            "EnactStatement" => enact_statement.push(Text::from_children(&e.children)),
+            "EnactStatement" => enact_statement.push(Text::from_element(e)?),
             "TOC" => {
               let v = TOC::parser(e)?;
               toc = Some(v);
@@ -492,7 +492,7 @@ impl Parser for LawTitle {
       let kana = get_attribute_opt_with_parse(element, "Kana")?;
       let abbrev = get_attribute_opt_with_parse(element, "Abbrev")?;
       let abbrev_kana = get_attribute_opt_with_parse(element, "AbbrevKana")?;
-      let text = Text::from_children(&element.children);
+      let text = Text::from_element(element)?;
       Ok(LawTitle {
         kana,
         abbrev,
@@ -689,48 +689,42 @@ impl Parser for AmendProvision {
                       new_provision.push(NewProvision::Part(v));
                     }
                     "PartTitle" => {
-                      new_provision.push(NewProvision::PartTitle(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::PartTitle(Text::from_element(e)?));
                     }
                     "Chapter" => {
                       let v = Chapter::parser(e)?;
                       new_provision.push(NewProvision::Chapter(v));
                     }
                     "ChapterTitle" => {
-                      new_provision
-                        .push(NewProvision::ChapterTitle(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::ChapterTitle(Text::from_element(e)?));
                     }
                     "Section" => {
                       let v = Section::parser(e)?;
                       new_provision.push(NewProvision::Section(v));
                     }
                     "SectionTitle" => {
-                      new_provision
-                        .push(NewProvision::SectionTitle(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::SectionTitle(Text::from_element(e)?));
                     }
                     "Subsection" => {
                       let v = Subsection::parser(e)?;
                       new_provision.push(NewProvision::Subsection(v));
                     }
                     "SubsectionTitle" => {
-                      new_provision.push(NewProvision::SubsectionTitle(Text::from_children(
-                        &e.children,
-                      )));
+                      new_provision.push(NewProvision::SubsectionTitle(Text::from_element(e)?));
                     }
                     "Division" => {
                       let v = Division::parser(e)?;
                       new_provision.push(NewProvision::Division(v));
                     }
                     "DivisionTitle" => {
-                      new_provision.push(NewProvision::DivisionTitle(Text::from_children(
-                        &e.children,
-                      )));
+                      new_provision.push(NewProvision::DivisionTitle(Text::from_element(e)?));
                     }
                     "Article" => {
                       let v = Article::parser(e)?;
                       new_provision.push(NewProvision::Article(v));
                     }
                     "SupplNote" => {
-                      new_provision.push(NewProvision::SupplNote(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::SupplNote(Text::from_element(e)?));
                     }
                     "Paragraph" => {
                       let v = Paragraph::parser(e)?;
diff --git a/src/paragraph.rs b/src/paragraph.rs
index eb8c017..3471e75 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -51,7 +51,7 @@ impl Parser for Paragraph {
               caption = Some(v);
             }
             "ParagraphNum" => {
-              paragraph_num = Text::from_children(&e.children);
+              paragraph_num = Text::from_element(e)?;
             }
             "ParagraphSentence" => {
               for node in e.children.iter() {
@@ -208,7 +208,7 @@ impl Parser for Item {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ItemTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "ItemSentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -354,7 +354,7 @@ impl Parser for Subitem1 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem1Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem1Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -500,7 +500,7 @@ impl Parser for Subitem2 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem2Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem2Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -646,7 +646,7 @@ impl Parser for Subitem3 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem3Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem3Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -792,7 +792,7 @@ impl Parser for Subitem4 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem4Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem4Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -938,7 +938,7 @@ impl Parser for Subitem5 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem5Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem5Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1084,7 +1084,7 @@ impl Parser for Subitem6 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem6Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem6Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1230,7 +1230,7 @@ impl Parser for Subitem7 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem7Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem7Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1376,7 +1376,7 @@ impl Parser for Subitem8 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem8Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem8Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1522,7 +1522,7 @@ impl Parser for Subitem9 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem9Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem9Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1664,7 +1664,7 @@ impl Parser for Subitem10 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem10Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Subitem10Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
diff --git a/src/remarks.rs b/src/remarks.rs
index 3ce447c..568c97f 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -82,7 +82,7 @@ impl Parser for RemarksLabel {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "RemarksLabel" {
       let line_break = get_attribute_opt_with_parse(element, "LineBreak")?.unwrap_or(false);
-      let text = Text::from_children(&element.children);
+      let text = Text::from_element(element)?;
       Ok(RemarksLabel { text, line_break })
     } else {
       Err(Error::wrong_tag_name(element, "RemarksLabel"))
diff --git a/src/structs.rs b/src/structs.rs
index c20ac56..19ecd78 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -80,7 +80,7 @@ impl Parser for NoteStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "NoteStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Remarks" => {
               let r = Remarks::parser(e)?;
@@ -155,7 +155,7 @@ impl Parser for StyleStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "StyleStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Remarks" => {
               let r = Remarks::parser(e)?;
@@ -230,7 +230,7 @@ impl Parser for FormatStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "FormatStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Remarks" => {
               let r = Remarks::parser(e)?;
@@ -305,7 +305,7 @@ impl Parser for FigStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "FigStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::from_element(e)?);
             }
             "Remarks" => {
               let r = Remarks::parser(e)?;
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index a013743..482ecbd 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -44,7 +44,7 @@ impl Parser for SupplProvision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SupplProvisionLabel" => {
-              label = Text::from_children(&e.children);
+              label = Text::from_element(e)?;
             }
             "Chapter" => {
               let v = Chapter::parser(e)?;
@@ -176,7 +176,7 @@ impl Parser for SupplProvisionAppdxTable {
               title = Some(v);
             }
             "RelatedArticleNum" => {
-              related_article_num = Some(Text::from_children(&e.children));
+              related_article_num = Some(Text::from_element(e)?);
             }
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
@@ -250,7 +250,7 @@ impl Parser for SupplProvisionAppdxStyle {
               title = Some(v);
             }
             "RelatedArticleNum" => {
-              related_article_num = Some(Text::from_children(&e.children));
+              related_article_num = Some(Text::from_element(e)?);
             }
             "StyleStruct" => {
               let v = StyleStruct::parser(e)?;
@@ -320,10 +320,10 @@ impl Parser for SupplProvisionAppdx {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ArithFormulaNum" => {
-              arith_formula_num = Some(Text::from_children(&e.children));
+              arith_formula_num = Some(Text::from_element(e)?);
             }
             "RelatedArticleNum" => {
-              related_article_num = Some(Text::from_children(&e.children));
+              related_article_num = Some(Text::from_element(e)?);
             }
             "ArithFormula" => {
               let v = ArithFormula::parser(e)?;
diff --git a/src/table.rs b/src/table.rs
index c6c4690..863660a 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -86,7 +86,7 @@ impl Parser for TableHeaderRow {
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           if e.name.as_str() == "TableHeaderColumn" {
-            let text = Text::from_children(&e.children);
+            let text = Text::from_element(e)?;
             columns.push(text);
           } else {
             return Err(Error::wrong_tag_name(e, "TableHeaderColumn"));
diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 9fffb87..02909f9 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -36,10 +36,10 @@ impl Parser for TOC {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "TOCLabel" => {
-              label = Some(Text::from_children(&e.children));
+              label = Some(Text::from_element(e)?);
             }
             "TOCPreambleLabel" => {
-              preamble_label = Some(Text::from_children(&e.children));
+              preamble_label = Some(Text::from_element(e)?);
             }
             "TOCPart" => {
               let v = TOCPart::parser(e)?;
@@ -62,7 +62,7 @@ impl Parser for TOC {
               suppl_provision = Some(v);
             }
             "TOCAppdxTableLabel" => {
-              appdx_table_lable.push(Text::from_children(&e.children));
+              appdx_table_lable.push(Text::from_element(e)?);
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -152,10 +152,10 @@ impl Parser for TOCPart {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "PartTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::from_element(e)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::from_element(e)?);
             }
             "TOCChapter" => {
               let v = TOCChapter::parser(e)?;
@@ -228,10 +228,10 @@ impl Parser for TOCChapter {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ChapterTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::from_element(e)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::from_element(e)?);
             }
             "TOCSection" => {
               let v = TOCSection::parser(e)?;
@@ -304,10 +304,10 @@ impl Parser for TOCSection {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SectionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::from_element(e)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::from_element(e)?);
             }
             "TOCSubsection" => {
               let v = TOCSubsection::parser(e)?;
@@ -398,10 +398,10 @@ impl Parser for TOCSubsection {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SubsectionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::from_element(e)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::from_element(e)?);
             }
             "TOCDivision" => {
               let v = TOCDivision::parser(e)?;
@@ -473,10 +473,10 @@ impl Parser for TOCDivision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "DivisionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::from_element(e)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::from_element(e)?);
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -540,7 +540,7 @@ impl Parser for TOCArticle {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ArticleTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::from_element(e)?;
             }
             "ArticleCaption" => {
               let v = Caption::parser(e)?;
@@ -609,10 +609,10 @@ impl Parser for TOCSupplProvision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SupplProvisionLabel" => {
-              label = Text::from_children(&e.children);
+              label = Text::from_element(e)?;
             }
             "ArticleRange" => {
-              range = Some(Text::from_children(&e.children));
+              range = Some(Text::from_element(e)?);
             }
             "TOCArticle" => {
               let v = TOCArticle::parser(e)?;
diff --git a/src/text.rs b/src/text.rs
index e9e8fa8..4af9f4d 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -23,38 +23,44 @@ impl Text {
     }
   }
   /// Node列からの生成
+  ///
+  /// テキストとして読めない要素は無視する
   pub fn from_children(children: &[XMLNode]) -> Self {
     let mut text = Text::new();
     for node in children {
-      if let XMLNode::Element(element) = node {
-        match element.name.as_str() {
-          "Ruby" => {
-            if let Ok(ruby) = Ruby::parser(element) {
-              text.add_ruby(ruby)
-            }
-          }
-          "Line" => {
-            if let Ok(line) = Line::parser(element) {
-              text.add_line(line)
-            }
-          }
-          "Sup" => {
-            if let Ok(sup) = Sup::parser(element) {
-              text.add_sup(sup)
-            }
-          }
-          "Sub" => {
-            if let Ok(sub) = Sub::parser(element) {
-              text.add_sub(sub)
-            }
-          }
-          _ => (),
+      // 読めない要素は無視する
+      let _ = text.add_node(node);
+    }
+    text
+  }
+
+  /// 要素の子からの生成
+  pub(crate) fn from_element(element: &Element) -> result::Result<Self> {
+    let mut text = Text::new();
+    for node in element.children.iter() {
+      if !text.add_node(node)? {
+        if let XMLNode::Element(e) = node {
+          return Err(Error::unexpected_tag(element, e.name.as_str()));
         }
-      } else if let XMLNode::Text(s) = node {
-        text.add_string(s)
       }
     }
-    text
+    Ok(text)
+  }
+
+  /// テキストにNodeを追加する テキストに含まれ得ないNodeのときは追加せずに`false`を返す
+  fn add_node(&mut self, node: &XMLNode) -> result::Result<bool> {
+    match node {
+      XMLNode::Element(element) => match element.name.as_str() {
+        "Ruby" => self.add_ruby(Ruby::parser(element)?),
+        "Line" => self.add_line(Line::parser(element)?),
+        "Sup" => self.add_sup(Sup::parser(element)?),
+        "Sub" => self.add_sub(Sub::parser(element)?),
+        _ => return Ok(false),
+      },
+      XMLNode::Text(s) => self.add_string(s),
+      _ => return Ok(false),
+    }
+    Ok(true)
   }
 
   /// 値から
@@ -191,7 +197,7 @@ pub struct TextWithWritingMode {
 impl Parser for TextWithWritingMode {
   fn parser(element: &Element) -> result::Result<Self> {
     let writing_mode = element.attributes.get("WritingMode").map(|s| s.as_str());
-    let text = Text::from_children(&element.children);
+    let text = Text::from_element(element)?;
     match writing_mode {
       Some("vertical") => Ok(TextWithWritingMode {
         contents: text.contents,
-- 
2.43.0


From 4b84aacc175bbfe9b8a89656c668ffb8b350b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 47/59] fix: refuse a number with more than one range end
 instead of dropping the rest

---
 src/article_number.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/article_number.rs b/src/article_number.rs
index 4ffed55..8976352 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -75,6 +75,12 @@ impl ArticleNumber {
           }
         }
       }
+      if let Some(s) = num_s_lst.next() {
+        return Err(Error::ParsingError(
+          "ArticleNumber".to_string(),
+          s.to_string(),
+        ));
+      }
       Ok(ArticleNumber {
         base_number,
         eda_numbers,
-- 
2.43.0


From 9a2d0944b39b966e42e34213773164964bee3979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:19 +0000
Subject: [PATCH 48/59] fix: join pieces of text separated by comments or CDATA
 sections so that the spelling does not change the law

---
 src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index da2c063..9784a58 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,16 +59,27 @@ pub fn parse_xml(xml: &[u8]) -> Result<law::Law> {
   Ok(law)
 }
 
-/// コメントと処理命令は法令の内容ではないので取り除く
+/// コメントと処理命令は法令の内容ではないので取り除き、
+/// それらやCDATAセクションによって分かれた文字列は一つにつなげる
 fn remove_comments(element: &mut Element) {
-  element
-    .children
-    .retain(|node| matches!(node, XMLNode::Element(_) | XMLNode::Text(_)));
-  for node in element.children.iter_mut() {
-    if let XMLNode::Element(e) = node {
-      remove_comments(e);
+  let mut children = Vec::new();
+  for node in std::mem::take(&mut element.children) {
+    match node {
+      XMLNode::Element(mut e) => {
+        remove_comments(&mut e);
+        children.push(XMLNode::Element(e));
+      }
+      XMLNode::Text(s) => {
+        if let Some(XMLNode::Text(text)) = children.last_mut() {
+          text.push_str(&s);
+        } else if !s.is_empty() {
+          children.push(XMLNode::Text(s));
+        }
+      }
+      _ => (),
     }
   }
+  element.children = children;
 }
 
 /// ファイルのパスから法律の構造体に変換する
-- 
2.43.0


From 8e52b1a4b2552a365c90df0f3f7a4df471a6e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:23 +0000
Subject: [PATCH 49/59] fix: build an empty text without pieces, so that a law
 parsed from a text equals the one read back from its XML

---
 src/text.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 4af9f4d..a065ae8 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -63,11 +63,14 @@ impl Text {
     Ok(true)
   }
 
-  /// 値から
+  /// 値から 空文字列のときは要素を持たない
   pub fn from_value<T: ToString>(t: T) -> Self {
-    Text {
-      contents: vec![TextElement::Text(t.to_string())],
+    let s = t.to_string();
+    let mut text = Text::new();
+    if !s.is_empty() {
+      text.add_string(&s);
     }
+    text
   }
 
   /// テキストを追加する
-- 
2.43.0


From ca4242a2123223676bd3905f162a2ca1e506049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 50/59] fix: render formulas, quotations and sentences inside
 formulas and quotations instead of losing their text

---
 src/utils.rs | 76 +++++++++++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 40 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6cd7b7b..048010d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -863,48 +863,44 @@ pub fn sentence_element_to_str(element: &[SentenceElement]) -> String {
         s.push('}');
       }
       SentenceElement::ArithFormula(arith_formula) => {
-        let contents = &arith_formula.contentes.contents;
-        for c in contents.iter() {
-          match c {
-            ContentsElement::String(s2) => s.push_str(s2),
-            ContentsElement::Ruby(ruby) => {
-              s.push_str(&ruby.text.to_string());
-            }
-            ContentsElement::Sub(s2) => {
-              s.push_str("_{");
-              s.push_str(&s2.text);
-              s.push('}');
-            }
-            ContentsElement::Sup(s2) => {
-              s.push_str("^{");
-              s.push_str(&s2.text);
-              s.push('}');
-            }
-            _ => (),
-          }
-        }
+        s.push_str(&contents_to_str(&arith_formula.contentes.contents));
       }
       SentenceElement::QuoteStruct(quote_struct) => {
-        let contents = &quote_struct.contentes.contents;
-        for c in contents.iter() {
-          match c {
-            ContentsElement::String(s2) => s.push_str(s2),
-            ContentsElement::Ruby(ruby) => {
-              s.push_str(&ruby.text.to_string());
-            }
-            ContentsElement::Sub(s2) => {
-              s.push_str("_{");
-              s.push_str(&s2.text);
-              s.push('}');
-            }
-            ContentsElement::Sup(s2) => {
-              s.push_str("^{");
-              s.push_str(&s2.text);
-              s.push('}');
-            }
-            _ => (),
-          }
-        }
+        s.push_str(&contents_to_str(&quote_struct.contentes.contents));
+      }
+      _ => (),
+    }
+  }
+  s
+}
+
+/// 式や引用の中身を文字列にする
+fn contents_to_str(contents: &[ContentsElement]) -> String {
+  let mut s = String::new();
+  for c in contents.iter() {
+    match c {
+      ContentsElement::String(s2) => s.push_str(s2),
+      ContentsElement::Ruby(ruby) => {
+        s.push_str(&ruby.text.to_string());
+      }
+      ContentsElement::Sub(s2) => {
+        s.push_str("_{");
+        s.push_str(&s2.text);
+        s.push('}');
+      }
+      ContentsElement::Sup(s2) => {
+        s.push_str("^{");
+        s.push_str(&s2.text);
+        s.push('}');
+      }
+      ContentsElement::ArithFormula(arith_formula) => {
+        s.push_str(&contents_to_str(&arith_formula.contentes.contents));
+      }
+      ContentsElement::QuoteStruct(quote_struct) => {
+        s.push_str(&contents_to_str(&quote_struct.contentes.contents));
+      }
+      ContentsElement::Sentence(sentence) => {
+        s.push_str(&sentence_element_to_str(&sentence.contents));
       }
       _ => (),
     }
-- 
2.43.0


From 0effa90359878c1b86cf8ff45801db02ab3b00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:51 +0000
Subject: [PATCH 51/59] fix: read kansuji numbers of a hundred million and
 above, and refuse digits in a row

---
 src/article_number.rs | 46 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 8976352..3af413a 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -619,9 +619,49 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
 
 /// 漢数字を解析する 漢数字として正しくない場合や大きすぎる場合は`None`
 fn parse_kansuji(str: &str) -> Option<usize> {
-  let kansuji = Kansuji::try_from(str).ok()?;
-  let n: u128 = kansuji.into();
-  usize::try_from(n).ok().filter(|n| *n > 0)
+  // `Kansuji::try_from`は億を読めず、「一二」のような並びも受け付けるため、ここで読む
+  let mut total = 0_usize;
+  let mut last_large_unit = usize::MAX;
+  let mut group = 0;
+  let mut last_small_unit = 10_000;
+  let mut digit = None;
+  for c in str.chars() {
+    if let Some(n) = "一二三四五六七八九".chars().position(|d| d == c) {
+      if digit.replace(n + 1).is_some() {
+        return None;
+      }
+      continue;
+    }
+    let unit = match c {
+      '十' => 10,
+      '百' => 100,
+      '千' => 1000,
+      '万' => 10_000,
+      '億' => 100_000_000,
+      '兆' => 1_000_000_000_000,
+      '京' => 10_000_000_000_000_000,
+      _ => return None,
+    };
+    if unit < 10_000 {
+      if unit >= last_small_unit {
+        return None;
+      }
+      group += digit.take().unwrap_or(1) * unit;
+      last_small_unit = unit;
+    } else {
+      group += digit.take().unwrap_or(0);
+      if group == 0 || unit >= last_large_unit {
+        return None;
+      }
+      total = total.checked_add(group.checked_mul(unit)?)?;
+      last_large_unit = unit;
+      group = 0;
+      last_small_unit = 10_000;
+    }
+  }
+  total
+    .checked_add(group + digit.unwrap_or(0))
+    .filter(|n| *n > 0)
 }
 
 fn parse_zenkaku_num(str: &str) -> Option<usize> {
-- 
2.43.0


From 0663fc8c7f18cc4830c399df8ba6f548eea374b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 52/59] fix: name the attribute of a law that is missing or
 malformed

---
 src/law.rs | 52 ++++++++++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 8e660b2..c5ba879 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -1,7 +1,5 @@
 //! 法律本体
 
-use std::str::FromStr;
-
 use crate::appdx::*;
 use crate::article::*;
 use crate::article_number::ArticleNumber;
@@ -47,12 +45,12 @@ pub struct Law {
 impl Parser for Law {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Law" {
-      let era = match element.attributes.get("Era").map(|s| s.as_str()) {
-        Some("Meiji") => Era::Meiji,
-        Some("Taisho") => Era::Taisho,
-        Some("Showa") => Era::Showa,
-        Some("Heisei") => Era::Heisei,
-        Some("Reiwa") => Era::Reiwa,
+      let era = match get_attribute(element, "Era")?.as_str() {
+        "Meiji" => Era::Meiji,
+        "Taisho" => Era::Taisho,
+        "Showa" => Era::Showa,
+        "Heisei" => Era::Heisei,
+        "Reiwa" => Era::Reiwa,
         _ => {
           return Err(Error::AttributeParseError {
             tag_name: element.name.clone(),
@@ -65,7 +63,7 @@ impl Parser for Law {
       let num = if num_str.is_empty() {
         None
       } else {
-        Some(ArticleNumber::from_str(&num_str)?)
+        Some(get_attribute_with_parse(element, "Num")?)
       };
       let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
         if s.is_empty() {
@@ -74,11 +72,8 @@ impl Parser for Law {
           Some(s)
         }
       });
-      let promulgate_month = if let Some(s) = promulgate_month_str {
-        Some(
-          s.parse::<usize>()
-            .map_err(|_| Error::ParsingError("usize".to_string(), s.clone()))?,
-        )
+      let promulgate_month = if promulgate_month_str.is_some() {
+        Some(get_attribute_with_parse(element, "PromulgateMonth")?)
       } else {
         None
       };
@@ -88,22 +83,19 @@ impl Parser for Law {
           .attributes
           .get("PromulgateDay")
           .and_then(|s| if s.is_empty() { None } else { Some(s) });
-      let promulgate_day = if let Some(s) = promulgate_day_str {
-        Some(
-          s.parse::<usize>()
-            .map_err(|_| Error::ParsingError("usize".to_string(), s.clone()))?,
-        )
+      let promulgate_day = if promulgate_day_str.is_some() {
+        Some(get_attribute_with_parse(element, "PromulgateDay")?)
       } else {
         None
       };
-      let law_type = match element.attributes.get("LawType").map(|s| s.as_str()) {
-        Some("Constitution") => LawType::Constitution,
-        Some("Act") => LawType::Act,
-        Some("CabinetOrder") => LawType::CabinetOrder,
-        Some("ImperialOrder") => LawType::ImperialOrder,
-        Some("MinisterialOrdinance") => LawType::MinisterialOrdinance,
-        Some("Rule") => LawType::Rule,
-        Some("Misc") => LawType::Misc,
+      let law_type = match get_attribute(element, "LawType")?.as_str() {
+        "Constitution" => LawType::Constitution,
+        "Act" => LawType::Act,
+        "CabinetOrder" => LawType::CabinetOrder,
+        "ImperialOrder" => LawType::ImperialOrder,
+        "MinisterialOrdinance" => LawType::MinisterialOrdinance,
+        "Rule" => LawType::Rule,
+        "Misc" => LawType::Misc,
         _ => {
           return Err(Error::AttributeParseError {
             tag_name: element.name.clone(),
@@ -111,9 +103,9 @@ impl Parser for Law {
           })
         }
       };
-      let lang = match element.attributes.get("Lang").map(|s| s.as_str()) {
-        Some("ja") => Lang::Ja,
-        Some("en") => Lang::En,
+      let lang = match get_attribute(element, "Lang")?.as_str() {
+        "ja" => Lang::Ja,
+        "en" => Lang::En,
         _ => {
           return Err(Error::AttributeParseError {
             tag_name: element.name.clone(),
-- 
2.43.0


From 60b14897fd7b8f753d5a2401415d4ec2c0f9fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:59 +0000
Subject: [PATCH 53/59] fix: name the element and the attribute when a number
 of a part, article or paragraph is malformed

---
 src/article.rs   | 18 ++++++------------
 src/paragraph.rs |  2 +-
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/article.rs b/src/article.rs
index 7037121..7c8ee32 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -46,8 +46,7 @@ impl Part {
 impl Parser for Part {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Part" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -164,8 +163,7 @@ impl Chapter {
 impl Parser for Chapter {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Chapter" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -282,8 +280,7 @@ impl Section {
 impl Parser for Section {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Section" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -408,8 +405,7 @@ impl Subsection {
 impl Parser for Subsection {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subsection" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -528,8 +524,7 @@ impl Division {
 impl Parser for Division {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Division" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -637,8 +632,7 @@ impl Article {
 impl Parser for Article {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Article" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter().peekable();
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 3471e75..736d42b 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -32,7 +32,7 @@ pub struct Paragraph {
 impl Parser for Paragraph {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Paragraph" {
-      let num = ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let old_style = get_attribute_opt_with_parse(element, "OldStyle")?.unwrap_or(false);
       let old_num = get_attribute_opt_with_parse(element, "OldNum")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
-- 
2.43.0


From 9f0acc73b025b8bfd7599f7a92c0da752146dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:06 +0000
Subject: [PATCH 54/59] fix: report elements after the body of a law instead of
 dropping them silently

---
 src/law.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/law.rs b/src/law.rs
index c5ba879..3cf895a 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -154,6 +154,11 @@ impl Parser for Law {
         })
         .ok_or(Error::missing_required_tag("LawBody"))?;
       let law_body = LawBody::parser(law_body_element)?;
+      for node in children {
+        if let XMLNode::Element(e) = node {
+          return Err(Error::unexpected_tag(element, &e.name));
+        }
+      }
       Ok(Law {
         era,
         year,
-- 
2.43.0


From 9f6a2fddb6218bf8df3dbb1c75f7d0f92909c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:15 +0000
Subject: [PATCH 55/59] fix: report elements within plain text instead of
 dropping them with their text

---
 src/fig.rs  |  1 +
 src/law.rs  | 12 +-----------
 src/lib.rs  | 13 +++++++++++++
 src/text.rs | 43 +++++++------------------------------------
 4 files changed, 22 insertions(+), 47 deletions(-)

diff --git a/src/fig.rs b/src/fig.rs
index 2e70b33..807f6bd 100644
--- a/src/fig.rs
+++ b/src/fig.rs
@@ -21,6 +21,7 @@ impl Parser for Fig {
         attribute_name: "src".to_string(),
       })?
       .clone();
+    get_plain_text(element)?;
     Ok(Fig { src })
   }
 }
diff --git a/src/law.rs b/src/law.rs
index 3cf895a..4c532e1 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -126,17 +126,7 @@ impl Parser for Law {
         .ok_or(Error::missing_required_tag("LawNum"))?;
       let law_num_element_tag_name = law_num_element.name.clone();
       let law_num = if law_num_element_tag_name == "LawNum" {
-        law_num_element
-          .children
-          .iter()
-          .map(|n| {
-            if let XMLNode::Text(s) = n {
-              s.clone()
-            } else {
-              String::new()
-            }
-          })
-          .collect::<String>()
+        get_plain_text(law_num_element)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: law_num_element_tag_name,
diff --git a/src/lib.rs b/src/lib.rs
index 9784a58..6a7ef31 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -239,3 +239,16 @@ where
     None => Ok(None),
   }
 }
+
+/// 文字列のみからなる要素の中身
+pub(crate) fn get_plain_text(element: &Element) -> Result<String> {
+  let mut text = String::new();
+  for node in element.children.iter() {
+    match node {
+      XMLNode::Element(e) => return Err(Error::unexpected_tag(element, &e.name)),
+      XMLNode::Text(s) => text.push_str(s),
+      _ => (),
+    }
+  }
+  Ok(text)
+}
diff --git a/src/text.rs b/src/text.rs
index a065ae8..13f9392 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -290,20 +290,11 @@ impl Parser for Ruby {
       let mut text = Text::new();
       let mut ruby = None;
       for children_node in children.iter() {
-        if let XMLNode::Element(element) = children_node {
-          if "Rt" == element.name.as_str() {
-            let s = element
-              .children
-              .iter()
-              .map(|n| {
-                if let XMLNode::Text(s) = n {
-                  s.clone()
-                } else {
-                  String::new()
-                }
-              })
-              .collect::<String>();
-            ruby = Some(s)
+        if let XMLNode::Element(e) = children_node {
+          if "Rt" == e.name.as_str() {
+            ruby = Some(get_plain_text(e)?)
+          } else {
+            return Err(Error::unexpected_tag(element, &e.name));
           }
         } else if let XMLNode::Text(s) = children_node {
           text.add_string(s)
@@ -339,17 +330,7 @@ pub struct Sup {
 impl Parser for Sup {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Sup" {
-      let text = element
-        .children
-        .iter()
-        .filter_map(|n| {
-          if let XMLNode::Text(s) = n {
-            Some(s.as_str())
-          } else {
-            None
-          }
-        })
-        .collect::<String>();
+      let text = get_plain_text(element)?;
       Ok(Sup { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sup"))
@@ -374,17 +355,7 @@ pub struct Sub {
 impl Parser for Sub {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Sub" {
-      let text = element
-        .children
-        .iter()
-        .filter_map(|n| {
-          if let XMLNode::Text(s) = n {
-            Some(s.as_str())
-          } else {
-            None
-          }
-        })
-        .collect::<String>();
+      let text = get_plain_text(element)?;
       Ok(Sub { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sub"))
-- 
2.43.0


From 6e10bec98e22809350480f4f81ce611c71ebdb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:22 +0000
Subject: [PATCH 56/59] fix: report unexpected elements after the sentence of
 an amendment or a sublist instead of dropping them silently

---
 src/law.rs  | 7 +++++++
 src/list.rs | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/law.rs b/src/law.rs
index 4c532e1..26c561d 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -653,6 +653,13 @@ impl Parser for AmendProvision {
                 })
                 .ok_or(Error::missing_required_tag("AmendProvision"))?;
               let v = Sentence::parser(n)?;
+              for node in e.children.iter().skip(1) {
+                if let XMLNode::Element(other) = node {
+                  if other.name != "Sentence" {
+                    return Err(Error::unexpected_tag(e, &other.name));
+                  }
+                }
+              }
               sentence = Some(v)
             }
             "NewProvision" => {
diff --git a/src/list.rs b/src/list.rs
index 5ddb1bd..c768d24 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -291,6 +291,11 @@ impl Parser for Sublist3 {
       } else {
         return Err(Error::wrong_tag_name(element, "Sublist3Sentence"));
       }
+      for node in children {
+        if let XMLNode::Element(e) = node {
+          return Err(Error::unexpected_tag(element, &e.name));
+        }
+      }
       Ok(Sublist3::new(sentence))
     } else {
       Err(Error::wrong_tag_name(element, "Sublist3"))
-- 
2.43.0


From c18a2232bf7718c0a9458cd0ed426ce4560e4ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:47 +0000
Subject: [PATCH 57/59] fix: name the right elements in errors about lists,
 supplementary provisions and tables of contents

---
 src/law.rs               |  2 +-
 src/list.rs              |  8 ++++----
 src/suppl_provision.rs   | 16 ++++++++--------
 src/table_of_contents.rs |  4 ++--
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 26c561d..e7112e4 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -651,7 +651,7 @@ impl Parser for AmendProvision {
                     None
                   }
                 })
-                .ok_or(Error::missing_required_tag("AmendProvision"))?;
+                .ok_or(Error::missing_required_tag("Sentence"))?;
               let v = Sentence::parser(n)?;
               for node in e.children.iter().skip(1) {
                 if let XMLNode::Element(other) = node {
diff --git a/src/list.rs b/src/list.rs
index c768d24..6f60382 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -53,7 +53,7 @@ impl Parser for List {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "LiseSentence"));
+        return Err(Error::missing_required_tag("ListSentence"));
       }
       let mut sublist = Vec::new();
       for node in children {
@@ -136,7 +136,7 @@ impl Parser for Sublist1 {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "Sublist1Sentence"));
+        return Err(Error::missing_required_tag("Sublist1Sentence"));
       }
       let mut sublist = Vec::new();
       for node in children {
@@ -213,7 +213,7 @@ impl Parser for Sublist2 {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "Sublist2Sentence"));
+        return Err(Error::missing_required_tag("Sublist2Sentence"));
       }
       let mut sublist = Vec::new();
       for node in children {
@@ -289,7 +289,7 @@ impl Parser for Sublist3 {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "Sublist3Sentence"));
+        return Err(Error::missing_required_tag("Sublist3Sentence"));
       }
       for node in children {
         if let XMLNode::Element(e) = node {
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 482ecbd..191d412 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -31,7 +31,7 @@ impl Parser for SupplProvision {
         None => None,
         _ => {
           return Err(Error::AttributeParseError {
-            tag_name: "SupplProbision".to_string(),
+            tag_name: "SupplProvision".to_string(),
             attribute_name: "Type".to_string(),
           })
         }
@@ -82,7 +82,7 @@ impl Parser for SupplProvision {
         extract,
       })
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbision"))
+      Err(Error::wrong_tag_name(element, "SupplProvision"))
     }
   }
 }
@@ -182,7 +182,7 @@ impl Parser for SupplProvisionAppdxTable {
               let v = TableStruct::parser(e)?;
               table_struct.push(v)
             }
-            s => return Err(Error::wrong_tag_name(e, s)),
+            s => return Err(Error::unexpected_tag(element, s)),
           }
         }
       }
@@ -195,11 +195,11 @@ impl Parser for SupplProvisionAppdxTable {
         })
       } else {
         Err(Error::MissingRequiredTag {
-          tag_name: "SupplProbisionAddxTableTitle".to_string(),
+          tag_name: "SupplProvisionAppdxTableTitle".to_string(),
         })
       }
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbisionAppdxTable"))
+      Err(Error::wrong_tag_name(element, "SupplProvisionAppdxTable"))
     }
   }
 }
@@ -269,11 +269,11 @@ impl Parser for SupplProvisionAppdxStyle {
         })
       } else {
         Err(Error::MissingRequiredTag {
-          tag_name: "SupplProbivionAppdxStyle".to_string(),
+          tag_name: "SupplProvisionAppdxStyleTitle".to_string(),
         })
       }
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbisionAppdxStyle"))
+      Err(Error::wrong_tag_name(element, "SupplProvisionAppdxStyle"))
     }
   }
 }
@@ -340,7 +340,7 @@ impl Parser for SupplProvisionAppdx {
         num,
       })
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbisionAppdx"))
+      Err(Error::wrong_tag_name(element, "SupplProvisionAppdx"))
     }
   }
 }
diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 02909f9..95a25f1 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -559,7 +559,7 @@ impl Parser for TOCArticle {
         })
       } else {
         Err(Error::MissingRequiredTag {
-          tag_name: "Caption".to_string(),
+          tag_name: "ArticleCaption".to_string(),
         })
       }
     } else {
@@ -632,7 +632,7 @@ impl Parser for TOCSupplProvision {
         children,
       })
     } else {
-      Err(Error::wrong_tag_name(element, "TOCSupplProbision"))
+      Err(Error::wrong_tag_name(element, "TOCSupplProvision"))
     }
   }
 }
-- 
2.43.0


From ef9e32bbe2f181ca022c47134146d93de13e0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:21 +0000
Subject: [PATCH 58/59] fix: accept truth values and numbers in every spelling
 that the schema allows

---
 src/lib.rs | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6a7ef31..d5755c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -186,6 +186,43 @@ pub fn write_file<W: Write>(law: &law::Law, w: &mut W) -> result::Result<()> {
     .map_err(|_| result::Error::Io)
 }
 
+/// XMLの空白文字
+const XML_SPACE: &[char] = &[' ', '\t', '\n', '\r'];
+
+/// 属性の値になるもの
+pub(crate) trait AttributeValue: Sized {
+  fn from_attribute(s: &str) -> Option<Self>;
+}
+
+impl AttributeValue for String {
+  fn from_attribute(s: &str) -> Option<Self> {
+    Some(s.to_string())
+  }
+}
+
+impl AttributeValue for usize {
+  fn from_attribute(s: &str) -> Option<Self> {
+    s.trim_matches(XML_SPACE).parse().ok()
+  }
+}
+
+impl AttributeValue for bool {
+  /// XML Schemaの真偽値は1と0でも表される
+  fn from_attribute(s: &str) -> Option<Self> {
+    match s.trim_matches(XML_SPACE) {
+      "true" | "1" => Some(true),
+      "false" | "0" => Some(false),
+      _ => None,
+    }
+  }
+}
+
+impl AttributeValue for article_number::ArticleNumber {
+  fn from_attribute(s: &str) -> Option<Self> {
+    s.parse().ok()
+  }
+}
+
 pub(crate) fn get_attribute(element: &Element, name: &str) -> Result<String> {
   let att_opt = element.attributes.get(name);
   match att_opt {
@@ -199,12 +236,12 @@ pub(crate) fn get_attribute(element: &Element, name: &str) -> Result<String> {
 
 pub(crate) fn get_attribute_with_parse<T>(element: &Element, name: &str) -> Result<T>
 where
-  T: std::str::FromStr,
+  T: AttributeValue,
 {
   let att_opt = element.attributes.get(name);
   match att_opt {
     Some(s) => {
-      if let Ok(t) = s.parse::<T>() {
+      if let Some(t) = T::from_attribute(s) {
         Ok(t)
       } else {
         Err(Error::AttributeParseError {
@@ -222,12 +259,12 @@ where
 
 pub(crate) fn get_attribute_opt_with_parse<T>(element: &Element, name: &str) -> Result<Option<T>>
 where
-  T: std::str::FromStr,
+  T: AttributeValue,
 {
   let att_opt = element.attributes.get(name);
   match att_opt {
     Some(s) => {
-      if let Ok(t) = s.parse::<T>() {
+      if let Some(t) = T::from_attribute(s) {
         Ok(Some(t))
       } else {
         Err(Error::AttributeParseError {
-- 
2.43.0


From ca579ec719b4927578d2f22b51c3fc2676c1905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:39 +0000
Subject: [PATCH 59/59] fix: report a document with more than one root element
 instead of dropping the rest

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d5755c9..0637276 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -53,7 +53,15 @@ use xmltree::{Element, XMLNode};
 
 /// XML文字列を法律の構造体に変換する
 pub fn parse_xml(xml: &[u8]) -> Result<law::Law> {
-  let mut element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  let nodes = Element::parse_all(xml).map_err(|_| Error::XMLParsing)?;
+  let mut elements = nodes.into_iter().filter_map(|n| match n {
+    XMLNode::Element(e) => Some(e),
+    _ => None,
+  });
+  // ルート要素はちょうど一つ
+  let (Some(mut element), None) = (elements.next(), elements.next()) else {
+    return Err(Error::XMLParsing);
+  };
   remove_comments(&mut element);
   let law = law::Law::parser(&element)?;
   Ok(law)
-- 
2.43.0

