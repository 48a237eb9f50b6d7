From d0ca7aea1869a2485a43f5b95a7e5b537ff1475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 01/21] fix: keep nodes_between inside the given range

The position arithmetic underflowed as soon as a child node started at or
after `from`, so text_content() panicked on any document with nested
nodes, and nodes past `to` were visited.
---
 src/model/fragment.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index 55b9187..c273f83 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -145,12 +145,15 @@ impl<S: Schema> Fragment<S> {
     ) {
         let mut pos = 0;
         for child in &self.inner {
+            if pos >= to {
+                break;
+            }
             let end = pos + child.node_size();
             if end > from && f(child, node_start + pos) {
                 if let Some(content) = child.content() {
                     let start = pos + 1;
                     content.nodes_between(
-                        usize::max(0, from - start),
+                        from.saturating_sub(start),
                         usize::min(content.size(), to - start),
                         f,
                         node_start + start,
-- 
2.43.0


From 5568b61efe63d37f030a0e9c0f21a796a5363222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 02/21] fix: report the marks of Markdown text nodes

marks() always returned None, so adding or removing one mark dropped all
the others and marks inside a code block were taken for valid content.
---
 src/markdown/mod.rs    | 2 +-
 src/markdown/schema.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/markdown/mod.rs b/src/markdown/mod.rs
index 55d5e8e..684ef91 100644
--- a/src/markdown/mod.rs
+++ b/src/markdown/mod.rs
@@ -138,7 +138,7 @@ impl Node<MD> for MarkdownNode {
     }
 
     fn marks(&self) -> Option<&MarkSet<MD>> {
-        None
+        self.text_node().map(|node| &node.marks)
     }
 
     fn mark(&self, set: MarkSet<MD>) -> Self {
diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index d224ea8..d61cc84 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -61,8 +61,8 @@ impl MarkdownNodeType {
 }
 
 impl NodeType<MD> for MarkdownNodeType {
-    fn allow_marks(self, _marks: &MarkSet<MD>) -> bool {
-        self._allow_marks()
+    fn allow_marks(self, marks: &MarkSet<MD>) -> bool {
+        self._allow_marks() || marks.into_iter().next().is_none()
     }
 
     fn allows_mark_type(self, _mark_type: MarkdownMarkType) -> bool {
-- 
2.43.0


From 8db00cc18dee0370a580692d162850f3561f93a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 03/21] fix: remove only the exact mark from a mark set

Removing a mark also removed a different mark of the same type, e.g. a
link with another target.
---
 src/model/marks.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model/marks.rs b/src/model/marks.rs
index 54f128b..8388fd7 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -47,10 +47,10 @@ impl<S: Schema> MarkSet<S> {
             .content
             .binary_search_by_key(&mark.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &self.content[index] == mark => {
                 self.content.remove(index);
             }
-            Err(_index) => {}
+            _ => {}
         }
     }
 }
@@ -137,12 +137,12 @@ pub trait Mark<S: Schema<Mark = Self>>:
             .content
             .binary_search_by_key(&self.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &set.content[index] == self => {
                 let mut owned_set = set.into_owned();
                 owned_set.content.remove(index);
                 Cow::Owned(owned_set)
             }
-            Err(_index) => set,
+            _ => set,
         }
     }
 
-- 
2.43.0


From 982e989e17887c07363ef47a7afe89cb306ddfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 04/21] fix: join text that a mark step leaves with equal marks

Adding or removing a mark could leave adjacent text nodes with the same
marks, which is not how the document is written by any other step.
---
 src/transform/mark_step.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/transform/mark_step.rs b/src/transform/mark_step.rs
index 88ce8d0..7e30dec 100644
--- a/src/transform/mark_step.rs
+++ b/src/transform/mark_step.rs
@@ -8,32 +8,32 @@ fn map_fragment_parent<S: Schema, F>(fragment: &Fragment<S>, f: &F, parent: &S::
 where
     F: Fn(S::Node, &S::Node, usize) -> S::Node,
 {
-    let mut mapped = vec![];
+    let mut mapped = Fragment::new();
     for (i, child) in fragment.children().iter().enumerate() {
         let mut child = child.copy(|c| map_fragment_parent(c, f, &*child));
 
         if child.is_inline() {
             child = f(child, parent, i)
         }
-        mapped.push(child)
+        mapped = mapped.append(Fragment::from(vec![child]))
     }
-    Fragment::from(mapped)
+    mapped
 }
 
 fn map_fragment<S: Schema, F>(fragment: &Fragment<S>, f: &F) -> Fragment<S>
 where
     F: Fn(S::Node) -> S::Node,
 {
-    let mut mapped = vec![];
+    let mut mapped = Fragment::new();
     for child in fragment.children() {
         let mut child = child.copy(|c| map_fragment(c, f));
 
         if child.is_inline() {
             child = f(child)
         }
-        mapped.push(child)
+        mapped = mapped.append(Fragment::from(vec![child]))
     }
-    Fragment::from(mapped)
+    mapped
 }
 
 /// Adding a mark on some part of the document
-- 
2.43.0


From 2a3c676d34721130de5506c1244ab4e2f0cf0719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 05/21] fix: refuse reversed ranges instead of panicking

A step read from JSON can have from > to; replace, slice and the check of
structural steps panicked on it.
---
 src/model/node.rs             | 7 ++++++-
 src/transform/replace_step.rs | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 80869ac..9487bb3 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -126,6 +126,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         if from == to {
             return Ok(Slice::default());
         }
+        if from > to {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
@@ -163,7 +166,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         let to = util::to(&range, self.node_size());
         // FIXME: this max value is my guess, that needs to be tested out
 
-        assert!(to >= from, "replace: {} >= {}", to, from);
+        if from > to {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 09aa666..02f5391 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -78,7 +78,9 @@ impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {
 
 fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<bool, ResolveErr> {
     let rp_from = doc.resolve(from)?;
-    let mut dist = to - from;
+    let mut dist = to
+        .checked_sub(from)
+        .ok_or(ResolveErr::RangeError { pos: to })?;
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 429137b037618140ac00b738af0079f94a59fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 06/21] fix: let open-ended ranges end at the end of the
 content

slice(a..) and replace(a..) used the node's own size as the end, which is
two past the last position, so they always failed.
---
 src/model/node.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 9487bb3..3a32751 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -121,7 +121,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         include_parents: bool,
     ) -> Result<Slice<S>, SliceError> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
+        let to = util::to(&range, self.content_size());
 
         if from == to {
             return Ok(Slice::default());
@@ -163,8 +163,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         slice: &Slice<S>,
     ) -> Result<Self, ReplaceError<S>> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
-        // FIXME: this max value is my guess, that needs to be tested out
+        let to = util::to(&range, self.content_size());
 
         if from > to {
             return Err(ResolveErr::RangeError { pos: to }.into());
-- 
2.43.0


From 13db4bdd2d8b4ce646d41d3a0195813e91df333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 07/21] fix: refuse slices with impossible open depths

An open end deeper than the target position, or open sides deeper than the
slice's own content, overflowed or panicked inside of replace.
---
 src/model/replace.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 7986df4..6b8b443 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -45,12 +45,32 @@ impl<S: Schema> Slice<S> {
         }
     }
 
+    /// Check that there are as many nested nodes as open levels on both sides
+    fn is_deep_enough(&self) -> bool {
+        fn check<S: Schema>(
+            content: &Fragment<S>,
+            open: usize,
+            child: fn(&Fragment<S>) -> Option<&S::Node>,
+        ) -> bool {
+            let mut content = Some(content);
+            for _ in 0..open {
+                content = content.and_then(child).and_then(|node| node.content());
+            }
+            content.is_some()
+        }
+        check(&self.content, self.open_start, Fragment::first_child)
+            && check(&self.content, self.open_end, Fragment::last_child)
+    }
+
     pub(crate) fn insert_at(
         &self,
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
-        let content = insert_into(&self.content, pos + self.open_start, fragment, None)?;
+        let dist = pos
+            .checked_add(self.open_start)
+            .ok_or(IndexError::OutOfBounds(pos))?;
+        let content = insert_into(&self.content, dist, fragment, None)?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
@@ -140,7 +160,9 @@ pub(crate) fn replace<S: Schema>(
 ) -> Result<S::Node, ReplaceError<S>> {
     if slice.open_start > rp_from.depth {
         Err(ReplaceError::InsertTooDeep)
-    } else if rp_from.depth - slice.open_start != rp_to.depth - slice.open_end {
+    } else if Some(rp_from.depth - slice.open_start) != rp_to.depth.checked_sub(slice.open_end)
+        || !slice.is_deep_enough()
+    {
         Err(ReplaceError::InconsistentOpenDepths {
             from_depth: rp_from.depth,
             open_start: slice.open_start,
-- 
2.43.0


From ba72129b9f7a36233b0886be33b3c3078400c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 08/21] fix: resolve positions in a document that is a leaf

resolve panicked when the root node cannot have content.
---
 src/model/resolved_pos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 00d8fa2..68b76f7 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -200,7 +200,7 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
     }
 
     pub(crate) fn resolve(doc: &'a S::Node, pos: usize) -> Result<Self, ResolveErr> {
-        if pos > doc.content().unwrap().size() {
+        if pos > doc.content_size() {
             return Err(ResolveErr::RangeError { pos });
         }
         let mut path = vec![];
-- 
2.43.0


From 760250a70c71c235a295b5a297e55e456f3f9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 09/21] fix: refuse positions inside of a character

A position between the two UTF-16 units of a character cannot be used to
cut text. Resolving it, or inserting into a slice at it, now fails like any
other invalid position instead of panicking later.
---
 src/model/replace.rs      |  7 ++++++-
 src/model/resolved_pos.rs |  7 +++++--
 src/model/util.rs         | 12 ++++++++++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 6b8b443..f4407cf 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Index};
+use super::{fragment::IndexError, util, Index, TextNode};
 use crate::model::{ContentMatchError, Fragment, Node, NodeType, ResolveErr, ResolvedPos, Schema};
 use crate::util::EitherOrBoth;
 use derivative::Derivative;
@@ -93,6 +93,11 @@ fn insert_into<S: Schema>(
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
     if offset == dist || matches!(child, Some(c) if c.is_text()) {
+        if let Some(TextNode { text, .. }) = child.and_then(|c| c.text_node()) {
+            if !util::is_utf16_boundary(text.as_str(), dist - offset) {
+                return Err(IndexError::OutOfBounds(dist).into());
+            }
+        }
         if let Some(p) = parent {
             if !p.can_replace(index, index, Some(&insert), ..)? {
                 return Ok(None);
diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 68b76f7..b695ba4 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Fragment, Node, Schema};
+use super::{fragment::IndexError, util, Fragment, Node, Schema, TextNode};
 use derivative::Derivative;
 use displaydoc::Display;
 use std::borrow::Cow;
@@ -223,7 +223,10 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
                 break;
             }
             node = node.child(index).unwrap();
-            if node.is_text() {
+            if let Some(TextNode { text, .. }) = node.text_node() {
+                if !util::is_utf16_boundary(text.as_str(), rem) {
+                    return Err(ResolveErr::RangeError { pos });
+                }
                 break;
             }
             parent_offset = rem - 1;
diff --git a/src/model/util.rs b/src/model/util.rs
index 197cc86..f95d047 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -16,6 +16,18 @@ pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     }
 }
 
+/// Whether the given UTF-16 offset lies between two characters of the text
+pub fn is_utf16_boundary(text: &str, index: usize) -> bool {
+    let mut offset = 0;
+    for c in text.chars() {
+        if offset >= index {
+            break;
+        }
+        offset += c.len_utf16();
+    }
+    offset <= index
+}
+
 pub fn split_at_utf16(text: &str, mut index: usize) -> (&str, &str) {
     let mut iter = text.chars();
     while index > 0 {
-- 
2.43.0


From e0196b6896457f18cc52f237f0647eb09e225240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 10/21] fix: see the rest of a text node as content in
 structural steps

When a structural step started inside of the last text of a node, that text
was not counted as content and could be deleted.
---
 src/transform/replace_step.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 02f5391..cc1954a 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -81,6 +81,9 @@ fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<b
     let mut dist = to
         .checked_sub(from)
         .ok_or(ResolveErr::RangeError { pos: to })?;
+    if dist > 0 && rp_from.text_offset() > 0 {
+        return Ok(true);
+    }
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 6b405874cb10ec217194caae97567f5b8eb5f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 11/21] fix: keep a mark open until its outermost end tag

The end of emphasis nested in emphasis closed the outer one as well.
---
 src/markdown/from_markdown.rs | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 45c9936..bcfd392 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -49,7 +49,7 @@ pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
 #[derive(Default)]
 pub struct MarkdownDeserializer {
     stack: Vec<(Vec<MarkdownNode>, Attrs)>,
-    mark_set: MarkSet<MD>,
+    marks: Vec<MarkdownMark>,
 }
 
 impl MarkdownDeserializer {
@@ -58,7 +58,7 @@ impl MarkdownDeserializer {
         let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
         if !self.text.is_empty() {
             last.0.push(MarkdownNode::Text(TextNode {
-                marks: self.mark_set.clone(),
+                marks: self.mark_set(),
                 text: Text::from(std::mem::take(&mut self.text)),
             }));
         }
@@ -80,6 +80,15 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    /// The set of all marks that are open at this point
+    fn mark_set(&self) -> MarkSet<MD> {
+        let mut set = MarkSet::default();
+        for mark in &self.marks {
+            set.add(mark);
+        }
+        set
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
@@ -140,16 +149,16 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.add(&MarkdownMark::Em);
+                        self.marks.push(MarkdownMark::Em);
                     }
                     Tag::Strong => {
-                        self.mark_set.add(&MarkdownMark::Strong);
+                        self.marks.push(MarkdownMark::Strong);
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
                     Tag::Link(_, href, title) => {
-                        self.mark_set.add(&MarkdownMark::Link {
+                        self.marks.push(MarkdownMark::Link {
                             attrs: LinkAttrs {
                                 href: href.to_string(),
                                 title: title.to_string(),
@@ -260,21 +269,12 @@ impl MarkdownDeserializer {
                     Tag::TableCell => {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
-                    Tag::Emphasis => {
-                        self.mark_set.remove(&MarkdownMark::Em);
-                    }
-                    Tag::Strong => {
-                        self.mark_set.remove(&MarkdownMark::Strong);
+                    Tag::Emphasis | Tag::Strong | Tag::Link(_, _, _) => {
+                        self.marks.pop();
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
-                    Tag::Link(_, href, title) => self.mark_set.remove(&MarkdownMark::Link {
-                        attrs: LinkAttrs {
-                            href: href.to_string(),
-                            title: title.to_string(),
-                        },
-                    }),
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Image(attrs) = attrs {
@@ -291,11 +291,11 @@ impl MarkdownDeserializer {
                 Event::Text(text) => {
                     self.add_content(MarkdownNode::Text(TextNode {
                         text: Text::from(text.to_string()),
-                        marks: self.mark_set.clone(),
+                        marks: self.mark_set(),
                     }))?;
                 }
                 Event::Code(text) => {
-                    let mut marks = self.mark_set.clone();
+                    let mut marks = self.mark_set();
                     marks.add(&MarkdownMark::Code);
                     self.add_content(MarkdownNode::Text(TextNode {
                         text: Text::from(text.to_string()),
-- 
2.43.0


From c7c7816336a1f7a165d6354ac6c41a52589b69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 12/21] fix: read Markdown text into joined, non-empty text
 nodes

The parser reports text in pieces (lines of code, escapes, entities); each
piece became a text node of its own, and an empty code block got an empty
text node.
---
 src/markdown/from_markdown.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index bcfd392..a78a7b2 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -80,6 +80,19 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    /// Add text, joining it with the text before if that has the same marks
+    fn add_text(&mut self, text: Text, marks: MarkSet<MD>) -> Result<(), FromMarkdownError> {
+        let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
+        match last.0.last_mut() {
+            Some(MarkdownNode::Text(node)) if node.marks == marks => {
+                node.text = node.text.join(&text);
+            }
+            _ if text.as_str().is_empty() => {}
+            _ => last.0.push(MarkdownNode::Text(TextNode { text, marks })),
+        }
+        Ok(())
+    }
+
     /// The set of all marks that are open at this point
     fn mark_set(&self) -> MarkSet<MD> {
         let mut set = MarkSet::default();
@@ -213,6 +226,9 @@ impl MarkdownDeserializer {
                         if let Attrs::CodeBlock(attrs) = attrs {
                             if let Some(MarkdownNode::Text(t)) = content.last_mut() {
                                 t.text.remove_last_newline();
+                                if t.text.as_str().is_empty() {
+                                    content.pop();
+                                }
                             }
                             let cb = MarkdownNode::CodeBlock(AttrNode {
                                 attrs,
@@ -289,18 +305,12 @@ impl MarkdownDeserializer {
                     }
                 },
                 Event::Text(text) => {
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks: self.mark_set(),
-                    }))?;
+                    self.add_text(Text::from(text.to_string()), self.mark_set())?;
                 }
                 Event::Code(text) => {
                     let mut marks = self.mark_set();
                     marks.add(&MarkdownMark::Code);
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks,
-                    }))?;
+                    self.add_text(Text::from(text.to_string()), marks)?;
                 }
                 Event::Html(_) => {
                     return Err(FromMarkdownError::NotSupported("Html"));
-- 
2.43.0


From 91d05b24b8f0883a31e03bb063f8b5a8e3ef522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 13/21] fix: read tight list items and empty containers into
 valid content

Items of tight lists got bare text, and empty items, quotes and documents
no content at all, none of which the schema allows.
---
 src/markdown/from_markdown.rs | 51 ++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index a78a7b2..b8f0d8e 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -2,7 +2,7 @@ use super::{
     BulletListAttrs, CodeBlockAttrs, HeadingAttrs, ImageAttrs, LinkAttrs, MarkdownMark,
     MarkdownNode, OrderedListAttrs, MD,
 };
-use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
+use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Node, Text, TextNode};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
 use std::{
@@ -39,6 +39,49 @@ pub enum Attrs {
     Image(ImageAttrs),
 }
 
+/// Create an empty paragraph, where the schema requires one
+fn empty_paragraph() -> MarkdownNode {
+    MarkdownNode::Paragraph(Block {
+        content: Fragment::new(),
+    })
+}
+
+/// Content for a node that must have at least one block
+fn block_plus(mut content: Vec<MarkdownNode>) -> Fragment<MD> {
+    if content.is_empty() {
+        content.push(empty_paragraph());
+    }
+    Fragment::from(content)
+}
+
+/// Content for a list item, that must start with a paragraph. In tight lists, the parser does not
+/// report the paragraphs.
+fn item_content(content: Vec<MarkdownNode>) -> Fragment<MD> {
+    let mut blocks = Vec::new();
+    let mut inline = Vec::new();
+    for node in content {
+        if node.is_inline() {
+            inline.push(node);
+        } else {
+            if !inline.is_empty() {
+                blocks.push(MarkdownNode::Paragraph(Block {
+                    content: Fragment::from(std::mem::take(&mut inline)),
+                }));
+            }
+            blocks.push(node);
+        }
+    }
+    if !inline.is_empty() {
+        blocks.push(MarkdownNode::Paragraph(Block {
+            content: Fragment::from(inline),
+        }));
+    }
+    if !matches!(blocks.first(), Some(MarkdownNode::Paragraph(_))) {
+        blocks.insert(0, empty_paragraph());
+    }
+    Fragment::from(blocks)
+}
+
 /// Creates a MarkdownNode::Doc from a text
 pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
     let parser = Parser::new(text);
@@ -214,7 +257,7 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Blockquote = attrs {
                             let b = MarkdownNode::Blockquote(Block {
-                                content: Fragment::from(content),
+                                content: block_plus(content),
                             });
                             self.add_content(b)?;
                         } else {
@@ -265,7 +308,7 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::ListItem = attrs {
                             let cb = MarkdownNode::ListItem(Block {
-                                content: Fragment::from(content),
+                                content: item_content(content),
                             });
                             self.add_content(cb)?;
                         }
@@ -335,7 +378,7 @@ impl MarkdownDeserializer {
         let (content, attrs) = self.pop_stack()?;
         if let Attrs::Doc = attrs {
             Ok(MarkdownNode::Doc(Block {
-                content: Fragment::from(content),
+                content: block_plus(content),
             }))
         } else {
             Err(FromMarkdownError::MisplacedEndTag("Doc", attrs))
-- 
2.43.0


From 70e3390b9ea7ffd8126ff1197dbd9c8e62b210be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 14/21] fix: refuse hard breaks in Markdown headings

The schema only allows text and images in a heading.
---
 src/markdown/from_markdown.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index b8f0d8e..b283488 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -365,6 +365,9 @@ impl MarkdownDeserializer {
                     return Err(FromMarkdownError::NotSupported("SoftBreak"));
                 }
                 Event::HardBreak => {
+                    if let Some((_, Attrs::Heading(_))) = self.stack.last() {
+                        return Err(FromMarkdownError::NotSupported("HardBreak in Heading"));
+                    }
                     self.add_content(MarkdownNode::HardBreak)?;
                 }
                 Event::Rule => {
-- 
2.43.0


From 704e8107c45a178c760e2e5430d2c0f20e1602bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 15/21] fix: read the alternative text of Markdown images

The title was used as the alternative text, and images that do have one
were refused.
---
 src/markdown/from_markdown.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index b283488..1ddae99 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -224,7 +224,7 @@ impl MarkdownDeserializer {
                     Tag::Image(_, src, title) => {
                         self.push_stack(Attrs::Image(ImageAttrs {
                             src: src.to_string(),
-                            alt: title.to_string(),
+                            alt: String::new(),
                             title: title.to_string(),
                         }));
                     }
@@ -336,9 +336,13 @@ impl MarkdownDeserializer {
                     }
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
-                        if let Attrs::Image(attrs) = attrs {
-                            if content.len() > 0 {
-                                return Err(FromMarkdownError::NoChildrenAllowed("Image"));
+                        if let Attrs::Image(mut attrs) = attrs {
+                            for node in &content {
+                                match node {
+                                    MarkdownNode::Text(t) => attrs.alt.push_str(t.text.as_str()),
+                                    MarkdownNode::Image(i) => attrs.alt.push_str(&i.attrs.alt),
+                                    _ => return Err(FromMarkdownError::NoChildrenAllowed("Image")),
+                                }
                             }
                             let cb = MarkdownNode::Image(Leaf { attrs });
                             self.add_content(cb)?;
-- 
2.43.0


From 604f7fa0a597518cc0486333eb57484cea5309a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 16/21] fix: write title and alternative text of Markdown
 images

The source was written in place of the title, and the alternative text was
left out.
---
 src/markdown/to_markdown.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index ae83493..722c308 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -183,13 +183,19 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-                    self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
-                        Tag::Image(
-                            LinkType::Inline,
-                            CowStr::Borrowed(attrs.src.as_str()),
-                            CowStr::Borrowed(attrs.src.as_str()),
-                        )
-                    })
+                    if let Some(mark) = self.marks.pop() {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
+                    let tag = Tag::Image(
+                        LinkType::Inline,
+                        CowStr::Borrowed(attrs.src.as_str()),
+                        CowStr::Borrowed(attrs.title.as_str()),
+                    );
+                    self.stack.push(Event::End(tag.clone()));
+                    self.stack
+                        .push(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
+                    Some(Event::Start(tag))
                 }
             }
         } else {
-- 
2.43.0


From fd6272843aa4ad7d6ef548acd658e375e27c29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 17/21] fix: close Markdown marks that the next node does not
 have

Only the innermost open mark was checked, so an outer mark that had ended
stayed open for the rest of the block; and a mark ending at a hard break
was closed after the break, where it does not count as a closing mark.
---
 src/markdown/to_markdown.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 722c308..46a34a4 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -137,10 +137,9 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     })
                 }
                 MarkdownNode::Text(text_node) => {
-                    if let Some(last) = self.marks.last().map(|n| *n) {
-                        if !text_node.marks.contains(last) {
+                    if self.marks.iter().any(|m| !text_node.marks.contains(m)) {
+                        if let Some(last) = self.marks.pop() {
                             self.inner.push((node, index));
-                            self.marks.pop();
                             return Some(Event::End(mark_tag(last)));
                         }
                     }
@@ -180,6 +179,10 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                 MarkdownNode::HorizontalRule => Some(Event::Rule),
                 MarkdownNode::HardBreak => {
                     // todo: inline marks
+                    if let Some(mark) = self.marks.pop() {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-- 
2.43.0


From 1d1dc470218f1b17a58ac8b87be9d102a06350c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 18/21] fix: check that the gap fits where replace-around puts
 it

The parent was never passed on, so content could be wrapped into a node
that does not allow it (e.g. a paragraph directly into a list), and the
step made a valid document invalid. Nodes on the open sides of the slice
are checked by replace, once they are complete.
---
 src/model/replace.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index f4407cf..e519b2b 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -70,7 +70,8 @@ impl<S: Schema> Slice<S> {
         let dist = pos
             .checked_add(self.open_start)
             .ok_or(IndexError::OutOfBounds(pos))?;
-        let content = insert_into(&self.content, dist, fragment, None)?;
+        let open = (self.open_start, self.open_end);
+        let content = insert_into(&self.content, dist, fragment, None, open)?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
@@ -89,6 +90,7 @@ fn insert_into<S: Schema>(
     dist: usize,
     insert: Fragment<S>,
     parent: Option<&S::Node>,
+    (open_start, open_end): (usize, usize),
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
@@ -98,25 +100,30 @@ fn insert_into<S: Schema>(
                 return Err(IndexError::OutOfBounds(dist).into());
             }
         }
-        if let Some(p) = parent {
-            if !p.can_replace(index, index, Some(&insert), ..)? {
-                return Ok(None);
-            }
+        let inserted = content
+            .cut(..dist)
+            .append(insert)
+            .append(content.cut(dist..));
+        match parent {
+            Some(p) if !p.r#type().valid_content(&inserted) => Ok(None),
+            _ => Ok(Some(inserted)),
         }
-
-        Ok(Some(
-            content
-                .cut(..dist)
-                .append(insert)
-                .append(content.cut(dist..)),
-        ))
     } else {
         let child = child.unwrap(); // supposed to be safe, because of offset != diff
+        let open_start = if index == 0 { open_start } else { 0 };
+        let open_end = if index + 1 == content.child_count() {
+            open_end
+        } else {
+            0
+        };
+        // the content of an open node is only complete after replacing
+        let is_closed = open_start == 0 && open_end == 0;
         let inner = insert_into(
             child.content().unwrap_or(Fragment::EMPTY_REF),
             dist - offset - 1,
             insert,
-            None,
+            if is_closed { Some(child) } else { None },
+            (open_start.saturating_sub(1), open_end.saturating_sub(1)),
         )?;
         if let Some(i) = inner {
             Ok(Some(
-- 
2.43.0


From c1dfcb92d56d0c283ab415247790948e7d5e0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 19/21] fix: refuse to insert the gap past the end of the slice

Between the closing tokens of the slice's open end, the gap became the open
end in place of the node that was open, and that node was left incomplete.
---
 src/model/replace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index e519b2b..74fa750 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -69,6 +69,7 @@ impl<S: Schema> Slice<S> {
     ) -> Result<Option<Slice<S>>, InsertError> {
         let dist = pos
             .checked_add(self.open_start)
+            .filter(|dist| Some(*dist) <= self.content.size().checked_sub(self.open_end))
             .ok_or(IndexError::OutOfBounds(pos))?;
         let open = (self.open_start, self.open_end);
         let content = insert_into(&self.content, dist, fragment, None, open)?;
-- 
2.43.0


From 0a24583aec23606a8c4ded32e9b6a850ff07e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 20/21] fix: read code blocks inside of emphasis without marks

---
 src/markdown/from_markdown.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 1ddae99..a932a83 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -352,7 +352,12 @@ impl MarkdownDeserializer {
                     }
                 },
                 Event::Text(text) => {
-                    self.add_text(Text::from(text.to_string()), self.mark_set())?;
+                    let marks = match self.stack.last() {
+                        // no marks are allowed in a code block
+                        Some((_, Attrs::CodeBlock(_))) => MarkSet::default(),
+                        _ => self.mark_set(),
+                    };
+                    self.add_text(Text::from(text.to_string()), marks)?;
                 }
                 Event::Code(text) => {
                     let mut marks = self.mark_set();
-- 
2.43.0


From 970fff1d3c479a88a41c69717f1a05285fb1ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 21/21] fix: refuse inclusive ranges up to the largest number
 instead of overflowing

---
 src/model/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/util.rs b/src/model/util.rs
index f95d047..a6c48f9 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -4,14 +4,14 @@ pub fn from<R: RangeBounds<usize>>(range: &R) -> usize {
     match range.start_bound() {
         Bound::Unbounded => 0,
         Bound::Included(x) => *x,
-        Bound::Excluded(x) => x + 1,
+        Bound::Excluded(x) => x.saturating_add(1),
     }
 }
 
 pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     match range.end_bound() {
         Bound::Unbounded => max,
-        Bound::Included(x) => x + 1,
+        Bound::Included(x) => x.saturating_add(1),
         Bound::Excluded(x) => *x,
     }
 }
-- 
2.43.0

