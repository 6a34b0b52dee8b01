From d3348650866c1c4f89ab57d78452d5f6526b1697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 01/17] fix: report the marks of markdown text nodes

marks() was always None, so adding or removing a mark dropped every other mark.
---
 src/markdown/mod.rs    | 3 ++-
 src/markdown/schema.rs | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/markdown/mod.rs b/src/markdown/mod.rs
index 55d5e8e..54ad909 100644
--- a/src/markdown/mod.rs
+++ b/src/markdown/mod.rs
@@ -138,7 +138,8 @@ impl Node<MD> for MarkdownNode {
     }
 
     fn marks(&self) -> Option<&MarkSet<MD>> {
-        None
+        // TODO: marks on other nodes
+        self.text_node().map(|node| &node.marks)
     }
 
     fn mark(&self, set: MarkSet<MD>) -> Self {
diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index d224ea8..9ceb61a 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -1,6 +1,6 @@
 use super::MarkdownMarkType;
 use crate::markdown::{MarkdownContentMatch, MarkdownMark, MarkdownNode};
-use crate::model::{ContentMatch, Fragment, MarkSet, Node, NodeType, Schema};
+use crate::model::{ContentMatch, Fragment, Mark, MarkSet, Node, NodeType, Schema};
 
 /// The markdown schema type
 pub struct MD;
@@ -61,8 +61,10 @@ impl MarkdownNodeType {
 }
 
 impl NodeType<MD> for MarkdownNodeType {
-    fn allow_marks(self, _marks: &MarkSet<MD>) -> bool {
-        self._allow_marks()
+    fn allow_marks(self, marks: &MarkSet<MD>) -> bool {
+        marks
+            .into_iter()
+            .all(|mark| self.allows_mark_type(mark.r#type()))
     }
 
     fn allows_mark_type(self, _mark_type: MarkdownMarkType) -> bool {
-- 
2.43.0


From 800791c4228bda23b2f9b62ea17214674970bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 02/17] fix: only remove a mark from a set that contains it

A different mark of the same type (say, a link with another target) was removed.
---
 src/model/marks.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model/marks.rs b/src/model/marks.rs
index 54f128b..8388fd7 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -47,10 +47,10 @@ impl<S: Schema> MarkSet<S> {
             .content
             .binary_search_by_key(&mark.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &self.content[index] == mark => {
                 self.content.remove(index);
             }
-            Err(_index) => {}
+            _ => {}
         }
     }
 }
@@ -137,12 +137,12 @@ pub trait Mark<S: Schema<Mark = Self>>:
             .content
             .binary_search_by_key(&self.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &set.content[index] == self => {
                 let mut owned_set = set.into_owned();
                 owned_set.content.remove(index);
                 Cow::Owned(owned_set)
             }
-            Err(_index) => set,
+            _ => set,
         }
     }
 
-- 
2.43.0


From 16a1c55af54e3004ce59364a875e3a7bde8e7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 03/17] fix: keep nodes_between within the given range

It visited nodes after the end and underflowed for a start before a child's content.
---
 src/model/fragment.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index 55b9187..c273f83 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -145,12 +145,15 @@ impl<S: Schema> Fragment<S> {
     ) {
         let mut pos = 0;
         for child in &self.inner {
+            if pos >= to {
+                break;
+            }
             let end = pos + child.node_size();
             if end > from && f(child, node_start + pos) {
                 if let Some(content) = child.content() {
                     let start = pos + 1;
                     content.nodes_between(
-                        usize::max(0, from - start),
+                        from.saturating_sub(start),
                         usize::min(content.size(), to - start),
                         f,
                         node_start + start,
-- 
2.43.0


From 795b0f4e84473e271007be2ea1e8883878f0009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 04/17] fix: default the end of slice and replace to the
 content size

An open-ended range always was out of range.
---
 src/model/node.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 80869ac..a11a51e 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -121,7 +121,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         include_parents: bool,
     ) -> Result<Slice<S>, SliceError> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
+        let to = util::to(&range, self.content_size());
 
         if from == to {
             return Ok(Slice::default());
@@ -160,8 +160,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         slice: &Slice<S>,
     ) -> Result<Self, ReplaceError<S>> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
-        // FIXME: this max value is my guess, that needs to be tested out
+        let to = util::to(&range, self.content_size());
 
         assert!(to >= from, "replace: {} >= {}", to, from);
 
-- 
2.43.0


From 6e80edaf2ee06ce15a17e2c45e50b94023f9c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 05/17] fix: reject a slice that is open deeper than the end of
 the range

The subtraction underflowed.
---
 src/model/replace.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 7986df4..d31deb2 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -140,7 +140,9 @@ pub(crate) fn replace<S: Schema>(
 ) -> Result<S::Node, ReplaceError<S>> {
     if slice.open_start > rp_from.depth {
         Err(ReplaceError::InsertTooDeep)
-    } else if rp_from.depth - slice.open_start != rp_to.depth - slice.open_end {
+    } else if slice.open_end > rp_to.depth
+        || rp_from.depth - slice.open_start != rp_to.depth - slice.open_end
+    {
         Err(ReplaceError::InconsistentOpenDepths {
             from_depth: rp_from.depth,
             open_start: slice.open_start,
-- 
2.43.0


From d556b3984537246a13c31fc8b7f60aa4411b5946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 06/17] fix: fail instead of panicking on a reversed range

---
 src/model/node.rs             | 4 +++-
 src/transform/replace_step.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index a11a51e..6a09b22 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -162,7 +162,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         let from = util::from(&range);
         let to = util::to(&range, self.content_size());
 
-        assert!(to >= from, "replace: {} >= {}", to, from);
+        if to < from {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 09aa666..fe8b22e 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -78,7 +78,7 @@ impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {
 
 fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<bool, ResolveErr> {
     let rp_from = doc.resolve(from)?;
-    let mut dist = to - from;
+    let mut dist = to.saturating_sub(from);
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 8f8ba0632c96b655a0abf2bf4a641ed0506a26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 07/17] fix: resolve positions in a leaf node without panicking

---
 src/model/resolved_pos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 00d8fa2..68b76f7 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -200,7 +200,7 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
     }
 
     pub(crate) fn resolve(doc: &'a S::Node, pos: usize) -> Result<Self, ResolveErr> {
-        if pos > doc.content().unwrap().size() {
+        if pos > doc.content_size() {
             return Err(ResolveErr::RangeError { pos });
         }
         let mut path = vec![];
-- 
2.43.0


From 223c170bb4964ed1e50927976937a7c29611d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:31 +0000
Subject: [PATCH 08/17] fix: join adjacent text with the same marks in mark
 steps

Removing the mark that separated two texts left two adjacent text nodes with equal markup.
---
 src/model/mod.rs           | 2 +-
 src/model/replace.rs       | 3 ++-
 src/transform/mark_step.rs | 6 +++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/model/mod.rs b/src/model/mod.rs
index 32f8140..381d3a4 100644
--- a/src/model/mod.rs
+++ b/src/model/mod.rs
@@ -19,7 +19,7 @@ pub use replace::{InsertError, ReplaceError, Slice};
 pub use resolved_pos::{ResolveErr, ResolvedNode, ResolvedPos};
 pub use schema::{AttrNode, Block, Leaf, MarkType, Schema, TextNode};
 
-pub(crate) use replace::replace;
+pub(crate) use replace::{add_node, replace};
 pub(crate) use resolved_pos::Index;
 
 #[cfg(test)]
diff --git a/src/model/replace.rs b/src/model/replace.rs
index d31deb2..a45b7b7 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -216,7 +216,8 @@ fn joinable<'a, S: Schema>(
     Ok(node)
 }
 
-fn add_node<S: Schema>(child: Cow<S::Node>, target: &mut Vec<S::Node>) {
+/// Push a node, joining it with the last one if both are text with the same markup
+pub(crate) fn add_node<S: Schema>(child: Cow<S::Node>, target: &mut Vec<S::Node>) {
     if let Some(last) = target.last_mut() {
         if let Some(c_text) = child.text_node() {
             if let Some(l_text) = c_text.same_markup(last) {
diff --git a/src/transform/mark_step.rs b/src/transform/mark_step.rs
index 88ce8d0..1dac9d0 100644
--- a/src/transform/mark_step.rs
+++ b/src/transform/mark_step.rs
@@ -1,5 +1,5 @@
 use super::{util::Span, StepKind};
-use crate::model::{Fragment, Mark, MarkSet, Node, NodeType, Schema, Slice};
+use crate::model::{add_node, Fragment, Mark, MarkSet, Node, NodeType, Schema, Slice};
 use derivative::Derivative;
 use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
@@ -15,7 +15,7 @@ where
         if child.is_inline() {
             child = f(child, parent, i)
         }
-        mapped.push(child)
+        add_node::<S>(Cow::Owned(child), &mut mapped);
     }
     Fragment::from(mapped)
 }
@@ -31,7 +31,7 @@ where
         if child.is_inline() {
             child = f(child)
         }
-        mapped.push(child)
+        add_node::<S>(Cow::Owned(child), &mut mapped);
     }
     Fragment::from(mapped)
 }
-- 
2.43.0


From 256725e241e7ed4f8c2343e83bfcb9c4b71d5433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 09/17] fix: close a mark that is not the innermost one in
 markdown export

---
 src/markdown/to_markdown.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index ae83493..7a39a4d 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -137,10 +137,10 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     })
                 }
                 MarkdownNode::Text(text_node) => {
-                    if let Some(last) = self.marks.last().map(|n| *n) {
-                        if !text_node.marks.contains(last) {
+                    // Marks are closed in reverse order until only marks of this text are open
+                    if self.marks.iter().any(|m| !text_node.marks.contains(m)) {
+                        if let Some(last) = self.marks.pop() {
                             self.inner.push((node, index));
-                            self.marks.pop();
                             return Some(Event::End(mark_tag(last)));
                         }
                     }
-- 
2.43.0


From be205b40868cc3404741e16b5fb9ca6e7bda2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 10/17] fix: export title and alt text of images to markdown

---
 src/markdown/to_markdown.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 7a39a4d..1c457d9 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -183,13 +183,21 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-                    self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
-                        Tag::Image(
-                            LinkType::Inline,
-                            CowStr::Borrowed(attrs.src.as_str()),
-                            CowStr::Borrowed(attrs.src.as_str()),
-                        )
-                    })
+                    if let Some(mark) = self.marks.pop() {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
+                    let tag = Tag::Image(
+                        LinkType::Inline,
+                        CowStr::Borrowed(attrs.src.as_str()),
+                        CowStr::Borrowed(attrs.title.as_str()),
+                    );
+                    self.stack.push(Event::End(tag.clone()));
+                    if !attrs.alt.is_empty() {
+                        self.stack
+                            .push(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
+                    }
+                    Some(Event::Start(tag))
                 }
             }
         } else {
-- 
2.43.0


From 31d0e2674c3eba652ccb438fe9619c347936d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 11/17] fix: join adjacent text with the same marks in markdown
 import

---
 src/markdown/from_markdown.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 45c9936..31ee6e7 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -2,10 +2,11 @@ use super::{
     BulletListAttrs, CodeBlockAttrs, HeadingAttrs, ImageAttrs, LinkAttrs, MarkdownMark,
     MarkdownNode, OrderedListAttrs, MD,
 };
-use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
+use crate::model::{add_node, AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
 use std::{
+    borrow::Cow,
     convert::{TryFrom, TryInto},
     num::TryFromIntError,
 };
@@ -76,7 +77,7 @@ impl MarkdownDeserializer {
 
     fn add_content(&mut self, node: MarkdownNode) -> Result<(), FromMarkdownError> {
         let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
-        last.0.push(node);
+        add_node::<MD>(Cow::Owned(node), &mut last.0);
         Ok(())
     }
 
-- 
2.43.0


From 9ae228308ab786d14cc5ee6e459483939d905a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 12/17] fix: import the description of an image as its alt text

---
 src/markdown/from_markdown.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 31ee6e7..e4ce97e 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -160,7 +160,7 @@ impl MarkdownDeserializer {
                     Tag::Image(_, src, title) => {
                         self.push_stack(Attrs::Image(ImageAttrs {
                             src: src.to_string(),
-                            alt: title.to_string(),
+                            alt: String::new(),
                             title: title.to_string(),
                         }));
                     }
@@ -278,9 +278,13 @@ impl MarkdownDeserializer {
                     }),
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
-                        if let Attrs::Image(attrs) = attrs {
-                            if content.len() > 0 {
-                                return Err(FromMarkdownError::NoChildrenAllowed("Image"));
+                        if let Attrs::Image(mut attrs) = attrs {
+                            // the content of an image is its description
+                            for node in &content {
+                                match node {
+                                    MarkdownNode::Text(t) => attrs.alt.push_str(t.text.as_str()),
+                                    _ => return Err(FromMarkdownError::NoChildrenAllowed("Image")),
+                                }
                             }
                             let cb = MarkdownNode::Image(Leaf { attrs });
                             self.add_content(cb)?;
-- 
2.43.0


From ffdca11a1167f63593d8e7cdca8d9158e2b053ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 13/17] fix: text_between counts a leaf as text only when it
 has a substitute

A leaf node for which no leaf_text is given contributes nothing, so it must
not end the separated state: a leading rule used to put a separator before
the first block.
---
 src/model/fragment.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index c273f83..e9c4f04 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -194,10 +194,8 @@ impl<S: Schema> Fragment<S> {
 
                     text.push_str(slice);
                     separated = block_separator.is_none();
-                } else if node.is_leaf() {
-                    if let Some(leaf_text) = leaf_text {
-                        text.push_str(leaf_text);
-                    }
+                } else if let (true, Some(leaf_text)) = (node.is_leaf(), leaf_text) {
+                    text.push_str(leaf_text);
                     separated = block_separator.is_none();
                 } else if !separated && node.is_block() {
                     text.push_str(block_separator.unwrap_or(""));
-- 
2.43.0


From e1e451d0f174053051b6ef23b4c46248a4725bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:34 +0000
Subject: [PATCH 14/17] fix: check that inserted gap content fits the closed
 node it goes into

---
 src/model/replace.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index a45b7b7..594e5fb 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -50,7 +50,13 @@ impl<S: Schema> Slice<S> {
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
-        let content = insert_into(&self.content, pos + self.open_start, fragment, None)?;
+        let content = insert_into(
+            &self.content,
+            pos + self.open_start,
+            fragment,
+            None,
+            (self.open_start, self.open_end),
+        )?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
@@ -69,6 +75,7 @@ fn insert_into<S: Schema>(
     dist: usize,
     insert: Fragment<S>,
     parent: Option<&S::Node>,
+    (open_start, open_end): (usize, usize),
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
@@ -87,11 +94,20 @@ fn insert_into<S: Schema>(
         ))
     } else {
         let child = child.unwrap(); // supposed to be safe, because of offset != diff
+        let open_start = if index == 0 { open_start } else { 0 };
+        let open_end = if index + 1 == content.child_count() {
+            open_end
+        } else {
+            0
+        };
+        // the content of an open node is checked when it is joined with the document
+        let closed = open_start == 0 && open_end == 0;
         let inner = insert_into(
             child.content().unwrap_or(Fragment::EMPTY_REF),
             dist - offset - 1,
             insert,
-            None,
+            Some(child).filter(|_| closed),
+            (open_start.saturating_sub(1), open_end.saturating_sub(1)),
         )?;
         if let Some(i) = inner {
             Ok(Some(
-- 
2.43.0


From a3e6ad33c98eb36141fa7151b473896f4137ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 15/17] fix: inserting at a huge position overflows instead of
 being refused

---
 src/model/replace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 594e5fb..372902d 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -50,9 +50,12 @@ impl<S: Schema> Slice<S> {
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
+        let dist = pos
+            .checked_add(self.open_start)
+            .ok_or(IndexError::OutOfBounds(pos))?;
         let content = insert_into(
             &self.content,
-            pos + self.open_start,
+            dist,
             fragment,
             None,
             (self.open_start, self.open_end),
-- 
2.43.0


From c3d733efa63fdb3141d4982b4286d2f5bb4d65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 16/17] fix: a slice that is open deeper than its content
 panics instead of being refused

---
 src/model/replace.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 372902d..88e33d1 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -162,17 +162,25 @@ pub(crate) fn replace<S: Schema>(
     } else if slice.open_end > rp_to.depth
         || rp_from.depth - slice.open_start != rp_to.depth - slice.open_end
     {
-        Err(ReplaceError::InconsistentOpenDepths {
-            from_depth: rp_from.depth,
-            open_start: slice.open_start,
-            to_depth: rp_to.depth,
-            open_end: slice.open_end,
-        })
+        Err(inconsistent_open_depths(rp_from, rp_to, slice))
     } else {
         replace_outer(rp_from, rp_to, slice, 0)
     }
 }
 
+fn inconsistent_open_depths<S: Schema>(
+    rp_from: &ResolvedPos<S>,
+    rp_to: &ResolvedPos<S>,
+    slice: &Slice<S>,
+) -> ReplaceError<S> {
+    ReplaceError::InconsistentOpenDepths {
+        from_depth: rp_from.depth,
+        open_start: slice.open_start,
+        to_depth: rp_to.depth,
+        open_end: slice.open_end,
+    }
+}
+
 pub(crate) fn replace_outer<S: Schema>(
     rp_from: &ResolvedPos<S>,
     rp_to: &ResolvedPos<S>,
@@ -187,6 +195,10 @@ pub(crate) fn replace_outer<S: Schema>(
         Ok(node.copy(|c| c.replace_child(index, inner).into_owned()))
     } else if slice.content.size() == 0 {
         // When we just delete content, i.e. the replacement slice is empty
+        if rp_from.depth != rp_to.depth {
+            // the slice has no nodes that could be open
+            return Err(inconsistent_open_depths(rp_from, rp_to, slice));
+        }
         let content = replace_two_way(rp_from, &rp_to, depth)?;
         close(node, content)
     } else if slice.open_start == 0
@@ -207,9 +219,14 @@ pub(crate) fn replace_outer<S: Schema>(
             .append(content.cut(rp_to.parent_offset..));
         close(parent, new_content)
     } else {
-        let (n, start, end) = prepare_slice_for_replace(slice, &rp_from);
+        let (n, start, end) = prepare_slice_for_replace(slice, &rp_from)
+            .ok_or_else(|| inconsistent_open_depths(rp_from, rp_to, slice))?;
         let rp_start = n.resolve(start)?;
         let rp_end = n.resolve(end)?;
+        if rp_start.depth != rp_from.depth || rp_end.depth != rp_to.depth {
+            // the content of the slice is not nested as deep as it is open
+            return Err(inconsistent_open_depths(rp_from, rp_to, slice));
+        }
         let content = replace_three_way(rp_from, &rp_start, &rp_end, &rp_to, depth)?;
         close(node, content)
     }
@@ -354,7 +371,7 @@ fn replace_two_way<S: Schema>(
 fn prepare_slice_for_replace<'a, S: Schema>(
     slice: &'a Slice<S>,
     rp_along: &ResolvedPos<'a, S>,
-) -> (S::Node, usize, usize) {
+) -> Option<(S::Node, usize, usize)> {
     let extra = rp_along.depth - slice.open_start;
     let parent = rp_along.node(extra);
     let mut node = parent.copy(|_| slice.content.clone());
@@ -363,8 +380,8 @@ fn prepare_slice_for_replace<'a, S: Schema>(
     }
 
     let start = slice.open_start + extra;
-    let end = node.content_size() - slice.open_end - extra;
-    (node, start, end)
+    let end = node.content_size().checked_sub(slice.open_end + extra)?;
+    Some((node, start, end))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4b7bff9d1b52b19862c88e2bf1011ccf47733265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 17/17] fix: a range that includes usize::MAX overflows

---
 src/model/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/util.rs b/src/model/util.rs
index 197cc86..63e70d9 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -4,14 +4,14 @@ pub fn from<R: RangeBounds<usize>>(range: &R) -> usize {
     match range.start_bound() {
         Bound::Unbounded => 0,
         Bound::Included(x) => *x,
-        Bound::Excluded(x) => x + 1,
+        Bound::Excluded(x) => x.saturating_add(1),
     }
 }
 
 pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     match range.end_bound() {
         Bound::Unbounded => max,
-        Bound::Included(x) => x + 1,
+        Bound::Included(x) => x.saturating_add(1),
         Bound::Excluded(x) => *x,
     }
 }
-- 
2.43.0

