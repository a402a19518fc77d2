From 6917d0a9e13ecdd6aedf2b7a360699f85729aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 01/12] fix: step over nodes without tokens in
 first/last/next/prev_token

A node that contains no token made first_token and last_token of its
ancestors and next_token and prev_token of its neighbours return None
although there are further tokens.
---
 src/cursor.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 1288620..8496670 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -824,10 +824,11 @@ impl SyntaxNode {
     }
 
     pub fn first_token(&self) -> Option<SyntaxToken> {
-        self.first_child_or_token()?.first_token()
+        self.children_with_tokens().find_map(|it| it.first_token())
     }
     pub fn last_token(&self) -> Option<SyntaxToken> {
-        self.last_child_or_token()?.last_token()
+        iter::successors(self.last_child_or_token(), SyntaxElement::prev_sibling_or_token)
+            .find_map(|it| it.last_token())
     }
 
     #[inline]
@@ -1086,22 +1087,22 @@ impl SyntaxToken {
     }
 
     pub fn next_token(&self) -> Option<SyntaxToken> {
-        match self.next_sibling_or_token() {
-            Some(element) => element.first_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.next_sibling_or_token())
-                .and_then(|element| element.first_token()),
-        }
+        let me: SyntaxElement = self.clone().into();
+        iter::once(me)
+            .chain(self.ancestors().map(SyntaxElement::from))
+            .flat_map(|it| {
+                iter::successors(it.next_sibling_or_token(), SyntaxElement::next_sibling_or_token)
+            })
+            .find_map(|it| it.first_token())
     }
     pub fn prev_token(&self) -> Option<SyntaxToken> {
-        match self.prev_sibling_or_token() {
-            Some(element) => element.last_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.prev_sibling_or_token())
-                .and_then(|element| element.last_token()),
-        }
+        let me: SyntaxElement = self.clone().into();
+        iter::once(me)
+            .chain(self.ancestors().map(SyntaxElement::from))
+            .flat_map(|it| {
+                iter::successors(it.prev_sibling_or_token(), SyntaxElement::prev_sibling_or_token)
+            })
+            .find_map(|it| it.last_token())
     }
 
     pub fn detach(&self) {
-- 
2.43.0


From 47b04e6c2cd5851108226a9845adfb98924a8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 02/12] fix: by_kind on a partly consumed child iterator
 repeats a child

`next` holds the child yielded last, so the filtered iterator has to start
with the sibling after it.
---
 src/cursor.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 8496670..150a0ec 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1371,13 +1371,7 @@ impl SyntaxNodeChildren {
             SyntaxNodeChildrenByKind { next: self.parent.first_child_by_kind(&matcher), matcher }
         } else {
             SyntaxNodeChildrenByKind {
-                next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
-                        Some(node)
-                    } else {
-                        node.next_sibling_by_kind(&matcher)
-                    }
-                }),
+                next: self.next.and_then(|node| node.next_sibling_by_kind(&matcher)),
                 matcher,
             }
         }
@@ -1433,13 +1427,7 @@ impl SyntaxElementChildren {
             }
         } else {
             SyntaxElementChildrenByKind {
-                next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
-                        Some(node)
-                    } else {
-                        node.next_sibling_or_token_by_kind(&matcher)
-                    }
-                }),
+                next: self.next.and_then(|node| node.next_sibling_or_token_by_kind(&matcher)),
                 matcher,
             }
         }
-- 
2.43.0


From 725ad077129c5a6f210ae2117ef56727d2c99cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 03/12] fix: child iterators end early when the yielded child
 is detached

The iterators find the next child from the one yielded last, which has no
siblings any more once it was detached. As a consequence, splice_children
removed only the first child of its range. Look one child ahead in mutable
trees, as the filtered iterators do.
---
 src/cursor.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 150a0ec..84d7ae4 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1371,7 +1371,14 @@ impl SyntaxNodeChildren {
             SyntaxNodeChildrenByKind { next: self.parent.first_child_by_kind(&matcher), matcher }
         } else {
             SyntaxNodeChildrenByKind {
-                next: self.next.and_then(|node| node.next_sibling_by_kind(&matcher)),
+                next: self.next.and_then(|node| {
+                    // In a mutable tree, `node` was not yielded yet.
+                    if node.is_mutable() && matcher(node.kind()) {
+                        Some(node)
+                    } else {
+                        node.next_sibling_by_kind(&matcher)
+                    }
+                }),
                 matcher,
             }
         }
@@ -1381,6 +1388,15 @@ impl SyntaxNodeChildren {
 impl Iterator for SyntaxNodeChildren {
     type Item = SyntaxNode;
     fn next(&mut self) -> Option<SyntaxNode> {
+        if self.parent.is_mutable() {
+            // The caller may detach the yielded child, so find its successor beforehand.
+            let child =
+                if self.next_initialized { self.next.take() } else { self.parent.first_child() };
+            self.next_initialized = true;
+            self.next = child.as_ref().and_then(SyntaxNode::next_sibling);
+            return child;
+        }
+
         if !self.next_initialized {
             self.next = self.parent.first_child();
             self.next_initialized = true;
@@ -1427,7 +1443,14 @@ impl SyntaxElementChildren {
             }
         } else {
             SyntaxElementChildrenByKind {
-                next: self.next.and_then(|node| node.next_sibling_or_token_by_kind(&matcher)),
+                next: self.next.and_then(|node| {
+                    // In a mutable tree, `node` was not yielded yet.
+                    if self.parent.is_mutable() && matcher(node.kind()) {
+                        Some(node)
+                    } else {
+                        node.next_sibling_or_token_by_kind(&matcher)
+                    }
+                }),
                 matcher,
             }
         }
@@ -1437,6 +1460,18 @@ impl SyntaxElementChildren {
 impl Iterator for SyntaxElementChildren {
     type Item = SyntaxElement;
     fn next(&mut self) -> Option<SyntaxElement> {
+        if self.parent.is_mutable() {
+            // The caller may detach the yielded child, so find its successor beforehand.
+            let child = if self.next_initialized {
+                self.next.take()
+            } else {
+                self.parent.first_child_or_token()
+            };
+            self.next_initialized = true;
+            self.next = child.as_ref().and_then(SyntaxElement::next_sibling_or_token);
+            return child;
+        }
+
         if !self.next_initialized {
             self.next = self.parent.first_child_or_token();
             self.next_initialized = true;
-- 
2.43.0


From 4caeac46824fb7e77d29ee9d76ce6c8c6b0fe3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 04/12] fix: to_next_sibling(_or_token) leaks a root

A root has no parent; returning early after taking the pointer out of the
handle lost the last reference to it and to its green node.
---
 src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 84d7ae4..2487ecb 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -766,11 +766,11 @@ impl SyntaxNode {
             return self.next_sibling();
         }
 
+        let parent = self.parent()?;
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
         assert!(data.rc.get() == 1);
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
@@ -1207,10 +1207,10 @@ impl SyntaxElement {
             return self.next_sibling_or_token();
         }
 
+        let parent = self.parent()?;
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
-- 
2.43.0


From 318eea9776c30b849b37fb949ee080db4a440059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 05/12] fix: inserting a child beyond the end corrupts the tree

The panic came from inserting into the green node, when the child was
already linked into the tree and its green element already released.
---
 src/cursor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 2487ecb..5bf04af 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -491,6 +491,9 @@ impl NodeData {
     fn attach_child(&self, index: usize, child: &NodeData) {
         assert!(self.mutable && child.mutable && child.parent().is_none());
         assert!(self.rc.get() > 0 && child.rc.get() > 0);
+        // Check the index before anything is changed.
+        let len = self.green().into_node().unwrap().children().len();
+        assert!(index <= len, "insertion index {} is beyond the {} children", index, len);
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From c529ecd43200047a3011e622e284ffd9cf024d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 06/12] fix: inserting a node into its own subtree does not
 terminate

The result is a cycle of parents. Refuse it before anything is changed.
---
 src/cursor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5bf04af..67dec50 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -495,6 +495,11 @@ impl NodeData {
         let len = self.green().into_node().unwrap().children().len();
         assert!(index <= len, "insertion index {} is beyond the {} children", index, len);
 
+        assert!(
+            !iter::successors(Some(self), |it| it.parent()).any(|it| ptr::eq(it, child)),
+            "node inserted into its own subtree"
+        );
+
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
         self.inc_rc();
-- 
2.43.0


From 975e2dc5b0fe6fb225152f8486965843795189eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 07/12] fix: SyntaxNodePtr to an empty node is not always
 resolved

At the offset of an empty node there may be several children whose range
contains it, of which only one was looked into.
---
 src/ast.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 292dba9..a8bdeec 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -20,7 +20,7 @@ use std::{
     marker::PhantomData,
 };
 
-use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange};
+use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange, WalkEvent};
 
 /// The main trait to go from untyped [`SyntaxNode`] to a typed AST. The
 /// conversion itself has zero runtime cost: AST and syntax nodes have exactly
@@ -102,6 +102,28 @@ impl<L: Language> SyntaxNodePtr<L> {
         }
         successors(Some(root.clone()), |node| node.child_or_token_at_range(self.range)?.into_node())
             .find(|it| it.text_range() == self.range && it.kind() == self.kind)
+            .or_else(|| self.find_empty(root))
+    }
+
+    /// Several children may contain an empty range, so that finding an empty
+    /// node may take looking into all of them.
+    fn find_empty(&self, root: &SyntaxNode<L>) -> Option<SyntaxNode<L>> {
+        if !self.range.is_empty() {
+            return None;
+        }
+        let mut preorder = root.preorder();
+        while let Some(event) = preorder.next() {
+            if let WalkEvent::Enter(node) = event {
+                let range = node.text_range();
+                if range == self.range && node.kind() == self.kind {
+                    return Some(node);
+                }
+                if !range.contains_range(self.range) {
+                    preorder.skip_subtree();
+                }
+            }
+        }
+        None
     }
 
     /// Casts this to an [`AstPtr`] to the given node type if possible.
-- 
2.43.0


From bc71d7b2e05e7583dd1c1afcdf25774d69d83706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 08/12] fix: nodes with an empty node of kind 0 in them are
 never shared

The hash of an empty node of kind 0 is 0, which stands for a node that is
not interned.
---
 src/green/node_cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/green/node_cache.rs b/src/green/node_cache.rs
index 89740bf..7ac2213 100644
--- a/src/green/node_cache.rs
+++ b/src/green/node_cache.rs
@@ -56,7 +56,8 @@ fn node_hash(node: &GreenNodeData) -> u64 {
         }
         .hash(&mut h)
     }
-    h.finish()
+    // 0 stands for nodes which are not interned
+    h.finish().max(1)
 }
 
 fn element_id(elem: GreenElementRef<'_>) -> *const () {
@@ -93,7 +94,7 @@ impl NodeCache {
                 }
                 hash.hash(&mut h);
             }
-            h.finish()
+            h.finish().max(1)
         };
 
         // Green nodes are fully immutable, so it's ok to deduplicate them.
-- 
2.43.0


From ee350491ef52bfe0918bc1ee6f7727fb1e06c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 09/12] fix: use after free when a kind predicate edits the
 tree

The searches by kind kept the slice of green children borrowed while the
predicate ran, although editing the tree replaces and frees it.
---
 src/cursor.rs | 82 +++++++++++++++++++++++----------------------------
 1 file changed, 37 insertions(+), 45 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 67dec50..bfe2738 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -387,19 +387,8 @@ impl NodeData {
     }
 
     fn next_sibling_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
-        let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
-
-        siblings.skip(index + 1).find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
-            child.as_ref().into_node().and_then(|green| {
-                let parent = self.parent_node()?;
-                let offset = parent.offset() + child.rel_offset();
-                Some(SyntaxNode::new_child(green, parent, index as u32, offset))
-            })
-        })
+        self.parent_node()?.find_child_node(index + 1, matcher)
     }
 
     fn prev_sibling(&self) -> Option<SyntaxNode> {
@@ -430,17 +419,8 @@ impl NodeData {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
-        let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
-
-        siblings.skip(index + 1).find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
-            let parent = self.parent_node()?;
-            let offset = parent.offset() + child.rel_offset();
-            Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset))
-        })
+        self.parent_node()?.find_child(index + 1, matcher)
     }
 
     fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
@@ -704,19 +684,7 @@ impl SyntaxNode {
     }
 
     pub fn first_child_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
-        self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
-            child.as_ref().into_node().map(|green| {
-                SyntaxNode::new_child(
-                    green,
-                    self.clone(),
-                    index as u32,
-                    self.offset() + child.rel_offset(),
-                )
-            })
-        })
+        self.find_child_node(0, matcher)
     }
 
     pub fn last_child(&self) -> Option<SyntaxNode> {
@@ -742,17 +710,41 @@ impl SyntaxNode {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
-        self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
+        self.find_child(0, matcher)
+    }
+
+    // NB: `matcher` may edit this tree, which frees the green children. So nothing borrowed from
+    // them is kept while it runs.
+    fn find_child(
+        &self,
+        start: usize,
+        matcher: &impl Fn(SyntaxKind) -> bool,
+    ) -> Option<SyntaxElement> {
+        let mut index = start;
+        while !matcher(self.green_ref().children().nth(index)?.kind()) {
+            index += 1;
+        }
+        let child = self.green_ref().children().raw.nth(index)?;
+        let offset = self.offset() + child.rel_offset();
+        Some(SyntaxElement::new(child.as_ref(), self.clone(), index as u32, offset))
+    }
+
+    fn find_child_node(
+        &self,
+        start: usize,
+        matcher: &impl Fn(SyntaxKind) -> bool,
+    ) -> Option<SyntaxNode> {
+        let mut index = start;
+        loop {
+            if matcher(self.green_ref().children().nth(index)?.kind()) {
+                let child = self.green_ref().children().raw.nth(index)?;
+                if let NodeOrToken::Node(green) = child.as_ref() {
+                    let offset = self.offset() + child.rel_offset();
+                    return Some(SyntaxNode::new_child(green, self.clone(), index as u32, offset));
+                }
             }
-            Some(SyntaxElement::new(
-                child.as_ref(),
-                self.clone(),
-                index as u32,
-                self.offset() + child.rel_offset(),
-            ))
-        })
+            index += 1;
+        }
     }
 
     pub fn last_child_or_token(&self) -> Option<SyntaxElement> {
-- 
2.43.0


From bae3cd67d8dd49eca249457b298f8005380354f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:24 +0000
Subject: [PATCH 10/12] fix: inserting a child that makes the text too long
 corrupts the tree

TextSize is a u32. In release builds the lengths of the node and its
ancestors wrapped around; with overflow checks the panic came when the child
was half inserted. Refuse before anything is changed.
---
 src/cursor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index bfe2738..a8a0ce2 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -479,6 +479,11 @@ impl NodeData {
             !iter::successors(Some(self), |it| it.parent()).any(|it| ptr::eq(it, child)),
             "node inserted into its own subtree"
         );
+        let root = iter::successors(Some(self), |it| it.parent()).last().unwrap();
+        assert!(
+            root.green().text_len().checked_add(child.green().text_len()).is_some(),
+            "the text of the tree is too long"
+        );
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From 14ab7958bc1766cef643a5380b2d78709d48a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:24 +0000
Subject: [PATCH 11/12] fix: the length of a node wraps around when its text is
 too long

GreenNode::new added up the lengths without a check in release builds, so a
node of 4 GiB of text had a length and child offsets that wrapped around.
Refuse it, as GreenToken does for its text.
---
 src/green/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/green/node.rs b/src/green/node.rs
index 832915b..f4d7769 100644
--- a/src/green/node.rs
+++ b/src/green/node.rs
@@ -208,7 +208,8 @@ impl GreenNode {
         let mut text_len: TextSize = 0.into();
         let children = children.into_iter().map(|el| {
             let rel_offset = text_len;
-            text_len += el.text_len();
+            text_len =
+                text_len.checked_add(el.text_len()).expect("the text of the node is too long");
             match el {
                 NodeOrToken::Node(node) => GreenChild::Node { rel_offset, node },
                 NodeOrToken::Token(token) => GreenChild::Token { rel_offset, token },
-- 
2.43.0


From 0910ae6bfcb7b17ff6ee410366785de10f443fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:06 +0000
Subject: [PATCH 12/12] fix: nodes with a token whose hash is 0 are never
 shared

0 stands for a node that is not interned. There are texts for which the hash
of a token is 0.
---
 src/green/node_cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/green/node_cache.rs b/src/green/node_cache.rs
index 7ac2213..29a4a17 100644
--- a/src/green/node_cache.rs
+++ b/src/green/node_cache.rs
@@ -43,7 +43,8 @@ fn token_hash(token: &GreenTokenData) -> u64 {
     let mut h = FxHasher::default();
     token.kind().hash(&mut h);
     token.text().hash(&mut h);
-    h.finish()
+    // 0 stands for nodes which are not interned
+    h.finish().max(1)
 }
 
 fn node_hash(node: &GreenNodeData) -> u64 {
@@ -136,7 +137,7 @@ impl NodeCache {
             let mut h = FxHasher::default();
             kind.hash(&mut h);
             text.hash(&mut h);
-            h.finish()
+            h.finish().max(1)
         };
 
         let entry = self
-- 
2.43.0

