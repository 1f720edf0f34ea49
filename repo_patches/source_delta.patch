From 92ee908a482cee2253bdb4efa676b7c648f86bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 01/24] fix: recompute positions and spans after the terminal
 is removed

---
 lumberjack/src/tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 045be65..c049327 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -693,10 +693,11 @@ impl Tree {
         if self.siblings(terminal).count() == 0 {
             return Err(format_err!("Last terminal of a branch."));
         }
+        let node = self.graph.remove_node(terminal).unwrap();
+        self.n_terminals -= 1;
         self.compact_terminal_spans()?;
         self.reset_nt_spans();
-        self.n_terminals -= 1;
-        Ok(self.graph.remove_node(terminal).unwrap())
+        Ok(node)
     }
 
     /// Reset terminal spans to increasing by 1 at each step.
-- 
2.43.0


From 1ebeaa832865c627945845d70e199659085e3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 02/24] fix: reattach_terminals looped forever on terminals
 without siblings

---
 lumberjack/src/tree_modification.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index c1fa251..a9eb39c 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -223,14 +223,17 @@ impl TreeOps for Tree {
             if match_fn(&self, terminal) {
                 let mut climber = Climber::new(terminal, self);
                 while self.siblings(terminal).count() == 0 {
-                    if let Some(parent) = climber.next(self) {
-                        if parent != self.root() && parent != attachment {
+                    match climber.next(self) {
+                        Some(parent) if parent != self.root() && parent != attachment => {
                             self.remove_node(parent).unwrap();
                         }
+                        // the terminal is the only material below the attachment point or root
+                        _ => break,
                     }
                 }
-                let (_, edge) = self.parent(terminal).unwrap();
-                self.reattach_node(attachment, edge).unwrap();
+                if let Some((_, edge)) = self.parent(terminal) {
+                    self.reattach_node(attachment, edge).unwrap();
+                }
             }
         }
         self.reset_nt_spans();
-- 
2.43.0


From 944cc3b44246091531f9e4098e839ab80cf85582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 03/24] fix: count discontinuous nodes inserted by
 insert_unary_above and insert_unary_below

---
 lumberjack/src/tree.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index c049327..6bcabec 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -250,8 +250,9 @@ impl Tree {
         S: Into<String>,
     {
         let span = self[child].span().to_owned();
-        let node = NonTerminal::new(node_label, span).into();
-        let insert = self.graph.add_node(node);
+        let node = NonTerminal::new(node_label, span);
+        self.projectivity_change(Continuity::Continuous, node.continuity());
+        let insert = self.graph.add_node(node.into());
         if let Some((parent, old_edge_idx)) = self.parent(child) {
             let old_edge = self.graph.remove_edge(old_edge_idx).unwrap();
             self.graph
@@ -288,8 +289,9 @@ impl Tree {
         // collect children before attaching new node
         let children = self.children(node).collect::<Vec<_>>();
         let span = self[node].span().to_owned();
-        let new_node = NonTerminal::new(node_label, span).into();
-        let insert = self.graph.add_node(new_node);
+        let new_node = NonTerminal::new(node_label, span);
+        self.projectivity_change(Continuity::Continuous, new_node.continuity());
+        let insert = self.graph.add_node(new_node.into());
         self.graph
             .add_edge(node, insert, Edge::new_primary::<String>(None));
         for (child, edge) in children {
-- 
2.43.0


From fb2f8b2da960bf1f25e42d9338a27a24312855bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:47 +0000
Subject: [PATCH 04/24] fix: reattach_node kept stale spans or built a cycle if
 the new parent did not dominate the old one

---
 lumberjack/src/tree.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 6bcabec..8edaa0c 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -338,6 +338,7 @@ impl Tree {
     /// Returns `Err` if:
     ///   * `edge` is the last outgoing edge of a node.
     ///   * `new_parent` is a `Terminal` node.
+    ///   * `new_parent` is dominated by the node.
     ///
     /// Returns `Ok(old_edge)` otherwise.
     ///
@@ -604,25 +605,30 @@ impl Tree {
         } else if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
-        let mut climber = Climber::new(parent, self);
-        let mut path = vec![parent];
-        // climb tree to check if the old parent is dominated by the new parent
+        // collect the new parent and all nodes dominating it
+        let mut new_ancestors = vec![new_parent];
+        let mut climber = Climber::new(new_parent, self);
         while let Some(node) = climber.next(self) {
-            path.push(node);
-            // if new parent is higher in the tree, we need to remove the indices from the old
-            // parent's span
-            if new_parent == node {
-                let coverage = self[child].span().into_iter().collect::<Vec<_>>();
-                for node in path {
-                    let before = self[node].continuity();
-                    let after = self[node]
-                        .nonterminal_mut()
-                        .unwrap()
-                        .remove_indices(coverage.iter().cloned());
-                    self.projectivity_change(before, after);
-                }
+            new_ancestors.push(node);
+        }
+        if new_ancestors.contains(&child) {
+            return Err(format_err!("New parent is dominated by the node."));
+        }
+
+        // all nodes dominating the old but not the new parent don't cover the child's indices
+        // anymore
+        let coverage = self[child].span().into_iter().collect::<Vec<_>>();
+        let mut climber = Climber::new(child, self);
+        while let Some(node) = climber.next(self) {
+            if new_ancestors.contains(&node) {
                 break;
             }
+            let before = self[node].continuity();
+            let after = self[node]
+                .nonterminal_mut()
+                .unwrap()
+                .remove_indices(coverage.iter().cloned());
+            self.projectivity_change(before, after);
         }
         let edge = self.graph.remove_edge(edge).unwrap();
         let edge_idx = self
-- 
2.43.0


From 7cbac66230b1e0288c431146ed4933e3734a66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 05/24] fix: NegraReader dropped a sentence cut off by the end
 of the input

---
 lumberjack/src/io/negra.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index f579433..9c39853 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -71,7 +71,12 @@ where
                 }
             }
         }
-        None
+        cur.map(|builder: Builder| {
+            Err(format_err!(
+                "Found end of input before #EOS {}",
+                builder.sentence_id
+            ))
+        })
     }
 }
 
-- 
2.43.0


From 7f2eec1425cc3c5c46a1fff3f5ba5f86f10df19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 06/24] fix: NegraReader panicked on secondary edges from
 undefined nonterminals

---
 lumberjack/src/io/negra.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 9c39853..4536899 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -150,11 +150,11 @@ impl Builder {
             ));
         }
         for (source, label, target) in self.sec_edges {
-            self.graph.add_edge(
-                *self.nt_indices.get(&source).unwrap(),
-                target,
-                Edge::Secondary(Some(label)),
-            );
+            let source = *self.nt_indices.get(&source).ok_or_else(|| {
+                format_err!("Secondary edge from undefined nonterminal: {}", source)
+            })?;
+            self.graph
+                .add_edge(source, target, Edge::new_secondary(Some(label)));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
-- 
2.43.0


From 6546fc75416e72c1cc0ca165f35218787c937be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 07/24] fix: NegraReader read the placeholder of unlabeled
 secondary edges as label

---
 lumberjack/src/io/negra.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 4536899..c113e90 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -89,7 +89,7 @@ struct Builder {
     finished_terminals: bool,
     num_non_projective: usize,
     processed_nts: usize,
-    sec_edges: Vec<(usize, String, NodeIndex)>,
+    sec_edges: Vec<(usize, Option<String>, NodeIndex)>,
 }
 
 impl Builder {
@@ -154,7 +154,7 @@ impl Builder {
                 format_err!("Secondary edge from undefined nonterminal: {}", source)
             })?;
             self.graph
-                .add_edge(source, target, Edge::new_secondary(Some(label)));
+                .add_edge(source, target, Edge::new_secondary(label));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
@@ -281,7 +281,9 @@ impl Builder {
         self.graph
             .add_edge(parent_idx, node_idx, Edge::new_primary(edge));
         if let Some((label, id)) = Self::parse_optional_fields(parts)? {
-            self.sec_edges.push((id, label.to_string(), node_idx));
+            let label = if label == "--" { None } else { Some(label) };
+            self.sec_edges
+                .push((id, label.map(ToOwned::to_owned), node_idx));
         }
         Ok(())
     }
-- 
2.43.0


From b4bd4422568995f23a40eeb53e14ff1973f3248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 08/24] fix: NegraReader panicked on sentences without
 terminals

---
 lumberjack/src/io/negra.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index c113e90..d392575 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -133,6 +133,7 @@ impl Builder {
     ///
     ///   * panics if the footer doesn't start with `#EOS`.
     ///   * returns `Err` if the sentence id doesn't match.
+    ///   * returns `Err` if there are no Terminals.
     ///   * returns `Err` if not all NonTerminals were processed.
     fn try_into_tree(mut self, footer: &str) -> Result<Tree, Error> {
         assert!(
@@ -149,6 +150,9 @@ impl Builder {
                 eos_id
             ));
         }
+        if self.n_terminals == 0 {
+            return Err(format_err!("Tree without Terminal nodes."));
+        }
         for (source, label, target) in self.sec_edges {
             let source = *self.nt_indices.get(&source).ok_or_else(|| {
                 format_err!("Secondary edge from undefined nonterminal: {}", source)
-- 
2.43.0


From 9cb60f1f5dbd9bfa8dde007966f148767219f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 09/24] fix: NegraReader accepted nonterminals defined twice or
 attached to their own descendents

---
 lumberjack/src/io/negra.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index d392575..48a189d 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -3,9 +3,10 @@ use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
 use petgraph::prelude::{Direction, EdgeRef, NodeIndex, StableGraph};
-use petgraph::visit::{VisitMap, Visitable};
+use petgraph::visit::{Dfs, VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
+use crate::tree::GraphWrap;
 use crate::{Edge, Node, NonTerminal, Span, Terminal, Tree, WriteTree};
 
 /// Iterator over constituency trees in a Negra export file.
@@ -165,6 +166,15 @@ impl Builder {
         if self.processed_nts != self.nt_indices.len() {
             return Err(format_err!("Did not process all nonterminals."));
         }
+        // nodes that can't be reached are part of a cycle.
+        let mut dfs = Dfs::new(GraphWrap::new(&self.graph), root);
+        let mut n_reached = 0;
+        while dfs.next(GraphWrap::new(&self.graph)).is_some() {
+            n_reached += 1;
+        }
+        if n_reached != self.graph.node_count() {
+            return Err(format_err!("Nonterminal is not attached to the root."));
+        }
         self.graph[root].set_span(Span::new(0, self.n_terminals))?;
         Ok(Tree::new_from_parts(
             self.graph,
@@ -204,6 +214,16 @@ impl Builder {
             .nt_indices
             .get(&self_id)
             .ok_or_else(|| format_err!("Nonterminal without children."))?;
+        // the root is defined by the header, it is neither listed nor attached to another node.
+        if self_id == 0
+            || self
+                .graph
+                .edges_directed(self_idx, Direction::Incoming)
+                .next()
+                .is_some()
+        {
+            return Err(format_err!("Nonterminal {} defined twice.", self_id));
+        }
         read_required_string_field(parts.next())?;
 
         let mut label_parts = read_required_string_field(parts.next())?.split('=');
-- 
2.43.0


From 4f72a763fa613028d408444e5358e9ded3e964fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 10/24] fix: NegraReader computed wrong spans if a nonterminal
 was listed before its children

---
 lumberjack/src/io/negra.rs | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 48a189d..607ab93 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -2,12 +2,12 @@ use std::collections::{hash_map::Entry, HashMap, VecDeque};
 use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
-use petgraph::prelude::{Direction, EdgeRef, NodeIndex, StableGraph};
+use petgraph::prelude::{Direction, NodeIndex, StableGraph};
 use petgraph::visit::{Dfs, VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
 use crate::tree::GraphWrap;
-use crate::{Edge, Node, NonTerminal, Span, Terminal, Tree, WriteTree};
+use crate::{Edge, Node, NonTerminal, Terminal, Tree, WriteTree};
 
 /// Iterator over constituency trees in a Negra export file.
 ///
@@ -88,7 +88,6 @@ struct Builder {
     n_terminals: usize,
     sentence_id: String,
     finished_terminals: bool,
-    num_non_projective: usize,
     processed_nts: usize,
     sec_edges: Vec<(usize, Option<String>, NodeIndex)>,
 }
@@ -124,7 +123,6 @@ impl Builder {
             sentence_id: bos_id.to_string(),
             finished_terminals: false,
             n_terminals: 0,
-            num_non_projective: 0,
             processed_nts: 1,
             sec_edges: Vec::new(),
         })
@@ -175,13 +173,10 @@ impl Builder {
         if n_reached != self.graph.node_count() {
             return Err(format_err!("Nonterminal is not attached to the root."));
         }
-        self.graph[root].set_span(Span::new(0, self.n_terminals))?;
-        Ok(Tree::new_from_parts(
-            self.graph,
-            self.n_terminals,
-            root,
-            self.num_non_projective,
-        ))
+        let mut tree = Tree::new_from_parts(self.graph, self.n_terminals, root, 0);
+        // nonterminals can be listed in any order, spans are only known once all are attached.
+        tree.reset_nt_spans();
+        Ok(tree)
     }
 
     /// Add the given line to the builder.
@@ -237,20 +232,7 @@ impl Builder {
         }
         read_required_string_field(parts.next())?;
 
-        self.process_edges(self_idx, parts)?;
-
-        let coverage = self
-            .graph
-            .edges_directed(self_idx, Direction::Outgoing)
-            .filter(|e| e.weight().is_primary())
-            .flat_map(|e| self.graph[e.target()].span().into_iter())
-            .collect();
-        let span = Span::from_vec(coverage)?;
-        if span.skips().is_some() {
-            self.num_non_projective += 1;
-        }
-        self.graph[self_idx].set_span(span)?;
-        Ok(())
+        self.process_edges(self_idx, parts)
     }
 
     /// Process line containing a NonTerminal.
-- 
2.43.0


From a9b1dd73f6915b62998b5e353353a9e0f36691a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 11/24] fix: multiline PTBReader dropped cut off trees, joined
 tokens across lines and panicked on closing brackets

---
 lumberjack/src/io/ptb.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 88a11e6..a65780f 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -312,12 +312,25 @@ where
                 }
                 let (line_open, line_closed) = count_pars(&line);
                 open += line_open;
+                if line_closed > open {
+                    return Some(Err(format_err!("Unbalanced brackets: {}", line)));
+                }
                 open -= line_closed;
-                buffer.push_str(line.as_str());;
+                // the line break separates tokens
+                if !buffer.is_empty() {
+                    buffer.push('\n');
+                }
+                buffer.push_str(line.as_str());
                 if open == 0 {
                     return Some(self.format.string_to_tree(&buffer));
                 }
             }
+            if !buffer.is_empty() {
+                return Some(Err(format_err!(
+                    "Found end of input inside of tree: {}",
+                    buffer
+                )));
+            }
         }
         None
     }
-- 
2.43.0


From 906829ab5b344dbc6b3f204276509ae6d1ac828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 12/24] fix: compare forms when comparing terminals

---
 lumberjack/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/node.rs b/lumberjack/src/node.rs
index 2f02449..f3db325 100644
--- a/lumberjack/src/node.rs
+++ b/lumberjack/src/node.rs
@@ -319,7 +319,11 @@ pub struct Terminal {
 
 impl PartialEq<Terminal> for Terminal {
     fn eq(&self, other: &Terminal) -> bool {
-        if self.pos != other.pos || self.span != other.span || self.lemma != other.lemma {
+        if self.form != other.form
+            || self.pos != other.pos
+            || self.span != other.span
+            || self.lemma != other.lemma
+        {
             return false;
         }
         match (&self.features, &other.features) {
-- 
2.43.0


From 3e277cd2d51fdd3153fa1b24f6c71a7c8f27fc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 13/24] fix: compare roots and number of children when
 comparing trees

---
 lumberjack/src/tree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 8edaa0c..dca7564 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -786,6 +786,10 @@ fn subtree_eq(tree_1_idx: NodeIndex, tree_1: &Tree, tree_2_idx: NodeIndex, tree_
         .collect::<Vec<_>>();
     tree_2.sort_indices(&mut nodes2);
 
+    if nodes1.len() != nodes2.len() {
+        return false;
+    }
+
     for (node1, node2) in nodes1.into_iter().zip(nodes2) {
         if tree_1[node1] != tree_2[node2] {
             return false;
@@ -817,6 +821,10 @@ impl PartialEq for Tree {
             return false;
         };
 
+        if self[self.root()] != other[other.root()] {
+            return false;
+        };
+
         subtree_eq(self.root(), self, other.root(), other)
     }
 }
-- 
2.43.0


From 2bb34bc98e564a18020b5a69f56a7c75d07672a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 14/24] fix: annotate part-of-speech tags in sentence order

---
 lumberjack/src/tree_modification.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index a9eb39c..6dacda0 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -22,7 +22,8 @@ impl AnnotatePOS for Tree {
     where
         S: Into<String>,
     {
-        let terminals = self.terminals().collect::<Vec<_>>();
+        let mut terminals = self.terminals().collect::<Vec<_>>();
+        self.sort_indices(&mut terminals);
         let mut pos_iter = pos_iter.into_iter();
         for terminal in terminals {
             if let Some(pos) = pos_iter.next() {
-- 
2.43.0


From 0170f08dc8cebf3b5f5cb553380ab9ccfdc1184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:05 +0000
Subject: [PATCH 15/24] fix: insert_intermediate inserted two nodes above
 terminals that were moved to the front

---
 lumberjack/src/tree_modification.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 6dacda0..f5f46f5 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -178,6 +178,7 @@ impl TreeOps for Tree {
                 children.sort_by(|c1, c2| self[c1.0].span().cmp(self[c2.0].span()));
                 let mut children = children.into_iter();
                 let (terminal, _) = children.next().unwrap();
+                visit_map.visit(terminal);
                 let mut insert = self.insert_unary_above(terminal, label.clone());
 
                 let mut prev_idx = self[terminal].span().start;
-- 
2.43.0


From 19494652ce80b5cbbd13b27699b84dc4138a7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 16/24] fix: compare secondary edges when comparing trees

---
 lumberjack/src/tree.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index dca7564..8ac2d56 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -811,6 +811,35 @@ fn subtree_eq(tree_1_idx: NodeIndex, tree_1: &Tree, tree_2_idx: NodeIndex, tree_
     true
 }
 
+// collect all nodes below and including `node` in pre-order, siblings are in linear order.
+fn ordered_nodes(tree: &Tree, node: NodeIndex, nodes: &mut Vec<NodeIndex>) {
+    nodes.push(node);
+    let mut children = tree.children(node).map(|(n, _)| n).collect::<Vec<_>>();
+    tree.sort_indices(&mut children);
+    for child in children {
+        ordered_nodes(tree, child, nodes);
+    }
+}
+
+// secondary edges into a node, parents are identified by their order in `nodes`.
+fn secondary_edges<'a>(
+    tree: &'a Tree,
+    node: NodeIndex,
+    nodes: &[NodeIndex],
+) -> Vec<(Option<usize>, Option<&'a str>)> {
+    let mut edges = tree
+        .graph
+        .edges_directed(node, Direction::Incoming)
+        .filter(|edge| !edge.weight().is_primary())
+        .map(|edge| {
+            let parent = nodes.iter().position(|n| *n == edge.source());
+            (parent, edge.weight().label())
+        })
+        .collect::<Vec<_>>();
+    edges.sort();
+    edges
+}
+
 impl PartialEq for Tree {
     fn eq(&self, other: &Tree) -> bool {
         // cheap checks first, node count and number of terminals
@@ -825,7 +854,17 @@ impl PartialEq for Tree {
             return false;
         };
 
-        subtree_eq(self.root(), self, other.root(), other)
+        if !subtree_eq(self.root(), self, other.root(), other) {
+            return false;
+        };
+
+        // the structures are identical, nodes are visited in the same order in both trees
+        let (mut nodes1, mut nodes2) = (Vec::new(), Vec::new());
+        ordered_nodes(self, self.root(), &mut nodes1);
+        ordered_nodes(other, other.root(), &mut nodes2);
+        nodes1.iter().zip(nodes2.iter()).all(|(node1, node2)| {
+            secondary_edges(self, *node1, &nodes1) == secondary_edges(other, *node2, &nodes2)
+        })
     }
 }
 
-- 
2.43.0


From a4e607c0041e2d224dd98abf21250ae03622432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 17/24] fix: decoding panicked on absolute tags without common
 ancestors

---
 lumberjack/src/io/encode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 193dc27..eb2dc1d 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -380,6 +380,9 @@ impl<'a> TryFrom<&'a str> for AbsoluteAncestor {
             .next()
             .ok_or_else(|| format_err!("Missing offset."))?
             .parse::<usize>()?;
+        if offset == 0 {
+            return Err(format_err!("Number of common ancestors has to be positive."));
+        }
         Ok(AbsoluteAncestor::new(offset, label))
     }
 }
-- 
2.43.0


From e01ada10e82b196e266f47e07543b0adbb42dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 18/24] fix: conversion of relative tags panicked on offsets
 out of range

---
 lumberjack/src/io/encode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index eb2dc1d..39d9972 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -470,7 +470,8 @@ impl AbsoluteEncoding {
             if let Some(ancestor) = ancestor {
                 let (n_common, label) = match ancestor {
                     RelativeAncestor::Regular { label, offset } => {
-                        let n_common = offset + prev_n;
+                        // offsets out of range are handled like negative numbers of ancestors
+                        let n_common = offset.checked_add(prev_n).unwrap_or(0);
                         if n_common < 1 {
                             return ConversionResult::Error(RelativeToAbsoluteError {
                                 iter,
@@ -563,7 +564,7 @@ impl RelativeToAbsoluteError {
             if let Some(ancestor) = ancestor {
                 let (n_common, label) = match ancestor {
                     RelativeAncestor::Regular { label, offset } => {
-                        let mut n_common = offset + self.prev_n;
+                        let mut n_common = offset.checked_add(self.prev_n).unwrap_or(0);
                         if n_common < 1 {
                             n_common = 2;
                         }
-- 
2.43.0


From 7f156e6fbe1a38c33565e97debd5b854a00bedb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 19/24] fix: conversion from empty CoNLL-X sentences panicked

---
 lumberjack/src/io/conllx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 5ed131f..35bdecd 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -77,6 +77,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Sentence without tokens."));
+        }
         let mut tree = Tree::decode(AbsoluteEncoding::new(encoding), terminals);
         tree.restore_unary_chains("_")?;
         Ok(tree)
@@ -113,6 +116,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Sentence without tokens."));
+        }
         let encoding = match AbsoluteEncoding::try_from_relative(RelativeEncoding::new(encoding)) {
             ConversionResult::Success(encoding) => encoding,
             ConversionResult::Error(err) => err.fix(),
-- 
2.43.0


From 0ca05916283637819ee36c8e4cc74cacf867b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 20/24] fix: decoded trees had wrong terminal counts and
 positions for unnumbered or surplus terminals

---
 lumberjack/src/io/encode.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 39d9972..755f116 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -217,6 +217,10 @@ pub trait Decode: Sized {
     /// let absolute = AbsoluteEncoding::try_from_relative(relative_encoding).unwrap_or_fix();
     /// let tree = Tree::decode(absolute, terminals);
     /// ```
+    ///
+    /// The terminals are numbered in the given order.
+    ///
+    /// Panics if there are no terminals or if their number differs from the number of tags.
     fn decode(encoding: AbsoluteEncoding, terminals: Vec<Terminal>) -> Self;
 
     fn remove_dummy_nodes(&mut self) -> Result<(), Error>;
@@ -227,6 +231,11 @@ impl Decode for Tree {
         let encoding = encoding.0;
         let mut graph = StableGraph::new();
         let n_terminals = terminals.len();
+        assert_eq!(
+            encoding.len(),
+            n_terminals,
+            "Number of tags and terminals has to be the same."
+        );
         let root = Node::NonTerminal(NonTerminal::new(EMPTY_NODE, 0));
         let mut root_idx = graph.add_node(root);
         let mut prev = None;
@@ -235,6 +244,7 @@ impl Decode for Tree {
             encoding.into_iter().zip(terminals).enumerate()
         {
             let mut cur = root_idx;
+            terminal.set_idx(idx);
             // leaf unary chains are encoded as part of the POS label of terminals.
             if let Some(unary_chain) = unary_chain {
                 terminal
-- 
2.43.0


From f1cfe02d42bdf60ddce375aff34169f880af452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 21/24] fix: NegraWriter panicked on single-word trees and
 secondary edges from terminals

---
 lumberjack/src/io/negra.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 607ab93..ac7148a 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -402,8 +402,16 @@ impl<W> NegraWriter<W> {
     }
 
     /// Get the Negra String representation for edge and parent ID.
-    fn get_parent_edge(idx: NodeIndex, tree: &Tree, id_map: &HashMap<NodeIndex, String>) -> String {
-        let (parent, edge) = tree.parent(idx).unwrap();
+    ///
+    /// Returns `Err` if the node or its secondary parent can't be represented.
+    fn get_parent_edge(
+        idx: NodeIndex,
+        tree: &Tree,
+        id_map: &HashMap<NodeIndex, String>,
+    ) -> Result<String, Error> {
+        let (parent, edge) = tree
+            .parent(idx)
+            .ok_or_else(|| format_err!("Node without parent:\n{}", tree[idx]))?;
         let mut edge_rep = tree[edge].label().unwrap_or_else(|| "--").to_string();
         edge_rep.push_str(&Self::pad(edge_rep.len(), 8));
         let id = id_map.get(&parent).unwrap();
@@ -413,10 +421,13 @@ impl<W> NegraWriter<W> {
             let label = tree[sec_edge].label().unwrap_or_else(|| "--");
             edge_rep.push_str(label);
             edge_rep.push_str(&Self::pad(label.len(), 8));
-            edge_rep.push_str(id_map.get(&parent).unwrap());
+            let id = id_map.get(&parent).ok_or_else(|| {
+                format_err!("Secondary parent is a terminal:\n{}", tree[parent])
+            })?;
+            edge_rep.push_str(id);
         }
 
-        edge_rep
+        Ok(edge_rep)
     }
 }
 
@@ -484,7 +495,7 @@ where
             writeln!(
                 self.writer,
                 "{}",
-                Self::get_parent_edge(terminal_idx, tree, &nt_id_map)
+                Self::get_parent_edge(terminal_idx, tree, &nt_id_map)?
             )?;
         }
 
@@ -499,7 +510,7 @@ where
             writeln!(
                 self.writer,
                 "{}",
-                Self::get_parent_edge(nt_idx, tree, &nt_id_map)
+                Self::get_parent_edge(nt_idx, tree, &nt_id_map)?
             )?;
         }
 
-- 
2.43.0


From 573addc014dd8d54e92bc915e42839d7e71514e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 22/24] fix: projectivize picked the skipped terminal in hash
 order

---
 lumberjack/src/tree_modification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index f5f46f5..79333ad 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -323,11 +323,11 @@ impl Projectivize for Tree {
             let mut dfs = DfsPostOrder::new(GraphWrap::new(self.graph()), self.root());
             while let Some(attachment_point) = dfs.next(GraphWrap::new(self.graph())) {
                 // as long as the node at attachment_point is discontinuous, skipped indices will
-                // be returned.
+                // be returned, the leftmost first.
                 while let Some(&skipped) = self[attachment_point]
                     .span()
                     .skips()
-                    .and_then(|s| s.iter().next())
+                    .and_then(|s| s.iter().min())
                 {
                     let mut prev = terminals[skipped];
                     // start climbing at skipped index
-- 
2.43.0


From c3205bb9fe6032d20a1adf7dc1440e241762e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:51 +0000
Subject: [PATCH 23/24] fix: brackets in labels, annotations and edge labels
 reached the bracketed output

---
 lumberjack/src/io/ptb.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index a65780f..88f26b6 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -144,14 +144,17 @@ impl PTBFormat {
                 representation.push_str(edge.unwrap_or("--"));
             }
         }
-        representation
+        representation.replace("(", "LBR").replace(")", "RBR")
     }
 
     fn fmt_term(&self, form: &str, pos: &str, edge: Option<&str>) -> String {
         let pos = pos.replace("(", "LBR").replace(")", "RBR");
         let form = form.replace("(", "LBR").replace(")", "RBR");
         if let PTBFormat::TueBa = self {
-            let edge = edge.unwrap_or("--");
+            let edge = edge
+                .unwrap_or("--")
+                .replace("(", "LBR")
+                .replace(")", "RBR");
             format!("({}:{} {})", pos, edge, form)
         } else {
             format!("({} {})", pos, form)
-- 
2.43.0


From af460963ab193f59215121120de056b4724bfe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:15 +0000
Subject: [PATCH 24/24] fix: IDs were projected in creation order instead of
 sentence order

---
 lumberjack/src/tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 8ac2d56..63978fd 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -448,7 +448,7 @@ impl Tree {
     /// If the closure returns `true`, climbing is stopped and the method advances to the
     /// next terminal.
     ///
-    /// Order of terminals does not necessarily correspond to linear order in the sentence.
+    /// The terminals are visited in linear order.
     ///
     /// The closure takes the Tree, the current NonTerminal's index and the current Terminal's
     /// index as arguments. The Tree structure can also be mutated in this method but it won't
@@ -483,7 +483,8 @@ impl Tree {
     where
         F: FnMut(&mut Tree, NodeIndex, NodeIndex) -> bool,
     {
-        let terminals = self.terminals().collect::<Vec<_>>();
+        let mut terminals = self.terminals().collect::<Vec<_>>();
+        self.sort_indices(&mut terminals);
         for terminal in terminals {
             let mut climber = Climber::new(terminal, self);
             while let Some(parent) = climber.next(self) {
-- 
2.43.0

