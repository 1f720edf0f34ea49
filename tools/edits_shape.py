TR, TM = ["lumberjack/src/" + x for x in ("tree.rs", "tree_modification.rs")]
INS = """        assert!(
            !self[parent].is_terminal(),
            "Can't insert node below terminal."
        );
"""
PUSH = """        if self[self.root].is_terminal() {
            return Err(format_err!(
                "Can't append terminal node if root is a terminal."
            ));
        }
"""
BEL = """        if self[node].is_terminal() {
            return Err(format_err!("Can't attach nodes to terminals."));
        }
"""
RTERM = """        if self[new_parent].is_terminal() {
            return Err(format_err!("Terminal node as new parent."));
        } else if"""
RSIB = """ else if self.siblings(child).count() == 0 && parent != new_parent {
            return Err(format_err!("Last child of a node."));
        }"""
DOM = """        if new_ancestors.contains(&child) {
            return Err(format_err!("New parent is dominated by the node."));
        }
"""
CLIMB = """        let mut climber = Climber::new(new_parent, self);
        while let Some(node) = climber.next(self) {
            new_ancestors.push(node);
        }
"""
TSIB = """        if self.siblings(terminal).count() == 0 {
            return Err(format_err!("Last terminal of a branch."));
        }
"""
RNT = """            for (child, _) in self.children(nonterminal).collect::<Vec<_>>() {
                self.graph
                    .add_edge(parent, child, Edge::new_primary::<String>(None));
            }
"""
ROOT1 = "        } else if self.children(self.root).count() == 1 {"
ROOTC = """            let (child, _) = self.children(self.root).next().unwrap();
            self.root = child;
"""
ABO = """            if child == self.root {
                self.root = insert;
            }
"""
ABOLD = """            let old_edge = self.graph.remove_edge(old_edge_idx).unwrap();
            self.graph
                .add_edge(parent, insert, Edge::new_primary::<String>(None));
            self.graph.add_edge(insert, child, old_edge);
"""
BELLOOP = """        for (child, edge) in children {
            self.graph.remove_edge(edge).unwrap();
            self.graph
                .add_edge(insert, child, Edge::new_primary::<String>(None));
        }
"""
CHILDREN = "        let children = self.children(node).collect::<Vec<_>>();\n"
SELF = """        if child == new_parent {
            return Err(format_err!("New parent is node itself."));
        }
"""
REM = "        let edge = self.graph.remove_edge(edge).unwrap();\n        let edge_idx = self\n            .graph\n            .add_edge(new_parent, child, Edge::new_primary::<String>(None));\n        let child_span"
TERMS = """        let terminals = self.terminals().collect::<Vec<_>>();
        for terminal in terminals {
            let terminal = self[terminal]
                .terminal_mut()
                .expect("Unexpected NonTerminal");
            let pos = terminal.idx();
            if pos >= index {"""
EDITS = [
 ("s-ins-term", "C14", [(TR, INS, "")]),
 ("s-ins-other", "C14", [(TR, INS, INS.replace("self[parent]", "self[self.root]"))]),
 ("s-push-term", "C14", [(TR, PUSH, "")]),
 ("s-below-term", "C14", [(TR, BEL, "")]),
 ("s-reattach-term", "C14", [(TR, RTERM, "        if")]),
 ("s-reattach-term-child", "C14", [(TR, RTERM, RTERM.replace("self[new_parent]", "self[parent]"))]),
 ("s-reattach-sib", "C14", [(TR, RSIB, "")]),
 ("s-reattach-sib-parent", "C14", [(TR, RSIB, RSIB.replace("siblings(child)", "siblings(new_parent)"))]),
 ("s-reattach-sib-one", "C14", [(TR, RSIB, RSIB.replace("parent != new_parent", "self[parent].span() != self[new_parent].span()"))]),
 ("s-dom", "C14", [(TR, DOM, "")]),
 ("s-dom-old", "C14", [(TR, CLIMB, CLIMB.replace("Climber::new(new_parent", "Climber::new(parent"))]),
 ("s-dom-once", "C14", [(TR, CLIMB, CLIMB.replace("while let", "if let"))]),
 ("s-dom-term", "C14", [(TR, DOM, DOM.replace("new_ancestors.contains(&child)", "!self[child].is_terminal() && new_ancestors.len() > 2 && new_ancestors.contains(&child)"))]),
 ("s-dom-span", "C14", [(TR, DOM, DOM.replace("new_ancestors.contains(&child)", "self[child].span().n_indices() > self[new_parent].span().n_indices() && new_ancestors.contains(&child)"))]),
 ("s-dom-skip", "C14", [(TR, CLIMB, CLIMB.replace("            new_ancestors.push(node);", "            if self.children(node).count() > 1 {\n                new_ancestors.push(node);\n            }"))]),
 ("s-dom-limit", "C14", [(TR, CLIMB, CLIMB.replace("            new_ancestors.push(node);", "            if new_ancestors.len() > 3 {\n                break;\n            }\n            new_ancestors.push(node);"))]),
 ("s-self", "C14", [(TR, SELF, ""), (TR, "let mut new_ancestors = vec![new_parent];", "let mut new_ancestors = vec![];")]),
 ("s-reattach-keep", "C14", [(TR, REM, REM.replace("self.graph.remove_edge(edge).unwrap();", "self.graph[edge].clone();"))]),
 ("s-term-sib", "C14", [(TR, TSIB, "")]),
 ("s-term-sib-nt", "C14", [(TR, TSIB, TSIB.replace("self.siblings(terminal).count() == 0", "self.n_terminals == 1"))]),
 ("s-term-sib-kids", "C14", [(TR, TSIB, TSIB.replace("self.siblings(terminal).count() == 0", "self.siblings(terminal).count() == 0 && self.parent(self.parent(terminal).unwrap().0).is_none()"))]),
 ("s-nt-terminals", "C14", [(TR, RNT, RNT.replace("                self.graph\n                    .add", "                if !self[child].is_terminal() {\n                    continue;\n                }\n                self.graph\n                    .add"))]),
 ("s-nt-first", "C14", [(TR, RNT, RNT.replace("Edge::new_primary::<String>(None));\n", "Edge::new_primary::<String>(None));\n                break;\n"))]),
 ("s-nt-skip", "C14", [(TR, RNT, RNT.replace("self.children(nonterminal).collect", "self.children(nonterminal).skip(1).collect"))]),
 ("s-nt-root", "C14", [(TR, RNT, RNT.replace("add_edge(parent, child", "add_edge(self.root, child"))]),
 ("s-nt-twice", "C14", [(TR, RNT, RNT.replace("Edge::new_primary::<String>(None));\n            }", "Edge::new_primary::<String>(None));\n                if self[child].is_terminal() {\n                    self.graph.add_edge(self.root, child, Edge::new_primary::<String>(None));\n                }\n            }"))]),
 ("s-root-many", "C14", [(TR, ROOT1, "        } else if self.children(self.root).count() >= 1 {")]),
 ("s-root-terms", "C14", [(TR, ROOT1, "        } else if self.children(self.root).filter(|(c, _)| !self[*c].is_terminal()).count() == 1 {")]),
 ("s-root-stay", "C14", [(TR, ROOTC, "            self.children(self.root).next().unwrap();\n")]),
 ("s-above-root", "C14", [(TR, ABO, "")]),
 ("s-above-root-nt", "C14", [(TR, ABO, ABO.replace("child == self.root", "child == self.root && !self[child].is_terminal()"))]),
 ("s-above-old", "C14", [(TR, ABOLD, ABOLD.replace("self.graph.remove_edge(old_edge_idx).unwrap()", "self.graph[old_edge_idx].clone()"))]),
 ("s-above-noadd", "C14", [(TR, ABOLD, ABOLD.replace("            self.graph\n                .add_edge(parent, insert, Edge::new_primary::<String>(None));\n", "            let _ = parent;\n"))]),
 ("s-above-swap", "C14", [(TR, ABOLD, ABOLD.replace("add_edge(insert, child, old_edge)", "add_edge(parent, child, old_edge)"))]),
 ("s-below-filter", "C14", [(TR, CHILDREN, CHILDREN.replace("children(node)", "children(node).filter(|(c, _)| !self[*c].is_terminal())"))]),
 ("s-below-keep", "C14", [(TR, BELLOOP, BELLOOP.replace("            self.graph.remove_edge(edge).unwrap();\n", "            let _ = edge;\n"))]),
 ("s-below-drop", "C14", [(TR, BELLOOP, BELLOOP.replace("            self.graph\n                .add", "            if self.graph[child].is_terminal() && self.n_terminals > 3 {\n                continue;\n            }\n            self.graph\n                .add"))]),
 ("s-below-late", "C14", [(TR, CHILDREN, ""), (TR, "        for (child, edge) in children {", "        for (child, edge) in self.children(node).collect::<Vec<_>>() {")]),
 # same behaviour
 ("s-ok-loop", None, [(TR, DOM, """        for ancestor in new_ancestors.iter() {
            if *ancestor == child {
                return Err(format_err!("New parent is dominated by the node."));
            }
        }
""")]),
 ("s-ok-inline", None, [(TR, CLIMB, CLIMB.replace("            new_ancestors.push(node);", "            if node == child {\n                return Err(format_err!(\"New parent is dominated by the node.\"));\n            }\n            new_ancestors.push(node);")), (TR, DOM, "")]),
 ("s-ok-set", None, [(TR, "let mut new_ancestors = vec![new_parent];", "let mut new_ancestors = std::collections::HashSet::new();\n        new_ancestors.insert(new_parent);"), (TR, "new_ancestors.push(node);", "new_ancestors.insert(node);")]),
 ("s-ok-any", None, [(TR, DOM, DOM.replace("new_ancestors.contains(&child)", "new_ancestors.iter().any(|a| *a == child)"))]),
 ("s-ok-helper", None, [(TR, "        let mut new_ancestors = vec![new_parent];\n" + CLIMB, "        let new_ancestors = self.ancestors_or_self(new_parent);\n"),
                       (TR, "    /// Remove nonterminal node from the graph.\n", """    fn ancestors_or_self(&self, node: NodeIndex) -> Vec<NodeIndex> {
        let mut nodes = vec![node];
        let mut climber = Climber::new(node, self);
        while let Some(node) = climber.next(self) {
            nodes.push(node);
        }
        nodes
    }

    /// Remove nonterminal node from the graph.
""")]),
 ("s-ok-parent-loop", None, [(TR, CLIMB, """        let mut cur = new_parent;
        while let Some((node, _)) = self.parent(cur) {
            new_ancestors.push(node);
            cur = node;
        }
""")]),
 ("s-ok-rootloop", None, [(TR, CLIMB, """        let mut cur = new_parent;
        while cur != self.root {
            cur = self.parent(cur).unwrap().0;
            new_ancestors.push(cur);
        }
""")]),
 ("s-ok-sib-next", None, [(TR, RSIB, RSIB.replace(".count() == 0", ".next().is_none()")), (TR, TSIB, TSIB.replace(".count() == 0", ".next().is_none()"))]),
 ("s-ok-sib-count", None, [(TR, RSIB, RSIB.replace("self.siblings(child).count() == 0", "self.children(parent).count() == 1"))]),
 ("s-ok-sib-lt", None, [(TR, RSIB, RSIB.replace("self.siblings(child).count() == 0", "self.siblings(child).count() < 1")), (TR, ROOT1, "        } else if self.children(self.root).count() < 2 {")]),
 ("s-ok-nest", None, [(TR, RTERM + RSIB.replace(" else if", "", 1), """        if self[new_parent].is_terminal() {
            return Err(format_err!("Terminal node as new parent."));
        }
        if parent != new_parent {
            let n = self.siblings(child).count();
            if n == 0 {
                return Err(format_err!("Last child of a node."));
            }
        }""")]),
 ("s-ok-match", None, [(TR, RTERM, """        match self[new_parent] {
            Node::Terminal(_) => return Err(format_err!("Terminal node as new parent.")),
            Node::NonTerminal(_) => (),
        }
        if""")]),
 ("s-ok-foreach", None, [(TR, RNT, """            let children = self.children(nonterminal).map(|(c, _)| c).collect::<Vec<_>>();
            children.into_iter().for_each(|child| {
                self.graph
                    .add_edge(parent, child, Edge::new_primary::<String>(None));
            });
""")]),
 ("s-ok-while", None, [(TR, BELLOOP, """        let mut children = children.into_iter();
        while let Some((child, edge)) = children.next() {
            self.graph
                .add_edge(insert, child, Edge::new_primary::<String>(None));
            self.graph.remove_edge(edge).unwrap();
        }
""")]),
 ("s-ok-index", None, [(TR, BELLOOP, """        for i in 0..children.len() {
            let (child, edge) = children[i];
            self.graph.remove_edge(edge).unwrap();
            self.graph
                .add_edge(insert, child, Edge::new_primary::<String>(None));
        }
""")]),
 ("s-ok-split", None, [(TR, BELLOOP, """        for (_, edge) in children.iter() {
            self.graph.remove_edge(*edge).unwrap();
        }
        for (child, _) in children.iter() {
            self.graph
                .add_edge(insert, *child, Edge::new_primary::<String>(None));
        }
""")]),
 ("s-ok-nt-edges", None, [(TR, RNT, """            for (child, edge) in self.children(nonterminal).collect::<Vec<_>>() {
                self.graph.remove_edge(edge);
                self.graph
                    .add_edge(parent, child, Edge::new_primary::<String>(None));
            }
""")]),
 ("s-ok-above", None, [(TR, ABOLD, """            self.graph.add_edge(parent, insert, Edge::new_primary::<String>(None));
            let old_edge = self.graph.remove_edge(old_edge_idx).unwrap();
            self.graph.add_edge(insert, child, old_edge);
""")]),
 ("s-ok-above-always", None, [(TR, ABO, "            self.root = insert;\n")]),
 ("s-ok-root-kids", None, [(TR, ROOT1 + "\n" + ROOTC, """        } else if self.children(nonterminal).count() == 1 {
            let child = self.children(nonterminal).map(|(c, _)| c).next().unwrap();
            self.root = child;
""")]),
 ("s-ok-root-vec", None, [(TR, RNT + ROOT1 + "\n" + ROOTC + """        } else {
            return Err(format_err!("Root has multiple outgoing edges."));
        }
""", RNT + """        } else {
            let below = self.children(nonterminal).map(|(c, _)| c).collect::<Vec<_>>();
            if below.len() != 1 {
                return Err(format_err!("Root has multiple outgoing edges."));
            }
            self.root = below[0];
        }
""")]),
]
