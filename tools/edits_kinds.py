TR, TM, NG, EN, PT, CX = ["lumberjack/src/" + x for x in ("tree.rs", "tree_modification.rs", "io/negra.rs", "io/encode.rs", "io/ptb.rs", "io/conllx.rs")]
CH = """            .edges_directed(node, Direction::Outgoing)
            .filter(|edge_ref| edge_ref.weight().is_primary())
            .map(|edge_ref| (edge_ref.target(), edge_ref.id()))"""
GW = """                .edges_directed(node, Direction::Outgoing)
                .filter(|edge| edge.weight().is_primary())
                .map(|edge| edge.target()),"""
PAR = """        for edge in self.graph.edges_directed(node, Direction::Incoming) {
            if edge.weight().is_primary() {
                return Some((edge.source(), edge.id()));
            }
        }
        None"""
SIB = """        } else if self.siblings(child).count() == 0 && parent != new_parent {"""
RS = """        if !self[edge].is_primary() {
            self.graph.remove_edge(edge)
        } else {
            None
        }"""
RE = """            .add_edge(new_parent, child, Edge::Secondary(None));"""
ROOT1 = "        } else if self.children(self.root).count() == 1 {"
RESET = """                let coverage = self
                    .children(node)
                    .flat_map(|(child, _)| self[child].span().into_iter())
                    .collect::<Vec<_>>();"""
EDITS = [
 ("k-children-all", "C06", [(TR, CH, CH.replace("            .filter(|edge_ref| edge_ref.weight().is_primary())\n", ""))]),
 ("k-children-label", "C06", [(TR, CH, CH.replace("edge_ref.weight().is_primary()", "edge_ref.weight().label().is_none() || edge_ref.weight().is_primary()"))]),
 ("k-view-all", "C06", [(TR, GW, GW.replace("                .filter(|edge| edge.weight().is_primary())\n", ""))]),
 ("k-view-in", "C06", [(TR, GW, "                .neighbors_directed(node, Direction::Outgoing),")]),
 ("k-parent-first", "C06", [(TR, PAR, "        self.graph.edges_directed(node, Direction::Incoming).next().map(|edge| (edge.source(), edge.id()))")]),
 ("k-parent-last", "C06", [(TR, PAR, PAR.replace("            if edge.weight().is_primary() {\n                return Some((edge.source(), edge.id()));\n            }\n", "            return Some((edge.source(), edge.id()));\n"))]),
 ("k-sib-count", "C06", [(TR, SIB, "        } else if self.graph.edges_directed(parent, Direction::Outgoing).count() == 1 && parent != new_parent {")]),
 ("k-sib-neigh", "C06", [(TR, SIB, "        } else if self.graph.neighbors(parent).count() == 1 && parent != new_parent {")]),
 ("k-remove-any", "C06", [(TR, RS, "        self.graph.remove_edge(edge)")]),
 ("k-remove-flip", "C06", [(TR, RS, RS.replace("!self", "self"))]),
 ("k-reattach-prim", "C06", [(TR, RE, "            .add_edge(new_parent, child, Edge::new_primary::<String>(None));")]),
 ("k-reattach-span", "C06", [(TR, RE + "\n", RE + "\n        self.reset_nt_spans();\n")]),
 ("k-reattach-dispatch", "C06", [(TR, "            Edge::Secondary(_) => Ok(self.reattach_secondary(new_parent, edge)),", "            Edge::Secondary(None) => Ok(self.reattach_secondary(new_parent, edge)),\n            Edge::Secondary(_) => self.reattach_primary(new_parent, edge),")]),
 ("k-root-count", "C06", [(TR, ROOT1, "        } else if self.graph.edges(self.root).count() == 1 {")]),
 ("k-reset-span", "C06", [(TR, RESET, RESET.replace(".children(node)", ".graph\n                    .neighbors(node)").replace("|(child, _)|", "|child|"))]),
 ("k-addsec-prim", "C06", [(TR, "            .add_edge(parent, child, Edge::new_secondary(label))", "            .add_edge(parent, child, Edge::new_primary(label))")]),
 ("k-rmnt-all", "C06", [(TR, "            for (child, _) in self.children(nonterminal).collect::<Vec<_>>() {", "            for child in self.graph.neighbors(nonterminal).collect::<Vec<_>>() {")]),
 ("k-desc-raw", "C06", [(TR, "            dfs: Dfs::new(GraphWrap(tree.graph()), node),", "            dfs: Dfs::new(tree.graph(), node),"), (TR, "        while let Some(node) = self.dfs.next(GraphWrap(self.tree.graph())) {", "        while let Some(node) = self.dfs.next(self.tree.graph()) {")]),
 ("k-siblings-sec", "C06", [(TR, "                self.children(parent)\n                    .filter(move |(target, _)| *target != node),", "                self.children(parent).chain(self.secondary_children(parent))\n                    .filter(move |(target, _)| *target != node),")]),
 ("k-sib-parent", "C06", [(TR, "        match (self.parent(node_1), self.parent(node_2)) {", "        match (self.parent(node_1).or_else(|| self.secondary_parent(node_1)), self.parent(node_2)) {")]),
 ("k-neg-dfs", "C06", [(NG, "        let mut dfs = Dfs::new(GraphWrap::new(&self.graph), root);", "        let mut dfs = Dfs::new(&self.graph, root);"), (NG, "        while dfs.next(GraphWrap::new(&self.graph)).is_some() {", "        while dfs.next(&self.graph).is_some() {")]),
 # behaviour-preserving
 ("r-k-children-map", None, [(TR, CH, """            .edges_directed(node, Direction::Outgoing)
            .filter_map(|edge_ref| {
                if edge_ref.weight().is_primary() {
                    Some((edge_ref.target(), edge_ref.id()))
                } else {
                    None
                }
            })""")]),
 ("r-k-parent-find", None, [(TR, PAR, "        self.graph\n            .edges_directed(node, Direction::Incoming)\n            .find(|edge| edge.weight().is_primary())\n            .map(|edge| (edge.source(), edge.id()))")]),
 ("r-k-parent-match", None, [(TR, PAR, PAR.replace("            if edge.weight().is_primary() {\n                return Some((edge.source(), edge.id()));\n            }\n", "            match edge.weight() {\n                crate::Edge::Primary(_) => return Some((edge.source(), edge.id())),\n                crate::Edge::Secondary(_) => continue,\n            }\n"))]),
 ("r-k-sib-any", None, [(TR, SIB, "        } else if !self.children(parent).any(|(other, _)| other != child) && parent != new_parent {")]),
 ("r-k-sib-next", None, [(TR, SIB, "        } else if self.siblings(child).next().is_none() && parent != new_parent {")]),
 ("r-k-remove-early", None, [(TR, RS, "        if self[edge].is_primary() {\n            return None;\n        }\n        self.graph.remove_edge(edge)")]),
 ("r-k-sib-raw", None, [(TR, SIB, "        } else if !self.graph.edges_directed(parent, Direction::Outgoing).any(|e| e.target() != child && e.weight().is_primary()) && parent != new_parent {")]),
 ("r-k-sib-loop", None, [(TR, "        // ensure we're not removing the last child of a node\n", "        // ensure we're not removing the last child of a node\n        let mut others = 0;\n        for e in self.graph.edges_directed(parent, Direction::Outgoing) {\n            if e.target() == child {\n                continue;\n            }\n            if !e.weight().is_primary() {\n                continue;\n            }\n            others += 1;\n        }\n"), (TR, SIB, "        } else if others == 0 && parent != new_parent {")]),
 ("k-writer-leafs", "C06", [("lumberjack/src/io/negra.rs", "if tree.children(parent).all(|(n, _)| tree[n].is_terminal()) {", "if tree.graph().neighbors(parent).all(|n| tree[n].is_terminal()) {")]),
 ("k-writer-visited", "C06", [("lumberjack/src/io/negra.rs", "if tree.children(parent).all(|(n, _)| visit_map.is_visited(&n)) {", "if tree.graph().neighbors(parent).all(|n| visit_map.is_visited(&n)) {")]),
]
