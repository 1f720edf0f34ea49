TR = "lumberjack/src/tree.rs"; NO="lumberjack/src/node.rs"; SP="lumberjack/src/span.rs"; ED="lumberjack/src/edge.rs"
P12 = """        let p1 = tree_1
            .parent(node1)
            .map(|(parent_id, edge_id)| (&tree_1[parent_id], &tree_1[edge_id]));
        let p2 = tree_2
            .parent(node2)
            .map(|(parent_id, edge_id)| (&tree_2[parent_id], &tree_2[edge_id]));
        if p1 != p2 {
            return false;
        }
"""
REC = """        if !subtree_eq(node1, tree_1, node2, tree_2) {
            return false;
        }
"""
LOOP = "    for (node1, node2) in nodes1.into_iter().zip(nodes2) {"
FT = """        match (&self.features, &other.features) {
            (Some(f), Some(f_other)) => f == f_other,
            (None, None) => true,
            (Some(f), None) => f.inner().is_empty(),
            (None, Some(f)) => f.inner().is_empty(),
        }
    }
}

impl Terminal {"""
EDITS = [
 ("cmp-no-lemma", "C11", [(NO, "\n            || self.lemma != other.lemma", "")]),
 ("cmp-lemma-len", "C11", [(NO, "self.lemma != other.lemma", "self.lemma.is_some() != other.lemma.is_some()")]),
 ("cmp-form-ci", "C11", [(NO, "self.form != other.form", "!self.form.eq_ignore_ascii_case(&other.form)")]),
 ("cmp-feat-one-side", "C11", [(NO, FT, FT.replace("(None, Some(f)) => f.inner().is_empty()", "(None, Some(_)) => true"))]),
 ("cmp-feat-strict", "C11", [(NO, FT, FT.replace("(None, Some(f)) => f.inner().is_empty()", "(None, Some(_)) => false"))]),
 ("cmp-feat-keys", "C11", [(NO, FT, FT.replace("(Some(f), Some(f_other)) => f == f_other", "(Some(f), Some(f_other)) => f.inner().keys().eq(f_other.inner().keys())"))]),
 ("cmp-nt-span-bounds", "C11", [(NO, "self.label != other.label() || self.span != other.span", "self.label != other.label() || self.span.bounds() != other.span.bounds()")]),
 ("cmp-nt-no-span", "C11", [(NO, "self.label != other.label() || self.span != other.span", "self.label != other.label()")]),
 ("cmp-edge-label-only", "C11", [(ED, "#[derive(Clone, Debug, PartialEq, Eq)]", "#[derive(Clone, Debug, Eq)]"), (ED, "// implementing display", "impl PartialEq for Edge {\n    fn eq(&self, other: &Edge) -> bool {\n        self.label() == other.label()\n    }\n}\n\n// implementing display")]),
 ("cmp-span-noskips", "C11", [(SP, "#[derive(Clone, Debug, PartialEq, Eq)]\npub struct Span", "#[derive(Clone, Debug, Eq)]\npub struct Span"), (SP, "impl Ord for Span {", "impl PartialEq for Span {\n    fn eq(&self, other: &Span) -> bool {\n        self.start == other.start && self.end == other.end && self.n_indices() == other.n_indices()\n    }\n}\n\nimpl Ord for Span {")]),
 ("cmp-ord-end-first", "C11", [(SP, "        if self.start != other.start {\n            self.start.cmp(&other.start)\n        } else if self.end != other.end {\n            self.end.cmp(&other.end)", "        if self.end != other.end {\n            self.end.cmp(&other.end)\n        } else if self.start != other.start {\n            self.start.cmp(&other.start)")]),
 ("cmp-ord-end-rev", "C11", [(SP, "self.end.cmp(&other.end)", "other.end.cmp(&self.end)")]),
 ("cmp-ord-n-rev", "C11", [(SP, "self.n_indices().cmp(&other.n_indices())", "other.n_indices().cmp(&self.n_indices())")]),
 ("cmp-ord-n-equal", "C11", [(SP, "self.n_indices().cmp(&other.n_indices())", "Ordering::Equal")]),
 ("cmp-ord-nindices", "C11", [(SP, "self.end - self.start - skips.len()", "self.end - self.start")]),
 ("cmp-ord-skips-len", "C11", [(SP, "self.n_indices().cmp(&other.n_indices())", "self.skips().map(|s| s.len()).cmp(&other.skips().map(|s| s.len()))")]),
 ("cmp-partial-diff", "C11", [(SP, "        Some(self.cmp(other))", "        Some(self.bounds().cmp(&other.bounds()))")]),
 ("cmp-partial-none", "C11", [(SP, "        Some(self.cmp(other))", "        if self.start > other.end { None } else { Some(self.cmp(other)) }")]),
 ("cmp-tree-no-root", "C11", [(TR, "        if self[self.root()] != other[other.root()] {\n            return false;\n        };\n", "")]),
 ("cmp-tree-no-len", "C11", [(TR, "    if nodes1.len() != nodes2.len() {\n        return false;\n    }\n", "")]),
 ("cmp-tree-no-edge", "C11", [(TR, P12, "")]),
 ("cmp-tree-edge-label", "C11", [(TR, P12, P12.replace("&tree_1[edge_id]", "tree_1[edge_id].is_primary()").replace("&tree_2[edge_id]", "tree_2[edge_id].is_primary()"))]),
 ("cmp-tree-no-rec", "C11", [(TR, REC, "")]),
 ("cmp-tree-rec-ret", "C11", [(TR, REC, "        if subtree_eq(node1, tree_1, node2, tree_2) {\n            return true;\n        }\n")]),
 ("cmp-tree-no-node", "C11", [(TR, "        if tree_1[node1] != tree_2[node2] {\n            return false;\n        }\n", "")]),
 ("cmp-tree-label-only", "C11", [(TR, "tree_1[node1] != tree_2[node2]", "tree_1[node1].label() != tree_2[node2].label()")]),
 ("cmp-tree-rec-guard", "C11", [(TR, "        if !subtree_eq(node1", "        if tree_1[node1].span().n_indices() > 1 && !subtree_eq(node1")]),
 ("cmp-tree-no-sec", "C11", [(TR, "        nodes1.iter().zip(nodes2.iter()).all(|(node1, node2)| {\n            secondary_edges(self, *node1, &nodes1) == secondary_edges(other, *node2, &nodes2)\n        })", "        nodes1.len() == nodes2.len()")]),
 ("cmp-tree-sec-count", "C11", [(TR, "secondary_edges(self, *node1, &nodes1) == secondary_edges(other, *node2, &nodes2)", "secondary_edges(self, *node1, &nodes1).len() == secondary_edges(other, *node2, &nodes2).len()")]),
 ("cmp-tree-sec-nolabel", "C11", [(TR, "            (parent, edge.weight().label())", "            (parent, None)")]),
 # behaviour-preserving
 ("r-cmp-reorder", None, [(NO, "        if self.form != other.form\n            || self.pos != other.pos\n            || self.span != other.span\n            || self.lemma != other.lemma\n        {\n            return false;\n        }\n", "        let same_text = self.lemma == other.lemma && self.form() == other.form();\n        if !(same_text && self.label() == other.label() && self.span() == other.span()) {\n            return false;\n        }\n")]),
 ("r-cmp-feat-helper", None, [(NO, FT, "        features_eq(self.features(), other.features())\n    }\n}\n\nfn features_eq(a: Option<&Features>, b: Option<&Features>) -> bool {\n    match (a, b) {\n        (Some(f), Some(f_other)) => f == f_other,\n        (None, None) => true,\n        (Some(f), None) | (None, Some(f)) => f.inner().is_empty(),\n    }\n}\n\nimpl Terminal {")]),
 ("r-cmp-feat-filter", None, [(NO, FT, "        let f = self.features.as_ref().filter(|f| !f.inner().is_empty());\n        let g = other.features.as_ref().filter(|f| !f.inner().is_empty());\n        f == g\n    }\n}\n\nimpl Terminal {")]),
 ("r-cmp-feat-len", None, [(NO, FT, "        if let (Some(f), Some(g)) = (&self.features, &other.features) {\n            return f.inner() == g.inner();\n        }\n        let n = self.features.as_ref().map_or(0, |f| f.inner().len());\n        let m = other.features.as_ref().map_or(0, |f| f.inner().len());\n        n == 0 && m == 0\n    }\n}\n\nimpl Terminal {")]),
 ("r-cmp-ord-tuple", None, [(SP, "        if self.start != other.start {\n            self.start.cmp(&other.start)\n        } else if self.end != other.end {\n            self.end.cmp(&other.end)\n        } else {\n            self.n_indices().cmp(&other.n_indices())\n        }", "        (self.start, self.end, self.n_indices()).cmp(&(other.start, other.end, other.n_indices()))")]),
 ("r-cmp-ord-then", None, [(SP, "        if self.start != other.start {\n            self.start.cmp(&other.start)\n        } else if self.end != other.end {\n            self.end.cmp(&other.end)\n        } else {\n            self.n_indices().cmp(&other.n_indices())\n        }", "        self.bounds()\n            .cmp(&other.bounds())\n            .then_with(|| self.n_indices().cmp(&other.n_indices()))")]),
 ("r-cmp-ord-lt", None, [(SP, "        if self.start != other.start {\n            self.start.cmp(&other.start)\n        } else", "        if self.start < other.start {\n            Ordering::Less\n        } else if self.start > other.start {\n            Ordering::Greater\n        } else")]),
 ("r-cmp-nind", None, [(SP, "        if let Some(ref skips) = self.skips {\n            self.end - self.start - skips.len()\n        } else {\n            self.end - self.start\n        }", "        let n_skips = self.skips.as_ref().map(|s| s.len()).unwrap_or(0);\n        (self.end - self.start) - n_skips")]),
 ("r-cmp-tree-all", None, [(TR, LOOP, "    for (node1, node2) in nodes1.iter().cloned().zip(nodes2.iter().cloned()) {")]),
 ("r-cmp-tree-index", None, [(TR, LOOP, "    for i in 0..nodes1.len() {\n        let (node1, node2) = (nodes1[i], nodes2[i]);")]),
 ("r-cmp-tree-order", None, [(TR, P12, ""), (TR, REC, REC + "\n" + P12)]),
 ("r-cmp-tree-helper", None, [(TR, P12, "        if !same_attachment(node1, tree_1, node2, tree_2) {\n            return false;\n        }\n"), (TR, "// collect all nodes below", """fn same_attachment(node1: NodeIndex, tree_1: &Tree, node2: NodeIndex, tree_2: &Tree) -> bool {
    match (tree_1.parent(node1), tree_2.parent(node2)) {
        (Some((p1, e1)), Some((p2, e2))) => tree_1[p1] == tree_2[p2] && tree_1[e1] == tree_2[e2],
        (None, None) => true,
        _ => false,
    }
}

// collect all nodes below""")]),
 ("r-cmp-tree-and", None, [(TR, "        if !subtree_eq(self.root(), self, other.root(), other) {\n            return false;\n        };\n", "        let same = subtree_eq(self.root(), self, other.root(), other);\n        if !same {\n            return false;\n        }\n")]),
 ("r-cmp-sec-loop", None, [(TR, "        nodes1.iter().zip(nodes2.iter()).all(|(node1, node2)| {\n            secondary_edges(self, *node1, &nodes1) == secondary_edges(other, *node2, &nodes2)\n        })", "        for (node1, node2) in nodes1.iter().zip(nodes2.iter()) {\n            if secondary_edges(self, *node1, &nodes1) != secondary_edges(other, *node2, &nodes2) {\n                return false;\n            }\n        }\n        true")]),
 ("r-cmp-collect-helper", None, [(TR, "    let mut nodes1 = tree_1\n        .children(tree_1_idx)\n        .map(|(n, _)| n)\n        .collect::<Vec<_>>();\n    tree_1.sort_indices(&mut nodes1);\n    let mut nodes2 = tree_2\n        .children(tree_2_idx)\n        .map(|(n, _)| n)\n        .collect::<Vec<_>>();\n    tree_2.sort_indices(&mut nodes2);\n", "    let nodes1 = ordered_children(tree_1, tree_1_idx);\n    let nodes2 = ordered_children(tree_2, tree_2_idx);\n"), (TR, "// collect all nodes below", "fn ordered_children(tree: &Tree, node: NodeIndex) -> Vec<NodeIndex> {\n    let mut nodes = tree.children(node).map(|(n, _)| n).collect::<Vec<_>>();\n    tree.sort_indices(&mut nodes);\n    nodes\n}\n\n// collect all nodes below")]),
 ("r-cmp-tree-closure-all", None, [(TR, LOOP, "    nodes1.into_iter().zip(nodes2).all(|(node1, node2)| {"), (TR, REC + "    }\n    true\n}", "        subtree_eq(node1, tree_1, node2, tree_2)\n    })\n}")]),
 ("r-cmp-noclose", None, [(TR, "if self.n_terminals != other.n_terminals {\n            return false;\n        };\n", "")]),
]
