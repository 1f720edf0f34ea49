TR = "lumberjack/src/tree.rs"; TM = "lumberjack/src/tree_modification.rs"; EN = "lumberjack/src/io/encode.rs"; NO = "lumberjack/src/node.rs"
PUSHCHK = """        if self[self.root].is_terminal() {
            return Err(format_err!(
                "Can't append terminal node if root is a terminal."
            ));
        }
"""
PUSHNEW = """        let terminal = Terminal::new(form, pos, self.n_terminals);
        self.n_terminals += 1;
        let terminal = self.graph.add_node(terminal.into());
"""
DOM = """        if new_ancestors.contains(&child) {
            return Err(format_err!("New parent is dominated by the node."));
        }
"""
REMLOOP = """        let coverage = self[child].span().into_iter().collect::<Vec<_>>();
        let mut climber = Climber::new(child, self);
        while let Some(node) = climber.next(self) {
            if new_ancestors.contains(&node) {
                break;
            }
            let before = self[node].continuity();
            let after = self[node]
                .nonterminal_mut()
                .unwrap()
                .remove_indices(coverage.iter().cloned());
            self.projectivity_change(before, after);
        }
"""
RMNT = """        if let Some((parent, _)) = self.parent(nonterminal) {
            for (child, _) in self.children(nonterminal).collect::<Vec<_>>() {
                self.graph
                    .add_edge(parent, child, Edge::new_primary::<String>(None));
            }
        } else if self.children(self.root).count() == 1 {
            let (child, _) = self.children(self.root).next().unwrap();
            self.root = child;
        } else {
            return Err(format_err!("Root has multiple outgoing edges."));
        }
"""
RMT = """        if self.siblings(terminal).count() == 0 {
            return Err(format_err!("Last terminal of a branch."));
        }
        let node = self.graph.remove_node(terminal).unwrap();
        self.n_terminals -= 1;
"""
FILT = """        let nts = self
            .nonterminals()
            .filter(|nt| *nt != self.root())
            .collect::<Vec<_>>();

        for nt in nts {
            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
        }
        Ok(())
"""
PTAG = """            let label = self[parent].label().to_owned();
            self[terminal]
                .features_mut()
                .insert(feature_name, Some(label));
"""
ANNA = """            self[terminal]
                .features_mut()
                .insert("abs_ancestor", Some(string_rep));
"""
UB = """        if self[node].is_terminal() {
            return Err(format_err!("Can't attach nodes to terminals."));
        }
        // collect children before attaching new node
        let children = self.children(node).collect::<Vec<_>>();
"""
EDITS = [
 # ---- C03
 ("e-push-count", "C03", [(TR, PUSHCHK, "        self.n_terminals += 1;\n" + PUSHCHK), (TR, PUSHNEW, PUSHNEW.replace("        self.n_terminals += 1;\n", "").replace("self.n_terminals)", "self.n_terminals - 1)"))]),
 ("e-push-late", "C03", [(TR, PUSHCHK, ""), (TR, PUSHNEW, PUSHNEW + PUSHCHK)]),
 ("e-below-late", "C03", [(TR, UB, UB[UB.index("        // coll"):]), (TR, "        let insert = self.graph.add_node(new_node.into());\n", "        let insert = self.graph.add_node(new_node.into());\n" + UB[:UB.index("        // coll")])]),
 ("e-reattach-late", "C03", [(TR, DOM, ""), (TR, REMLOOP, REMLOOP + DOM)]),
 ("e-rmnt-loop", "C03", [(TR, RMNT, """        if let Some((parent, _)) = self.parent(nonterminal) {
            for (child, _) in self.children(nonterminal).collect::<Vec<_>>() {
                if self[child].is_terminal() && self[parent].label().is_empty() {
                    return Err(format_err!("Unlabeled parent."));
                }
                self.graph
                    .add_edge(parent, child, Edge::new_primary::<String>(None));
            }
        } else if self.children(self.root).count() == 1 {
            let (child, _) = self.children(self.root).next().unwrap();
            self.root = child;
        } else {
            return Err(format_err!("Root has multiple outgoing edges."));
        }
""")]),
 ("e-rmnt-root", "C03", [(TR, RMNT, RMNT.replace("} else if self.children(self.root).count() == 1 {\n            let (child, _) = self.children(self.root).next().unwrap();\n            self.root = child;\n        } else {",
     "} else if let Some(child) = self.children(self.root).map(|c| c.0).collect::<Vec<_>>().first().cloned() {\n            self.root = child;\n            if self.siblings(child).count() > 0 {\n                return Err(format_err!(\"Root has multiple outgoing edges.\"));\n            }\n        } else {"))]),
 ("e-rmt-count", "C03", [(TR, RMT, "        self.n_terminals -= 1;\n" + RMT.replace("        self.n_terminals -= 1;\n", ""))]),
 ("e-anno-mid", "C03", [(EN, ANNA, ANNA + """            if self[terminal].label().contains('~') {
                return Err(format_err!("Tag contains delimiter."));
            }
""")]),
 ("e-span-err", "C03", [(TR, "        self.compact_terminal_spans()?;\n        self.reset_nt_spans();\n        Ok(node)", "        if self.n_terminals == 0 {\n            return Err(format_err!(\"Empty tree.\"));\n        }\n        self.compact_terminal_spans()?;\n        self.reset_nt_spans();\n        Ok(node)")]),
 ("r-push-helper", None, [(TR, PUSHCHK, "        self.ensure_inner(self.root)?;\n"), (TR, "    fn reattach_secondary(", """    fn ensure_inner(&self, node: NodeIndex) -> Result<(), Error> {
        match self[node] {
            Node::Terminal(_) => Err(format_err!("Can't append terminal node if root is a terminal.")),
            Node::NonTerminal(_) => Ok(()),
        }
    }

    fn reattach_secondary(""")]),
 ("r-push-reorder", None, [(TR, PUSHCHK + PUSHNEW, """        let root = self.root;
        if !self[root].is_terminal() {
            let idx = self.n_terminals;
            let terminal = self.graph.add_node(Node::Terminal(Terminal::new(form, pos, idx)));
            self.graph.add_edge(root, terminal, Edge::new_primary::<String>(None));
            self.n_terminals = idx + 1;
            self[root].extend_span().unwrap();
            return Ok(terminal);
        }
        Err(format_err!(
            "Can't append terminal node if root is a terminal."
        ))
    }

    #[allow(dead_code)]
    fn push_old(&mut self, form: String, pos: String) -> Result<NodeIndex, Error> {
""" + PUSHNEW)]),
 ("r-rmnt-match", None, [(TR, RMNT, """        let up = self.parent(nonterminal);
        let children = self.children(nonterminal).map(|(c, _)| c).collect::<Vec<_>>();
        match up {
            Some((parent, _)) => {
                for &child in &children {
                    self.graph
                        .add_edge(parent, child, Edge::new_primary::<String>(None));
                }
            }
            None => {
                if children.len() != 1 {
                    return Err(format_err!("Root has multiple outgoing edges."));
                }
                self.root = children[0];
            }
        }
""")]),
 ("r-rmt-first", None, [(TR, RMT, """        let alone = self.siblings(terminal).next().is_none();
        if alone {
            return Err(format_err!("Last terminal of a branch."));
        }
        self.n_terminals -= 1;
        let node = self.graph.remove_node(terminal).unwrap();
""")]),
 ("r-reattach-any", None, [(TR, DOM, """        if new_ancestors.iter().any(|n| *n == child) {
            return Err(format_err!("New parent is dominated by the node."));
        }
"""), (TR, "            let before = self[node].continuity();\n            let after = self[node]\n                .nonterminal_mut()\n                .unwrap()\n                .remove_indices(coverage.iter().cloned());\n            self.projectivity_change(before, after);\n", """            self.uncover(node, &coverage);
"""), (TR, "    fn reattach_secondary(", """    fn uncover(&mut self, node: NodeIndex, coverage: &[usize]) {
        let before = self[node].continuity();
        let nt = self[node].nonterminal_mut().unwrap();
        let after = nt.remove_indices(coverage.iter().cloned());
        self.projectivity_change(before, after);
    }

    fn reattach_secondary(""")]),
 ("r-anno-enc", None, [(EN, """        if !self.is_projective() {
            return Err(format_err!("Can't encode nonprojective tree."));
        }
        let mut terminals = self.terminals().collect::<Vec<_>>();
        self.sort_indices(&mut terminals);
        for terminal in terminals.into_iter() {
            let mut string_rep""", """        if self.is_projective() {
            self.annotate_abs_inner()
        } else {
            Err(format_err!("Can't encode nonprojective tree."))
        }
    }

    fn encode_relative(&self) -> Result<RelativeEncoding, Error> {
        relative_of(self)
    }
}
"""), ] and [(EN, ANNA, """            let terminal = self[terminal].terminal_mut().unwrap();
            terminal.features_mut().insert("abs_ancestor", Some(string_rep));
""")]),
 # ---- C17
 ("f-filter-all", "C17", [(TM, FILT, FILT.replace(".nonterminals()", ".graph()\n            .node_indices()"))]),
 ("f-filter-label", "C17", [(TM, FILT, FILT.replace("                self.remove_node(nt)?;\n", "                self.remove_node(nt)?;\n            } else {\n                let l = self[nt].label().trim().to_owned();\n                self[nt].set_label(l);\n"))]),
 ("f-insert-pos", "C17", [(TM, "                let mut insert = self.insert_unary_above(terminal, label.clone());\n", "                let mut insert = self.insert_unary_above(terminal, label.clone());\n                if self[terminal].label().is_empty() {\n                    self[terminal].set_label(label.clone());\n                }\n")]),
 ("f-restore-pos", "C17", [(TM, "                for label in chain.split(delim) {\n", "                if chain.is_empty() {\n                    self[cur].set_label(delim);\n                }\n                for label in chain.split(delim) {\n")]),
 ("f-collapse-feat", "C17", [(TM, '                    features.insert("unary_chain", Some(chain));', '                    self[cur].set_features(Some(vec![("unary_chain", Some(chain))].into_iter().collect()));')]),
 ("f-reattach-compact", "C17", [(TM, "                    self.reattach_node(attachment, edge).unwrap();\n", "                    self.reattach_node(attachment, edge).unwrap();\n                    let last = self.n_terminals() - 1;\n                    if self.parent(terminal).is_none() {\n                        self.move_terminal(terminal, last);\n                    }\n")]),
 ("f-proj-lemma", "C17", [(TM, "                            self[new_edge] = edge;\n", "                            self[new_edge] = edge;\n                            if let Some(t) = self[prev].terminal_mut() {\n                                t.set_lemma::<String>(None);\n                            }\n")]),
 ("f-tag-nt", "C17", [(TR, "                tree[t].features_mut().insert(feature_name, Some(label));\n", "                tree[t].features_mut().insert(feature_name, Some(label.clone()));\n                tree[nt].features_mut().insert(feature_name, Some(label));\n")]),
 ("f-ids-label", "C17", [(TR, "                tree[t]\n                    .features_mut()\n                    .insert(feature_name, Some(id.to_string()));\n", "                tree[t]\n                    .features_mut()\n                    .insert(feature_name, Some(id.to_string()));\n                let label = tree[nt].label().trim().to_owned();\n                tree[nt].set_label(label);\n")]),
 ("f-ptag-replace", "C17", [(TM, PTAG, PTAG.replace("""            self[terminal]
                .features_mut()
                .insert(feature_name, Some(label));
""", """            let features = vec![(feature_name, Some(label))].into_iter().collect();
            self[terminal].set_features(Some(features));
"""))]),
 ("f-ptag-key", "C17", [(TM, PTAG, PTAG.replace("insert(feature_name,", 'insert("parent",'))]),
 ("f-pos-form", "C17", [(TM, "                self[terminal].terminal_mut().unwrap().set_label(pos);\n", "                let t = self[terminal].terminal_mut().unwrap();\n                t.set_label(pos);\n                t.set_features(None);\n")]),
 ("f-anno-edge", "C17", [(EN, ANNA, ANNA + "            if let Some((_, e)) = self.parent(terminal) {\n                if let Some(l) = self[e].label().map(|l| l.trim().to_owned()) {\n                    self[e].set_label(Some(l));\n                }\n            }\n")]),
 ("f-anno-clear", "C17", [(EN, ANNA, ANNA.replace('.insert("abs', '.remove("rel_ancestor");\n            self[terminal].features_mut()\n                .insert("abs'))] and [(EN, ANNA, "            self[terminal].set_features(None);\n" + ANNA)]),
 ("f-dummy-span", "C17", [(EN, "            self.remove_node(root)?;\n        }\n        Ok(())", "            self.remove_node(root)?;\n            let new = self.root();\n            self[new].set_label(\"ROOT\");\n        }\n        Ok(())")]),
 ("f-cell", "C17", [(TR, "    num_discontinuous: usize,\n}", "    num_discontinuous: usize,\n    cache: std::cell::Cell<usize>,\n}"), (TR, "            num_discontinuous: 0,\n        }", "            num_discontinuous: 0,\n            cache: Default::default(),\n        }"),
    (TR, "            num_discontinuous: num_non_projective,\n", "            num_discontinuous: num_non_projective,\n            cache: Default::default(),\n"), (TR, "    pub fn n_terminals(&self) -> usize {\n", "    pub fn n_terminals(&self) -> usize {\n        self.cache.set(self.cache.get() + 1);\n")]),
 ("r-filter-loop", None, [(TM, FILT, """        let root = self.root();
        let mut unwanted = Vec::new();
        for nt in self.nonterminals() {
            if nt != root {
                unwanted.push(nt);
            }
        }
        for nt in unwanted {
            if match_fn(self, nt) {
                continue;
            }
            self.remove_node(nt)?;
        }
        Ok(())
""")]),
 ("r-filter-tryfor", None, [(TM, FILT, """        let root = self.root();
        let nts: Vec<NodeIndex> = self.nonterminals().filter(|&nt| nt != root).collect();
        nts.into_iter()
            .try_for_each(|nt| if match_fn(self, nt) { Ok(()) } else { self.remove_node(nt).map(|_| ()) })
""")]),
 ("r-ptag-helper", None, [(TM, PTAG, "            let label = self[parent].label().to_string();\n            annotate(self, terminal, feature_name, label);\n"), (TM, "impl TreeOps for Tree {", """fn annotate(tree: &mut Tree, node: NodeIndex, key: &str, val: String) {
    let features = tree[node].features_mut();
    features.insert(key, Some(val));
}

impl TreeOps for Tree {""")]),
 ("r-pos-zip", None, [(TM, "                self[terminal].terminal_mut().unwrap().set_label(pos);\n", "                self[terminal].set_label(pos);\n")]),
 ("r-tag-iflet", None, [(TR, "            if match_fn(tree, nt) {\n                let label = tree[nt].label().to_owned();\n                tree[t].features_mut().insert(feature_name, Some(label));\n                true\n            } else {\n                false\n            }\n",
   "            let found = match_fn(tree, nt);\n            if found {\n                let label = tree[nt].label().to_owned();\n                tree[t].features_mut().insert(feature_name, Some(label));\n            }\n            found\n")]),
 ("r-collapse-match", None, [(TM, """                    let features = self[cur].features_mut();
                    let chain = features
                        .get_val("unary_chain")
                        .and_then(|chain| chain.map(|chain| format!("{}{}{}", chain, delim, label)))
                        .unwrap_or_else(|| label);
                    features.insert("unary_chain", Some(chain));
""", """                    let features = self[cur].features_mut();
                    let chain = match features.get_val("unary_chain") {
                        Some(Some(chain)) => [chain, label.as_str()].join(delim),
                        _ => label,
                    };
                    features.insert("unary_chain", Some(chain));
""")]),
 ("r-restore-cont", None, [(TM, "            if let Some(chain) = self[cur].features_mut().remove(\"unary_chain\") {\n                let chain =\n                    chain.ok_or_else(|| format_err!(\"Missing value for unary chain feature.\"))?;\n                for label in chain.split(delim) {\n                    cur = self.insert_unary_above(cur, label);\n                }\n            } else {\n                continue;\n            };\n",
   "            let removed = self[cur].features_mut().remove(\"unary_chain\");\n            match removed {\n                None => continue,\n                Some(None) => return Err(format_err!(\"Missing value for unary chain feature.\")),\n                Some(Some(chain)) => {\n                    cur = chain.split(delim).fold(cur, |node, label| self.insert_unary_above(node, label));\n                }\n            }\n            let _ = cur;\n")]),
 ("r-insert-group", None, [(TM, "                    if sibling_idx == prev_idx + 1 {\n                        prev_idx += 1;\n                        self.reattach_node(insert, edge)?;\n                    } else {\n                        insert = self.insert_unary_above(child, label.clone());\n                        prev_idx = sibling_idx;\n                    }\n",
   "                    if sibling_idx != prev_idx + 1 {\n                        insert = self.insert_unary_above(child, label.clone());\n                    } else {\n                        self.reattach_node(insert, edge)?;\n                    }\n                    prev_idx = sibling_idx;\n")]),
]
