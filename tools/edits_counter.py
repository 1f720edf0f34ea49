T = "lumberjack/src/tree.rs"
M = "lumberjack/src/tree_modification.rs"
S = "lumberjack/src/span.rs"
N = "lumberjack/src/node.rs"
P = "lumberjack/src/io/ptb.rs"
E = "lumberjack/src/io/encode.rs"
G = "lumberjack/src/io/negra.rs"
RESET = """        let mut dfs = DfsPostOrder::new(GraphWrap::new(&self.graph), self.root);
        self.num_discontinuous = 0;
        while let Some(node) = dfs.next(GraphWrap::new(&self.graph)) {
            if !self[node].is_terminal() {
                let coverage = self
                    .children(node)
                    .flat_map(|(child, _)| self[child].span().into_iter())
                    .collect::<Vec<_>>();
                let span = Span::from_vec(coverage).unwrap();
                if span.skips().is_some() {
                    self.num_discontinuous += 1;
                }
                self[node].nonterminal_mut().unwrap().set_span(span);
            }
        }
"""
REM = """        let node = self.graph.remove_node(nonterminal).unwrap();
        if node.span().skips().is_some() {
            self.num_discontinuous -= 1;
        }
        Ok(node)
"""
R1 = """            self.projectivity_change(before, after);
        }
        let edge"""
R2 = """                self.projectivity_change(before, after);
            };"""
EDITS = [
    ("d-above-forgot", "C02", [(T, "        self.projectivity_change(Continuity::Continuous, node.continuity());\n", "")]),
    ("d-below-forgot", "C02", [(T, "        self.projectivity_change(Continuity::Continuous, new_node.continuity());\n", "")]),
    ("d-remove-forgot", "C02", [(T, """        if node.span().skips().is_some() {
            self.num_discontinuous -= 1;
        }
        Ok(node)""", "        Ok(node)")]),
    ("d-remove-early", "C02", [(T, REM, """        let node = self.graph.remove_node(nonterminal).unwrap();
        if node.span().skips().is_some() && self.graph.node_count() > 2 {
            self.num_discontinuous -= 1;
        }
        Ok(node)
""")]),
    ("d-remove-max", "C02", [(T, REM, """        let node = self.graph.remove_node(nonterminal).unwrap();
        if node.span().n_indices() > 1 && node.span().skips().is_some() {
            self.num_discontinuous -= 1;
        }
        Ok(node)
""")]),
    ("d-reattach-old", "C02", [(T, R1, """        }
        let edge""")]),
    ("d-reattach-new", "C02", [(T, R2, "            };")]),
    ("d-reattach-swap", "C02", [(T, R2, """                self.projectivity_change(after, before);
            };""")]),
    ("d-reattach-once", "C02", [(T, """            self.projectivity_change(before, after);
        }
        let edge""", """            if node == parent {
                self.projectivity_change(before, after);
            }
        }
        let edge""")]),
    ("d-change-one-way", "C02", [(T, "            (Continuity::Discontinuous, Continuity::Continuous) => self.num_discontinuous -= 1,\n", "")]),
    ("d-change-sat", "C02", [(T, "(Continuity::Discontinuous, Continuity::Continuous) => self.num_discontinuous -= 1,", "(Continuity::Discontinuous, Continuity::Continuous) if self.num_discontinuous > 1 => self.num_discontinuous -= 1,")]),
    ("d-reset-no-zero", "C02", [(T, "        self.num_discontinuous = 0;\n", "")]),
    ("d-reset-count-bounds", "C02", [(T, """                if span.skips().is_some() {
                    self.num_discontinuous += 1;
                }
                self[node]""", """                if span.skips().is_some() && node != self.root {
                    self.num_discontinuous += 1;
                }
                self[node]""")]),
    ("d-reset-old-span", "C02", [(T, """                if span.skips().is_some() {
                    self.num_discontinuous += 1;
                }
                self[node]""", """                if self[node].span().skips().is_some() {
                    self.num_discontinuous += 1;
                }
                self[node]""")]),
    ("d-reset-break", "C02", [(T, """                if span.skips().is_some() {
                    self.num_discontinuous += 1;
                }
                self[node].nonterminal_mut().unwrap().set_span(span);
""", """                let skipping = span.skips().is_some();
                self[node].nonterminal_mut().unwrap().set_span(span);
                if skipping && self.num_discontinuous == 0 {
                    self.num_discontinuous += 1;
                }
""")]),
    ("d-decode-noreset", "C02", [(E, "        let mut tree = Tree::new_from_parts(graph, n_terminals, root_idx, 0);\n        tree.reset_nt_spans();\n", """        let mut tree = Tree::new_from_parts(graph, n_terminals, root_idx, 0);
        tree.reset_nt_spans();
        let mut tree = Tree::new_from_parts(tree.graph().clone(), n_terminals, root_idx, 0);
        let nts = tree.nonterminals().collect::<Vec<_>>();
        for nt in nts {
            let cov = tree.children(nt).flat_map(|(c, _)| tree[c].span().into_iter()).collect::<Vec<_>>();
            let span = crate::Span::from_vec(cov).unwrap();
            tree[nt].nonterminal_mut().unwrap().set_span(span);
        }
""")]),
    ("d-negra-one", "C02", [(G, "        let mut tree = Tree::new_from_parts(self.graph, self.n_terminals, root, 0);\n        // nonterminals can be listed in any order, spans are only known once all are attached.\n        tree.reset_nt_spans();\n        Ok(tree)",
                             "        let mut tree = Tree::new_from_parts(self.graph, self.n_terminals, root, 0);\n        // nonterminals can be listed in any order, spans are only known once all are attached.\n        tree.reset_nt_spans();\n        let span = tree[root].span().clone();\n        if let Some(skip) = tree.nonterminals().filter(|n| *n != root).last() {\n            tree[skip].set_span(span)?;\n        }\n        Ok(tree)")]),
    ("d-remove-indices-empty", "C02", [(S, "        if self.skips.as_ref().map(HashSet::is_empty).unwrap_or(false) {", "        if self.skips.as_ref().map(|s| s.is_empty() && self.start == 0).unwrap_or(false) {")]),
    ("d-merge-empty", "C02", [(S, """        if skips.is_empty() {
            Span::new(start, end)
        } else {
            Span::new_with_skips(start, end, skips)
        }
    }

    /// Remove indices from span.
    ///""", """        if skips.is_empty() && self.skips.is_none() {
            Span::new(start, end)
        } else {
            Span { start, end, skips: Some(skips) }
        }
    }

    /// Remove indices from span.
    ///""")]),
    ("d-merge-answer", "C02", [(N, """        self.span = span;
        if self.span.skips().is_some() {""", """        let skipped = self.span.skips().is_some();
        self.span = span;
        if skipped {""")]),
    ("d-projective-one", "C02", [(T, "        self.num_discontinuous == 0\n", "        self.num_discontinuous <= 1\n")]),
    ("d-push-extend", "C02", [(T, "        self[root].extend_span().unwrap();\n        Ok(terminal)", "        let cov = self.children(root).flat_map(|(c, _)| self[c].span().into_iter()).collect::<Vec<_>>();\n        let span = Span::from_vec(cov)?;\n        self[root].set_span(span)?;\n        Ok(terminal)")]),
    ("d-move-shift", "C02", [(T, "        self[terminal].set_span(index).unwrap();\n        self.reset_nt_spans();\n", """        self[terminal].set_span(index).unwrap();
        let mut climber = Climber::new(terminal, self);
        while let Some(node) = climber.next(self) {
            let cov = self.children(node).flat_map(|(c, _)| self[c].span().into_iter()).collect::<Vec<_>>();
            let span = Span::from_vec(cov).unwrap();
            self[node].nonterminal_mut().unwrap().set_span(span);
        }
""")]),
    # refactorings
    ("d-r-reset-after", None, [(T, RESET, """        self.num_discontinuous = 0;
        let mut dfs = DfsPostOrder::new(GraphWrap::new(&self.graph), self.root);
        while let Some(node) = dfs.next(GraphWrap::new(&self.graph)) {
            if self[node].is_terminal() {
                continue;
            }
            let mut coverage = Vec::new();
            for (child, _) in self.children(node) {
                coverage.extend(self[child].span().into_iter());
            }
            let span = Span::from_vec(coverage).unwrap();
            let skipping = span.skips().is_some();
            self[node].nonterminal_mut().unwrap().set_span(span);
            if skipping {
                self.num_discontinuous += 1;
            }
        }
""")]),
    ("d-r-reset-local", None, [(T, RESET, """        let mut dfs = DfsPostOrder::new(GraphWrap::new(&self.graph), self.root);
        let mut discontinuous = 0;
        while let Some(node) = dfs.next(GraphWrap::new(&self.graph)) {
            if !self[node].is_terminal() {
                let coverage = self
                    .children(node)
                    .flat_map(|(child, _)| self[child].span().into_iter())
                    .collect::<Vec<_>>();
                let span = Span::from_vec(coverage).unwrap();
                if span.skips().is_some() {
                    discontinuous += 1;
                }
                self[node].nonterminal_mut().unwrap().set_span(span);
            }
        }
        self.num_discontinuous = discontinuous;
""")]),
    ("d-r-reset-count", None, [(T, RESET, """        let mut dfs = DfsPostOrder::new(GraphWrap::new(&self.graph), self.root);
        while let Some(node) = dfs.next(GraphWrap::new(&self.graph)) {
            if !self[node].is_terminal() {
                let coverage = self
                    .children(node)
                    .flat_map(|(child, _)| self[child].span().into_iter())
                    .collect::<Vec<_>>();
                let span = Span::from_vec(coverage).unwrap();
                self[node].nonterminal_mut().unwrap().set_span(span);
            }
        }
        self.num_discontinuous = self
            .nonterminals()
            .filter(|nt| self[*nt].span().skips().is_some())
            .count();
""")]),
    ("d-r-reset-cast", None, [(T, """                if span.skips().is_some() {
                    self.num_discontinuous += 1;
                }
                self[node]""", """                self.num_discontinuous += span.skips().is_some() as usize;
                self[node]""")]),
    ("d-r-reset-delta", None, [(T, RESET, """        let mut dfs = DfsPostOrder::new(GraphWrap::new(&self.graph), self.root);
        while let Some(node) = dfs.next(GraphWrap::new(&self.graph)) {
            if !self[node].is_terminal() {
                let coverage = self
                    .children(node)
                    .flat_map(|(child, _)| self[child].span().into_iter())
                    .collect::<Vec<_>>();
                let before = self[node].nonterminal().unwrap().continuity();
                let span = Span::from_vec(coverage).unwrap();
                self[node].nonterminal_mut().unwrap().set_span(span);
                let after = self[node].nonterminal().unwrap().continuity();
                self.projectivity_change(before, after);
            }
        }
""")]),
    ("d-r-remove-first", None, [(T, REM, """        let discontinuous = self[nonterminal].span().skips().is_some();
        if discontinuous {
            self.num_discontinuous -= 1;
        }
        let node = self.graph.remove_node(nonterminal).unwrap();
        Ok(node)
""")]),
    ("d-r-remove-change", None, [(T, REM, """        let node = self.graph.remove_node(nonterminal).unwrap();
        let before = node.continuity();
        self.projectivity_change(before, Continuity::Continuous);
        Ok(node)
""")]),
    ("d-r-change-if", None, [(T, """        match (before, after) {
            (Continuity::Continuous, Continuity::Discontinuous) => self.num_discontinuous += 1,
            (Continuity::Discontinuous, Continuity::Continuous) => self.num_discontinuous -= 1,
            _ => (),
        };
        self.num_discontinuous""", """        if before == after {
            return self.num_discontinuous;
        }
        if after == Continuity::Discontinuous {
            self.num_discontinuous += 1;
        } else {
            self.num_discontinuous -= 1;
        }
        self.num_discontinuous""")]),
    ("d-r-above-if", None, [(T, "        self.projectivity_change(Continuity::Continuous, node.continuity());\n        let insert = self.graph.add_node(node.into());\n", """        let discontinuous = node.span().skips().is_some();
        let insert = self.graph.add_node(node.into());
        if discontinuous {
            self.num_discontinuous += 1;
        }
""")]),
    ("d-r-merge-cont", None, [(N, """        if self.span.skips().is_some() {
            Continuity::Discontinuous
        } else {
            Continuity::Continuous
        }
    }

    /// Remove indices from the Non""", """        self.continuity()
    }

    /// Remove indices from the Non""")]),
    ("d-r-reattach-helper", None, [(T, """                let before = self[parent].nonterminal().unwrap().continuity();
                // extending the new parent's span can change projectivity
                let after = self[parent]
                    .nonterminal_mut()
                    .unwrap()
                    .merge_spans(&child_span);
                self.projectivity_change(before, after);
""", """                self.extend_node(parent, &child_span);
"""), (T, "    fn reattach_secondary(", """    fn extend_node(&mut self, node: NodeIndex, span: &Span) {
        let nt = self[node].nonterminal_mut().unwrap();
        let was = nt.continuity();
        let is = nt.merge_spans(span);
        self.projectivity_change(was, is);
    }

    fn reattach_secondary(""")]),
    ("d-r-projective", None, [(T, "        self.num_discontinuous == 0\n", "        !(self.num_discontinuous > 0)\n")]),
    ("d-r-filter-coll", None, [(M, """            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
""", """            if match_fn(self, nt) {
                continue;
            }
            self.remove_node(nt)?;
""")]),
]
