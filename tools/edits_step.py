T = "lumberjack/src/tree.rs"
INS = """        let terminals = self.terminals().collect::<Vec<_>>();
        for terminal in terminals {
            let terminal = self[terminal]
                .terminal_mut()
                .expect("Unexpected NonTerminal");
            let pos = terminal.idx();
            if pos >= index {
                terminal.set_idx(pos + 1);
            }
        }
        let terminal = self.graph.add_node(terminal.into());
        self.graph
            .add_edge(parent, terminal, Edge::new_primary::<String>(None));
        self.reset_nt_spans();
        self.n_terminals += 1;
"""
RMT = """        let node = self.graph.remove_node(terminal).unwrap();
        self.n_terminals -= 1;
        self.compact_terminal_spans()?;
        self.reset_nt_spans();
"""
MOV = "        self[terminal].set_span(index).unwrap();\n        self.reset_nt_spans();\n"
PUSH = """        self.n_terminals += 1;
        let terminal = self.graph.add_node(terminal.into());
        self.graph
            .add_edge(self.root, terminal, Edge::new_primary::<String>(None));
        let root = self.root;
        self[root].extend_span().unwrap();
"""
RESET = """            if !self[node].is_terminal() {
                let coverage = self
                    .children(node)
                    .flat_map(|(child, _)| self[child].span().into_iter())
                    .collect::<Vec<_>>();
                let span = Span::from_vec(coverage).unwrap();
                if span.skips().is_some() {
                    self.num_discontinuous += 1;
                }
                self[node].nonterminal_mut().unwrap().set_span(span);
            }
"""
EDITS = [
    ("s-ins-nocount", "C15", [(T, INS, INS.replace("        self.n_terminals += 1;\n", ""))]),
    ("s-ins-count-cond", "C15", [(T, INS, INS.replace("        self.n_terminals += 1;\n", "        if index < self.n_terminals {\n            self.n_terminals += 1;\n        }\n"))]),
    ("s-ins-count-loop", "C15", [(T, INS, INS.replace("                terminal.set_idx(pos + 1);\n", "                terminal.set_idx(pos + 1);\n                self.n_terminals += 1;\n"))]),
    ("s-ins-noreset", "C15", [(T, INS, INS.replace("        self.reset_nt_spans();\n", ""))]),
    ("s-ins-early-reset", "C15", [(T, INS, INS.replace("        self.reset_nt_spans();\n", "").replace("        for terminal in terminals {", "        self.reset_nt_spans();\n        for terminal in terminals {"))]),
    ("s-ins-reset-before-add", "C15", [(T, INS, INS.replace("        self.reset_nt_spans();\n", "").replace("        let terminal = self.graph.add_node", "        self.reset_nt_spans();\n        let terminal = self.graph.add_node"))]),
    ("s-ins-reset-last", "C15", [(T, INS, INS.replace("        self.reset_nt_spans();\n", "        if index < self.n_terminals {\n            self.reset_nt_spans();\n        }\n"))]),
    ("s-ins-extend", "C15", [(T, INS, INS.replace("        self.reset_nt_spans();\n", "        let _ = self[parent].extend_span();\n"))]),
    ("s-rm-nocount", "C15", [(T, RMT, RMT.replace("        self.n_terminals -= 1;\n", ""))]),
    ("s-rm-count-last", "C15", [(T, RMT, RMT.replace("        self.n_terminals -= 1;\n", "        if node.span().start + 1 < self.n_terminals {\n            self.n_terminals -= 1;\n        }\n"))]),
    ("s-rm-noreset", "C15", [(T, RMT, RMT.replace("        self.reset_nt_spans();\n", ""))]),
    ("s-rm-swap", "C15", [(T, RMT, RMT.replace("        self.compact_terminal_spans()?;\n        self.reset_nt_spans();\n", "        self.reset_nt_spans();\n        self.compact_terminal_spans()?;\n"))]),
    ("s-rm-only-if", "C15", [(T, RMT, RMT.replace("        self.reset_nt_spans();\n", "        if self.num_discontinuous > 0 {\n            self.reset_nt_spans();\n        }\n"))]),
    ("s-mov-noreset", "C15", [(T, MOV, "        self[terminal].set_span(index).unwrap();\n")]),
    ("s-mov-order", "C15", [(T, MOV, "        self.reset_nt_spans();\n        self[terminal].set_span(index).unwrap();\n")]),
    ("s-mov-if", "C15", [(T, MOV, "        self[terminal].set_span(index).unwrap();\n        if !self.siblings(terminal).any(|(s, _)| self[s].span().start == old_pos) {\n            self.reset_nt_spans();\n        }\n")]),
    ("s-push-nocount", "C15", [(T, PUSH, PUSH.replace("        self.n_terminals += 1;\n", ""))]),
    ("s-push-noextend", "C15", [(T, PUSH, PUSH.replace("        let root = self.root;\n        self[root].extend_span().unwrap();\n", ""))]),
    ("s-push-extend-if", "C15", [(T, PUSH, PUSH.replace("        self[root].extend_span().unwrap();\n", "        if self.num_discontinuous == 0 {\n            self[root].extend_span().unwrap();\n        }\n"))]),
    ("s-push-twice", "C15", [(T, PUSH, PUSH + "        self.n_terminals += 1;\n")]),
    ("s-reset-skip", "C15", [(T, RESET, RESET.replace("            if !self[node].is_terminal() {", "            if !self[node].is_terminal() && self[node].span().skips().is_some() {"))]),
    ("s-reset-root", "C15", [(T, RESET, RESET.replace("            if !self[node].is_terminal() {", "            if !self[node].is_terminal() && node != self.root {"))]),
    ("s-shift-ins-gt", "C15", [(T, "            if pos >= index {", "            if pos > index {")]),
    ("s-shift-ins-two", "C15", [(T, "            if pos >= index {", "            if pos >= index && pos + 1 < 1000 && pos < index + 2 {")]),
    ("s-shift-ins-last", "C15", [(T, "            if pos >= index {", "            if pos >= index && pos != index + 1 {")]),
    ("s-shift-mov-lt", "C15", [(T, "            if old_pos <= pos && pos <= index {", "            if old_pos <= pos && pos < index {")]),
    ("s-shift-mov-lt2", "C15", [(T, "            } else if index <= pos && pos <= old_pos {", "            } else if index < pos && pos <= old_pos {")]),
    ("s-shift-mov-open", "C15", [(T, "            } else if index <= pos && pos <= old_pos {", "            } else if index <= pos && old_pos >= index {")]),
    ("sp-shift-strict", None, [(T, "            if old_pos <= pos && pos <= index {", "            if old_pos < pos && pos <= index {")]),
    ("sp-shift-range", None, [(T, "            if old_pos <= pos && pos <= index {", "            if (old_pos..=index).contains(&pos) {")]),
    ("sp-shift-flip", None, [(T, "            if pos >= index {", "            if index <= pos {")]),
    ("sp-shift-split", None, [(T, """            if old_pos <= pos && pos <= index {
                // shift to the right
                terminal.set_idx(pos - 1);
            } else if index <= pos && pos <= old_pos {
                // shift to the left
                terminal.set_idx(pos + 1);
            }
""", """            if old_pos < index {
                if pos > old_pos && pos < index + 1 {
                    terminal.set_idx(pos - 1);
                }
            } else if pos < old_pos && !(pos < index) {
                terminal.set_idx(pos + 1);
            }
""")]),
    ("sp-shift-new", None, [(T, """            if old_pos <= pos && pos <= index {
                // shift to the right
                terminal.set_idx(pos - 1);
            } else if index <= pos && pos <= old_pos {
                // shift to the left
                terminal.set_idx(pos + 1);
            }
""", """            let new = if old_pos <= pos && pos <= index {
                pos - 1
            } else if index <= pos && pos <= old_pos {
                pos + 1
            } else {
                pos
            };
            terminal.set_idx(new);
""")]),
    ("sp-shift-filter", None, [(T, INS, INS.replace("self.terminals().collect::<Vec<_>>()", "self.terminals().filter(|t| self[*t].span().start >= index).collect::<Vec<_>>()").replace("            if pos >= index {\n                terminal.set_idx(pos + 1);\n            }\n", "            terminal.set_idx(pos + 1);\n"))]),
    # behaviour kept
    ("sp-ins-count-first", None, [(T, INS, "        self.n_terminals += 1;\n" + INS.replace("        self.n_terminals += 1;\n", ""))]),
    ("sp-ins-local", None, [(T, INS, INS.replace("        self.n_terminals += 1;\n", "        let n = self.n_terminals;\n        self.n_terminals = n + 1;\n"))]),
    ("sp-ins-continue", None, [(T, INS, INS.replace("            if pos >= index {\n                terminal.set_idx(pos + 1);\n            }\n", "            if pos < index {\n                continue;\n            }\n            terminal.set_idx(pos + 1);\n"))]),
    ("sp-ins-helper", None, [(T, INS, INS.replace(INS[INS.index("        let terminals ="):INS.index("        let terminal = self.graph")], "        self.shift_from(index);\n")),
        (T, "    fn reattach_secondary(", "    fn shift_from(&mut self, index: usize) {\n        for node in self.graph.node_indices().collect::<Vec<_>>() {\n            if let Some(t) = self.graph[node].terminal_mut() {\n                if t.idx() >= index {\n                    let pos = t.idx();\n                    t.set_idx(pos + 1);\n                }\n            }\n        }\n    }\n\n    fn reattach_secondary(")]),
    ("sp-ins-span", None, [(T, INS, INS.replace("terminal.set_idx(pos + 1)", "terminal.set_span(Span::from(pos + 1)).unwrap()").replace("let terminal = self[terminal]\n                .terminal_mut()\n                .expect(\"Unexpected NonTerminal\");\n            let pos = terminal.idx();", "let terminal = &mut self[terminal];\n            let pos = terminal.span().start;"))]),
    ("sp-rm-order", None, [(T, RMT, RMT.replace("        self.n_terminals -= 1;\n", "").replace("        self.reset_nt_spans();\n", "        self.reset_nt_spans();\n        self.n_terminals -= 1;\n"))]),
    ("sp-rm-renumber", None, [(T, RMT, RMT.replace("        self.compact_terminal_spans()?;\n        self.reset_nt_spans();\n", "        self.renumber()?;\n")),
        (T, "    fn reattach_secondary(", "    fn renumber(&mut self) -> Result<(), Error> {\n        self.compact_terminal_spans()?;\n        self.reset_nt_spans();\n        Ok(())\n    }\n\n    fn reattach_secondary(")]),
    ("sp-rm-guard", None, [(T, RMT, RMT.replace("        self.compact_terminal_spans()?;\n", "        if node.span().start < self.n_terminals {\n            self.compact_terminal_spans()?;\n        }\n"))]),
    ("sp-rm-count", None, [(T, RMT, RMT.replace("        self.n_terminals -= 1;\n", "        self.n_terminals = self.terminals().count();\n"))]),
    ("sp-push-reset", None, [(T, PUSH, PUSH.replace("        let root = self.root;\n        self[root].extend_span().unwrap();\n", "        self.reset_nt_spans();\n"))]),
    ("sp-push-climb", None, [(T, PUSH, PUSH.replace("        let root = self.root;\n        self[root].extend_span().unwrap();\n", "        let mut climber = Climber::new(terminal, self);\n        while let Some(node) = climber.next(self) {\n            self[node].extend_span().unwrap();\n        }\n"))]),
    ("sp-push-merge", None, [(T, PUSH, PUSH.replace("        self[root].extend_span().unwrap();\n", "        let span = self[terminal].span().to_owned();\n        let before = self[root].continuity();\n        let after = self[root].nonterminal_mut().unwrap().merge_spans(&span);\n        self.projectivity_change(before, after);\n"))]),
    ("sp-push-order", None, [(T, PUSH, PUSH.replace("        self.n_terminals += 1;\n", "") + "        self.n_terminals += 1;\n")]),
    ("sp-reset-continue", None, [(T, RESET, RESET.replace("            if !self[node].is_terminal() {\n", "            if self[node].is_terminal() {\n                continue;\n            }\n            {\n"))]),
    ("sp-reset-iflet", None, [(T, RESET, RESET.replace("self[node].nonterminal_mut().unwrap().set_span(span);", "if let Some(nt) = self[node].nonterminal_mut() {\n                    nt.set_span(span);\n                }"))]),
    ("sp-mov-direct", None, [(T, MOV, "        self[terminal].terminal_mut().unwrap().set_idx(index);\n        self.reset_nt_spans();\n")]),
]
