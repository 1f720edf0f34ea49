TR = "lumberjack/src/tree.rs"; TM = "lumberjack/src/tree_modification.rs"; EN = "lumberjack/src/io/encode.rs"; CX = "lumberjack/src/io/conllx.rs"; PT="lumberjack/src/io/ptb.rs"; NG="lumberjack/src/io/negra.rs"
SORT = "        self.sort_indices(&mut terminals);\n"
REFS = """        let mut terminals = tree.terminals().collect::<Vec<_>>();
        tree.sort_indices(&mut terminals);
        terminals
            .into_iter()
"""
PTS = """                nodes.sort_by(|(child1, _), (child2, _)| {
                    sentence[*child1].span().cmp(sentence[*child2].span())
                });
"""
GRP = "                children.sort_by(|c1, c2| self[c1.0].span().cmp(self[c2.0].span()));\n"
ENCR = """    fn encode_relative(&self) -> Result<RelativeEncoding, Error> {
        if !self.is_projective() {
            return Err(format_err!("Can't encode nonprojective tree."));
        }
        let mut prev_n = 0;
        let mut terminals = self.terminals().collect::<Vec<_>>();
        self.sort_indices(&mut terminals);
"""
ANR = """        let mut terminals = self.terminals().collect::<Vec<_>>();
        self.sort_indices(&mut terminals);
        let mut prev_n = 0;
        for terminal in terminals.into_iter() {
"""
APOS = """        let mut pos_iter = pos_iter.into_iter();
        for terminal in terminals {
            if let Some(pos) = pos_iter.next() {
"""
EDITS = [
 ("o-ref-unsorted", "C07", [(CX, REFS, REFS.replace("        tree.sort_indices(&mut terminals);\n", "").replace("let mut", "let"))]),
 ("o-val-unsorted", "C07", [(CX, "        tree.sort_indices(&mut terminals);\n\n        for", "\n        for"), (CX, "        tokens.sort_by(|t0, t1| t0.1.cmp(&t1.1));\n", "")]),
 ("o-val-revsort", "C07", [(CX, "tokens.sort_by(|t0, t1| t0.1.cmp(&t1.1));", "tokens.sort_by(|t0, t1| t1.1.cmp(&t0.1));")]),
 ("r-val-nosort2", None, [(CX, "        tokens.sort_by(|t0, t1| t0.1.cmp(&t1.1));\n", ""), (CX, "let mut tokens", "let mut tokens")]),
 ("r-val-nosort1", None, [(CX, "        tree.sort_indices(&mut terminals);\n\n        for", "\n        for"), (CX, "let mut terminals = tree.terminals().collect::<Vec<_>>();\n\n", "let terminals = tree.terminals().collect::<Vec<_>>();\n\n")]),
 ("r-val-bykey", None, [(CX, "tokens.sort_by(|t0, t1| t0.1.cmp(&t1.1));", "tokens.sort_by_key(|t| t.1);")]),
 ("o-ref-formsort", "C07", [(CX, REFS, REFS.replace("tree.sort_indices(&mut terminals);", "terminals.sort_by(|a, b| tree[*a].span().end.cmp(&tree[*b].span().end).reverse());"))]),
 ("r-ref-bykey", None, [(CX, REFS, REFS.replace("tree.sort_indices(&mut terminals);", "terminals.sort_by_key(|t| tree[*t].span().start);"))]),
 ("r-ref-unstable", None, [(CX, REFS, REFS.replace("tree.sort_indices(&mut terminals);", "terminals.sort_unstable_by(|a, b| tree[*a].span().start.cmp(&tree[*b].span().start));"))]),
 ("r-ref-tuples", None, [(CX, """        let mut terminals = tree.terminals().collect::<Vec<_>>();
        tree.sort_indices(&mut terminals);
        terminals
            .into_iter()
            .map(|t| tree[t]""", """        let mut terminals = tree.terminals().map(|t| (tree[t].span().start, t)).collect::<Vec<_>>();
        terminals.sort();
        terminals
            .into_iter()
            .map(|(_, t)| tree[t]""")]),
 ("o-ptb-unsorted", "C07", [(PT, PTS, "                nodes.reverse();\n")]),
 ("o-ptb-end", "C07", [(PT, PTS, PTS.replace("span().cmp(sentence[*child2].span())", "span().n_indices().cmp(&sentence[*child2].span().n_indices())"))]),
 ("r-ptb-key", None, [(PT, PTS, "                nodes.sort_by_key(|(child, _)| sentence[*child].span().start);\n")]),
 ("r-ptb-indices", None, [(PT, PTS, "                nodes.sort_by(|a, b| sentence[a.0].span().partial_cmp(sentence[b.0].span()).unwrap());\n")]),
 ("o-neg-unsorted", "C07", [(NG, "        tree.sort_indices(&mut terminals);\n", "        terminals.sort();\n")]),
 ("o-neg-queue", "C07", [(NG, "        for &terminal in terminals.iter() {\n            visit_map.visit(terminal);", "        for terminal in tree.terminals() {\n            visit_map.visit(terminal);")]),
 ("o-neg-lines", "C07", [(NG, "        for terminal_idx in terminals {\n", "        for terminal_idx in tree.terminals() {\n")]),
 ("o-encr", "C07", [(EN, ENCR, ENCR.replace("        self.sort_indices(&mut terminals);\n", "").replace("let mut terminals", "let terminals"))]),
 ("o-encr-map", "C07", [(EN, ENCR, ENCR.replace("        self.sort_indices(&mut terminals);\n", "        terminals.sort_by(|a, b| self[*b].span().cmp(&self[*a].span()));\n"))]),
 ("o-anr", "C07", [(EN, ANR, ANR.replace("        self.sort_indices(&mut terminals);\n", "").replace("let mut terminals", "let terminals"))]),
 ("o-pos", "C07", [(TM, "        self.sort_indices(&mut terminals);\n        let mut pos_iter", "        terminals.sort_by(|a, b| self[*a].label().cmp(self[*b].label()));\n        let mut pos_iter")]),
 ("o-climb", "C07", [(TR, """        let mut terminals = self.terminals().collect::<Vec<_>>();
        self.sort_indices(&mut terminals);
        for terminal in terminals {
            let mut climber = Climber::new(terminal, self);
            while let Some(parent) = climber.next(self) {
                if match_fn(self, parent, terminal)""", """        let terminals = self.terminals().collect::<Vec<_>>();
        for terminal in terminals {
            let mut climber = Climber::new(terminal, self);
            while let Some(parent) = climber.next(self) {
                if match_fn(self, parent, terminal)""")]),
 ("o-grp", "C07", [(TM, GRP, "")]),
 ("o-grp-idx", "C07", [(TM, GRP, "                children.sort_by(|c1, c2| c1.0.cmp(&c2.0));\n")]),
 ("r-grp-key", None, [(TM, GRP, "                children.sort_by_key(|(c, _)| self[*c].span().start);\n")]),
 ("o-proj", "C07", [(TM, "            self.sort_indices(&mut terminals);\n", "            terminals.sort_by(|a, b| self[*a].label().cmp(self[*b].label()));\n")]),
 ("o-compact", "C07", [(TR, """        let mut terminals = self.terminals().collect::<Vec<_>>();
        self.sort_indices(&mut terminals);
        for (idx, term) in""", """        let terminals = self.terminals().collect::<Vec<_>>();
        for (idx, term) in""")]),
 ("o-ntidx", "C07", [(TR, """        self.sort_indices(&mut terminals);
        let mut indices = vec![self.root; self.n_terminals];
        for terminal in terminals {""", """        terminals.sort();
        let mut indices = vec![self.root; self.n_terminals];
        for (n, terminal) in terminals.into_iter().enumerate() {"""), (TR, "indices[self[terminal].span().start] = parent", "indices[n] = parent")]),
 ("r-ntidx", None, [(TR, """        let mut indices = vec![self.root; self.n_terminals];
        for terminal in terminals {""", """        let mut indices = vec![self.root; self.n_terminals];
        for (n, terminal) in terminals.into_iter().enumerate() {"""), (TR, "indices[self[terminal].span().start] = parent", "indices[n] = parent")]),
 ("r-ntidx2", None, [(TR, """        let mut terminals = self.terminals().collect::<Vec<_>>();
        self.sort_indices(&mut terminals);
        let mut indices = vec![self.root; self.n_terminals];
        for terminal in terminals {""", """        let mut indices = vec![self.root; self.n_terminals];
        for terminal in self.terminals() {""")]),
 ("o-sortidx", "C07", [(TR, "            |node1, node2| match self[*node1].span().cmp(&self[*node2].span()) {", "            |node1, node2| match self[*node1].is_terminal().cmp(&self[*node2].is_terminal()).then(node1.cmp(node2)) {")]),
 ("o-sortidx2", "C07", [(TR, "            |node1, node2| match self[*node1].span().cmp(&self[*node2].span()) {", "            |node1, node2| match self[*node1].span().end.cmp(&self[*node2].span().end).reverse() {")]),
 ("r-sortidx", None, [(TR, "            |node1, node2| match self[*node1].span().cmp(&self[*node2].span()) {", "            |node1, node2| match self[*node1].span().start.cmp(&self[*node2].span().start).then_with(|| self[*node1].span().cmp(&self[*node2].span())) {")]),
 ("r-pos-zip2", None, [(TM, "        for terminal in terminals {\n            if let Some(pos) = pos_iter.next() {\n                self[terminal].terminal_mut().unwrap().set_label(pos);\n            } else {\n                return Err(format_err!(\"Not enough POS tags were provided\"));\n            }\n        }\n",
   "        for terminal in terminals.iter() {\n            let pos = pos_iter.next().ok_or_else(|| format_err!(\"Not enough POS tags were provided\"))?;\n            self[*terminal].set_label(pos);\n        }\n")]),
 ("r-enc-iter", None, [(EN, """        let mut encoding = Vec::with_capacity(terminals.len());
        for terminal in terminals.into_iter() {
            let common_nt = get_common(self, terminal)?
                .map(|(common, n_common)| AbsoluteAncestor::new(n_common, common));

            let chain = self[terminal]
                .features()
                .and_then(|f| f.get_val("unary_chain"))
                .and_then(|val| val.map(ToOwned::to_owned));
            encoding.push((common_nt, chain));
        }
""", """        let encoding = terminals
            .iter()
            .map(|&terminal| {
                let common_nt = get_common(self, terminal)?
                    .map(|(common, n_common)| AbsoluteAncestor::new(n_common, common));
                let chain = self[terminal]
                    .features()
                    .and_then(|f| f.get_val("unary_chain"))
                    .and_then(|val| val.map(ToOwned::to_owned));
                Ok((common_nt, chain))
            })
            .collect::<Result<Vec<_>, Error>>()?;
""")]),
 ("r-sorted-helper", None, [(TR, "    fn reattach_secondary(", """    pub(crate) fn words(&self) -> Vec<NodeIndex> {
        let mut terminals = self.terminals().collect::<Vec<_>>();
        self.sort_indices(&mut terminals);
        terminals
    }

    fn reattach_secondary("""), (CX, REFS, "        tree.words()\n            .into_iter()\n"), (EN, ANR, "        let mut prev_n = 0;\n        for terminal in self.words() {\n")]),
]
