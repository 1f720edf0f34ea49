NE = "lumberjack/src/io/negra.rs"
PT = "lumberjack/src/io/ptb.rs"
PE = "lumberjack/src/io/ptb.pest"
IDS = """        if eos_id != self.sentence_id {
            return Err(format_err!(
                "IDs don't match: #BOS {} and #EOS {}",
                self.sentence_id,
                eos_id
            ));
        }
"""
DEF = """        if self.processed_nts != self.nt_indices.len() {
            return Err(format_err!("Did not process all nonterminals."));
        }
"""
REACH = """        if n_reached != self.graph.node_count() {
            return Err(format_err!("Nonterminal is not attached to the root."));
        }
"""
REACHED = """        let mut dfs = Dfs::new(GraphWrap::new(&self.graph), root);
        let mut n_reached = 0;
        while dfs.next(GraphWrap::new(&self.graph)).is_some() {
            n_reached += 1;
        }
"""
END = """        cur.map(|builder: Builder| {
            Err(format_err!(
                "Found end of input before #EOS {}",
                builder.sentence_id
            ))
        })"""
NEST = """                if cur.is_some() {
                    return Some(Err(format_err!("Found second #BOS before #EOS\\n{}", line)));
                }
"""
STRAY = """                } else {
                    return Some(Err(format_err!("Found #EOS without #BOS\\n{}", line)));
                }"""
PROC = """                if let Err(e) = builder.process_line(line) {
                    return Some(Err(e));
                }"""
TAKE = """                if let Some(builder) = cur.take() {
                    return Some(builder.try_into_tree(line));
                } else {
                    return Some(Err(format_err!("Found #EOS without #BOS\\n{}", line)));
                }"""
EDITS = [
    ("f-ids-gone", "C10", [(NE, IDS, "")]),
    ("f-ids-both", "C10", [(NE, "        if eos_id != self.sentence_id {", "        if eos_id != self.sentence_id && self.n_terminals == 0 {")]),
    ("f-defined-gone", "C10", [(NE, DEF, "")]),
    ("f-defined-less", "C10", [(NE, "        if self.processed_nts != self.nt_indices.len() {", "        if self.processed_nts > self.nt_indices.len() {")]),
    ("f-reach-gone", "C10", [(NE, REACH, "        let _ = n_reached;\n")]),
    ("f-eof-none", "C10", [(NE, END, "        None")]),
    ("f-eof-empty", "C10", [(NE, END, """        match cur {
            Some(builder) if builder.n_terminals > 0 => Some(Err(format_err!(
                "Found end of input before #EOS {}",
                builder.sentence_id
            ))),
            _ => None,
        }""")]),
    ("f-nested-restart", "C10", [(NE, NEST, "")]),
    ("f-nested-empty", "C10", [(NE, "                if cur.is_some() {", "                if cur.as_ref().map_or(false, |b: &Builder| b.n_terminals > 0) {")]),
    ("f-stray-skip", "C10", [(NE, STRAY, "                }")]),
    ("f-line-skip", "C10", [(NE, PROC, """                if line.starts_with("%%") {
                    continue;
                }
                if let Err(e) = builder.process_line(line) {
                    return Some(Err(e));
                }""")]),
    ("f-line-blank", "C10", [(NE, PROC, """                if line.split_whitespace().count() < 3 {
                    continue;
                }
                if let Err(e) = builder.process_line(line) {
                    return Some(Err(e));
                }""")]),
    ("f-eof-tree", "C10", [(NE, END, """        cur.map(|builder: Builder| {
            let footer = format!("#EOS {}", builder.sentence_id);
            builder.try_into_tree(&footer)
        })""")]),
    ("f-pest-end", "C10", [(PE, "tree = _{SOI ~ node ~ EOI}", "tree = _{SOI ~ node ~ EOI?}")]),
    ("f-pest-close", "C10", [(PE, "nonterminal = { open ~ node_label ~ node+ ~ close }", "nonterminal = { open ~ node_label ~ node+ ~ close* }")]),
    ("f-pest-close2", "C10", [(PE, "preterminal = { open ~ node_label ~ terminal ~ close }", "preterminal = { open ~ node_label ~ terminal ~ close? }")]),
    ("f-pest-char", "C10", [(PE, 'char = _{ !( WHITESPACE | "(" | ")" ) ~ ANY }', 'char = _{ !( WHITESPACE | "(" ) ~ ANY }')]),
    ("f-rule", "C10", [(PT, "PTBParser::parse(Rule::tree, string)?", "PTBParser::parse(Rule::nonterminal, string)?")]),
    # ---- preserving
    ("fp-ids-swap", None, [(NE, IDS, """        if self.sentence_id == eos_id {
        } else {
            return Err(format_err!("IDs don't match: #BOS {} and #EOS {}", self.sentence_id, eos_id));
        }
""")]),
    ("fp-ids-str", None, [(NE, "        if eos_id != self.sentence_id {", "        let same = eos_id == self.sentence_id.as_str();\n        if !same {")]),
    ("fp-ids-helper", None, [(NE, IDS, "        self.check_id(eos_id)?;\n"), (NE, "    /// Construct a `Tree` from the `Builder`.", """    fn check_id(&self, eos_id: &str) -> Result<(), Error> {
        if eos_id == self.sentence_id {
            Ok(())
        } else {
            Err(format_err!("IDs don't match: #BOS {} and #EOS {}", self.sentence_id, eos_id))
        }
    }

    /// Construct a `Tree` from the `Builder`.""")]),
    ("fp-defined-lt", None, [(NE, "        if self.processed_nts != self.nt_indices.len() {", "        if self.processed_nts < self.nt_indices.len() {")]),
    ("fp-defined-late", None, [(NE, DEF, ""), (NE, REACH, REACH + DEF)]),
    ("fp-reach-helper", None, [(NE, REACHED, "        let n_reached = Self::count_reached(&self.graph, root);\n"), (NE, "    /// Add the given line to the builder.", """    fn count_reached(graph: &StableGraph<Node, Edge>, root: NodeIndex) -> usize {
        let mut dfs = Dfs::new(GraphWrap::new(graph), root);
        let mut n_reached = 0;
        while dfs.next(GraphWrap::new(graph)).is_some() {
            n_reached += 1;
        }
        n_reached
    }

    /// Add the given line to the builder.""")]),
    ("fp-reach-lt", None, [(NE, "        if n_reached != self.graph.node_count() {", "        if n_reached < self.graph.node_count() {")]),
    ("fp-eof-match", None, [(NE, END, """        match cur {
            Some(builder) => Some(Err(format_err!("Found end of input before #EOS {}", builder.sentence_id))),
            None => None,
        }""")]),
    ("fp-eof-question", None, [(NE, END, """        let builder: Builder = cur?;
        Some(Err(format_err!("Found end of input before #EOS {}", builder.sentence_id)))""")]),
    ("fp-take-match", None, [(NE, TAKE, """                return match cur.take() {
                    Some(builder) => Some(builder.try_into_tree(line)),
                    None => Some(Err(format_err!("Found #EOS without #BOS\\n{}", line))),
                };""")]),
    ("fp-take-result", None, [(NE, TAKE, """                return Some(
                    cur.take()
                        .ok_or_else(|| format_err!("Found #EOS without #BOS\\n{}", line))
                        .and_then(|builder: Builder| builder.try_into_tree(line)),
                );""")]),
    ("fp-proc-match", None, [(NE, PROC, """                match builder.process_line(line) {
                    Ok(()) => {}
                    Err(e) => return Some(Err(e)),
                }""")]),
    ("fp-nest-match", None, [(NE, NEST, """                if let Some(builder) = cur.as_ref() {
                    let builder: &Builder = builder;
                    return Some(Err(format_err!("Found second #BOS before #EOS of {}\\n{}", builder.sentence_id, line)));
                }
""")]),
    ("fp-pest-group", None, [(PE, "tree = _{SOI ~ node ~ EOI}", "tree = _{ SOI ~ (preterminal | nonterminal) ~ EOI }")]),
    ("fp-pest-inline", None, [(PE, "preterminal = { open ~ node_label ~ terminal ~ close }", 'preterminal = { "(" ~ node_label ~ terminal ~ ")" }')]),
]
