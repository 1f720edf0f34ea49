N = "lumberjack/src/io/negra.rs"
PAD = '''        if len >= to + 8 {
            " ".to_string()
        } else if len < to + 8 {
            (len..to + 8).map(|_| " ").collect()
        } else {
            (len..to).map(|_| " ").collect()
        }
'''
TERM = '''        let mut string_rep = String::with_capacity(84);
        string_rep.push_str(terminal.form());
        string_rep.push_str(&Self::pad(terminal.form().len(), 24));
        let lemma = terminal.lemma().unwrap_or_else(|| "--");
        string_rep.push_str(lemma);
        string_rep.push_str(&Self::pad(lemma.len(), 24));
        string_rep.push_str(terminal.label());
        string_rep.push_str(&Self::pad(terminal.label().len(), 8));
        let features = terminal.features();
        if let Some(Some(morph)) = features.and_then(|f| f.get_val("morph")) {
            string_rep.push_str(morph);
            string_rep.push_str(&Self::pad(morph.len(), 16));
        } else {
            string_rep.push_str("--");
            string_rep.push_str(&Self::pad(2, 16));
        }
        string_rep
'''
LEM = 'let lemma = terminal.lemma().unwrap_or_else(|| "--");'
SEC = '''            edge_rep.push_str(&Self::pad(id.len(), 8));
            let label'''
PADL = '''            edge_rep.push_str(&Self::pad(label.len(), 8));
'''
LINE = '''            write!(self.writer, "{}", Self::terminal_to_negra_line(terminal))?;
            writeln!(
                self.writer,
                "{}",
                Self::get_parent_edge(terminal_idx, tree, &nt_id_map)?
            )?;
'''
EDGE = '''            self.sec_edges
                .push((id, label.map(ToOwned::to_owned), node_idx));
'''
EDITS = [
 ("o-pad-empty-eq", "C20", [(N, '        if len >= to + 8 {\n            " ".to_string()', '        if len >= to + 8 {\n            String::new()')]),
 ("o-pad-range", "C20", [(N, PAD, '        " ".repeat((to + 8).saturating_sub(len))\n')]),
 ("o-pad-gt", "C20", [(N, PAD, '        if len > to {\n            " ".to_string()\n        } else {\n            " ".repeat(to - len)\n        }\n')]),
 ("o-pad-lemma-width", "C20", [(N, 'string_rep.push_str(&Self::pad(lemma.len(), 24));', 'string_rep.push_str(&" ".repeat(32usize.saturating_sub(lemma.len())));')]),
 ("o-pad-format-width", "C20", [(N, '''        string_rep.push_str(terminal.form());
        string_rep.push_str(&Self::pad(terminal.form().len(), 24));
''', '''        string_rep.push_str(&format!("{:<32}", terminal.form()));
''')]),
 ("o-sec-nopad", "C20", [(N, SEC, "            let label")]),
 ("o-sec-nopad2", "C20", [(N, PADL, "")]),
 ("o-swap-lemma-pos", "C20", [(N, '        string_rep.push_str(lemma);', '        string_rep.push_str(terminal.label());'), (N, '''        string_rep.push_str(terminal.label());
        string_rep.push_str(&Self::pad(terminal.label().len(), 8));''', '''        string_rep.push_str(lemma);
        string_rep.push_str(&Self::pad(lemma.len(), 8));''')]),
 ("o-lemma-empty", "C20", [(N, LEM, 'let lemma = terminal.lemma().unwrap_or_else(|| "");')]),
 ("o-lemma-form", "C20", [(N, LEM, 'let lemma = terminal.lemma().unwrap_or_else(|| terminal.form());')]),
 ("o-lemma-underscore", "C20", [(N, LEM, 'let lemma = terminal.lemma().unwrap_or_else(|| "_");')]),
 ("o-morph-skip", "C20", [(N, '''        } else {
            string_rep.push_str("--");
            string_rep.push_str(&Self::pad(2, 16));
        }
        string_rep
''', '''        }
        string_rep
''')]),
 ("o-morph-key", "C20", [(N, '.and_then(|f| f.get_val("morph")) {', '.and_then(|f| f.get_val("feats")) {')]),
 ("o-edge-empty", "C20", [(N, 'tree[edge].label().unwrap_or_else(|| "--").to_string()', 'tree[edge].label().unwrap_or_else(|| "-").to_string()')]),
 ("o-sec-label-primary", "C20", [(N, 'let label = tree[sec_edge].label().unwrap_or_else(|| "--");', 'let label = tree[edge].label().unwrap_or_else(|| "--");')]),
 ("o-sec-parent-self", "C20", [(N, 'if let Some((parent, sec_edge)) = tree.secondary_parent(idx) {', 'if let Some((_, sec_edge)) = tree.secondary_parent(idx) {')]),
 ("o-ann-sep", "C20", [(N, "            label.push('=');\n", "            label.push('#');\n")]),
 ("o-ann-any", "C20", [(N, '''            .and_then(|f| f.get_val(NODE_ANNOTATION_FEATURE_KEY))
        {
            label''', '''            .and_then(|f| f.get_val("annotation"))
        {
            label''')]),
 ("o-bos-glue", "C20", [(N, '"#BOS {}  {}"', '"#BOS {}{}"')]),
 ("o-eos-glue", "C20", [(N, '"#EOS {}\\n"', '"#EOS{}\\n"')]),
 ("o-rd-swap", "C20", [(N, '''        let lemma = read_required_string_field(parts.next())?;
        let pos = read_required_string_field(parts.next())?;
''', '''        let pos = read_required_string_field(parts.next())?;
        let lemma = read_required_string_field(parts.next())?;
''')]),
 ("o-rd-lemma", "C20", [(N, 'if lemma != "--" {', 'if lemma != "-" {')]),
 ("o-rd-lemma-form", "C20", [(N, 'terminal.set_lemma(Some(lemma));', 'terminal.set_lemma(Some(form));')]),
 ("o-rd-morph", "C20", [(N, '''        if morph != "--" {
            terminal.features_mut().insert("morph", Some(morph));
        }
''', '''        terminal.features_mut().insert("morph", Some(morph));
''')]),
 ("o-rd-edge", "C20", [(N, 'let edge = if edge == "--" { None } else { Some(edge) };', 'let edge = Some(edge);')]),
 ("o-rd-edge-empty", "C20", [(N, 'let edge = if edge == "--" { None } else { Some(edge) };', 'let edge = if edge.starts_with(\'-\') { None } else { Some(edge) };')]),
 ("o-rd-ann", "C20", [(N, '''        if let Some(annotation) = label_parts.next() {
            self.graph''', '''        if let Some(annotation) = label_parts.nth(1) {
            self.graph''')]),
 ("o-rd-sep", "C20", [(N, ".split('=');", ".split('#');")]),
 ("o-rd-secskip", "C20", [(N, '''            let id = read_required_numerical_field(parts.next())?;
                return''', '''            let _ = parts.next();
                let id = read_required_numerical_field(parts.next())?;
                return'''), ]),
 ("o-r-pad", None, [(N, PAD, '        " ".repeat(std::cmp::max((to + 8).saturating_sub(len), 1))\n')]),
 ("o-r-pad2", None, [(N, PAD, '        let mut s = String::from(" ");\n        while s.len() + len < to + 8 {\n            s.push(\' \');\n        }\n        s\n')]),
 ("o-r-pad3", None, [(N, PAD, '        match (to + 8).checked_sub(len) {\n            None | Some(0) => String::from(" "),\n            Some(n) => std::iter::repeat(\' \').take(n).collect(),\n        }\n')]),
 ("o-r-pad4", None, [(N, PAD, '        if len < to + 8 {\n            (len..to + 8).map(|_| \' \').collect()\n        } else {\n            " ".to_owned()\n        }\n')]),
 ("o-r-tab", None, [(N, PAD, '        let tabs = (to + 8).saturating_sub(len) / 8;\n        format!("{}\\t", "\\t".repeat(tabs))\n')]),
 ("o-r-helper", None, [(N, TERM, '''        let mut string_rep = String::with_capacity(84);
        let mut column = |value: &str, width: usize| {
            string_rep.push_str(value);
            string_rep.push_str(&Self::pad(value.len(), width));
        };
        column(terminal.form(), 24);
        column(terminal.lemma().unwrap_or("--"), 24);
        column(terminal.label(), 8);
        let morph = match terminal.features() {
            Some(f) => f.get_val("morph").and_then(|m| m),
            None => None,
        };
        column(morph.unwrap_or("--"), 16);
        string_rep
''')]),
 ("o-r-format", None, [(N, TERM, '''        let lemma = match terminal.lemma() {
            Some(lemma) => lemma,
            None => "--",
        };
        let morph = terminal
            .features()
            .and_then(|f| f.get_val("morph"))
            .and_then(|m| m)
            .unwrap_or("--");
        format!(
            "{:<31} {:<31} {:<15} {:<23} ",
            terminal.form(),
            lemma,
            terminal.label(),
            morph
        )
''')]),
 ("o-r-fields-join", None, [(N, TERM, '''        let morph = terminal
            .features()
            .and_then(|f| f.get_val("morph"))
            .and_then(|m| m)
            .unwrap_or("--");
        let mut s = [terminal.form(), terminal.lemma().unwrap_or("--"), terminal.label(), morph].join("\\t");
        s.push('\\t');
        s
''')]),
 ("o-r-one-write", None, [(N, LINE, '''            let edge = Self::get_parent_edge(terminal_idx, tree, &nt_id_map)?;
            let mut line = Self::terminal_to_negra_line(terminal);
            line.push_str(&edge);
            line.push('\\n');
            self.writer.write_all(line.as_bytes())?;
''')]),
 ("o-r-rd-match", None, [(N, '''        if lemma != "--" {
            terminal.set_lemma(Some(lemma));
        }
''', '''        match lemma {
            "--" => {}
            lemma => {
                terminal.set_lemma(Some(lemma));
            }
        }
'''), (N, 'let edge = if edge == "--" { None } else { Some(edge) };', 'let edge = match edge {\n            "--" => None,\n            edge => Some(edge),\n        };')]),
 ("o-r-rd-filter", None, [(N, 'let edge = if edge == "--" { None } else { Some(edge) };', 'let edge = Some(edge).filter(|&e| e != "--");'), (N, 'let label = if label == "--" { None } else { Some(label) };', 'let label = Some(label).filter(|l| *l != "--");')]),
 ("o-r-rd-helper", None, [(N, 'let edge = if edge == "--" { None } else { Some(edge) };', 'let edge = optional(edge);'), (N, 'let label = if label == "--" { None } else { Some(label) };', 'let label = optional(label);'), (N, "fn read_required_string_field(field", "fn optional(field: &str) -> Option<&str> {\n    if field == \"--\" {\n        return None;\n    }\n    Some(field)\n}\n\nfn read_required_string_field(field")]),
 ("o-r-rd-collect", None, [(N, '''        let form = read_required_string_field(parts.next())?;
        let lemma = read_required_string_field(parts.next())?;
        let pos = read_required_string_field(parts.next())?;
        let morph = read_required_string_field(parts.next())?;
''', '''        let mut field = || read_required_string_field(parts.next());
        let (form, lemma, pos, morph) = (field()?, field()?, field()?, field()?);
''')]),
]
