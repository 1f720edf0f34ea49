PT = "lumberjack/src/io/ptb.rs"
POS = 'let pos = pos.replace("(", "LBR").replace(")", "RBR");'
FORM = 'let form = form.replace("(", "LBR").replace(")", "RBR");'
REP = 'representation.replace("(", "LBR").replace(")", "RBR")'
EDG = '''            let edge = edge
                .unwrap_or("--")
                .replace("(", "LBR")
                .replace(")", "RBR");
'''
JOIN = '''                let mut sub_tree_rep = Vec::with_capacity(nodes.len());
                sub_tree_rep.push(self.fmt_inner(nt, edge));
                sub_tree_rep.extend(nodes.into_iter().map(|(child, edge)| {
                    self.format_sub_tree(sentence, child, sentence[edge].label())
                }));
                let node_sep = if let PTBFormat::TueBa = self { "" } else { " " };
                format!("({})", sub_tree_rep.join(node_sep))'''
SIG = "    // this method traverses the linearized tree and builds a StableGraph\n"
HEAD = '''    fn fmt_term(&self, form: &str, pos: &str, edge: Option<&str>) -> String {'''
EDITS = [
 ("b-pos-close", "C16", [(PT, POS, 'let pos = pos.replace("(", "LBR");')]),
 ("b-form-none", "C16", [(PT, FORM, '')]),
 ("b-form-trimcond", "C16", [(PT, FORM, 'let form = if form.len() > 1 { form.to_string() } else { form.replace("(", "LBR").replace(")", "RBR") };')]),
 ("b-form-replacen", "C16", [(PT, FORM, 'let form = form.replacen("(", "LBR", 1).replace(")", "RBR");')]),
 ("b-edge-raw", "C16", [(PT, EDG, 'let edge = edge.unwrap_or("--");\n')]),
 ("b-inner-late-edge", "C16", [(PT, "                representation.push(':');\n                representation.push_str(edge.unwrap_or(\"--\"));\n", "                let representation = representation.replace(\"(\", \"LBR\").replace(\")\", \"RBR\");\n                return format!(\"{}:{}\", representation, edge.unwrap_or(\"--\"));\n")]),
 ("b-inner-label-first", "C16", [(PT, "let mut representation = nt.label().to_string();", 'let mut representation = nt.label().replace("(", "LBR").replace(")", "RBR");'), (PT, REP, "representation")]),
 ("b-swap-back", "C16", [(PT, POS, 'let pos = pos.replace("(", "LBR").replace(")", "(RBR");')]),
 ("b-eq-only", "C16", [(PT, FORM, 'let form = match form { "(" => "LBR".to_string(), ")" => "RBR".to_string(), f => f.to_string() };')]),
 ("b-loop-raw", "C16", [(PT, JOIN, '''                let mut out = String::from("(");
                out.push_str(nt.label());
                for (child, edge) in nodes {
                    out.push(' ');
                    out.push_str(&self.format_sub_tree(sentence, child, sentence[edge].label()));
                }
                out.push(')');
                out''')]),
 ("b-chars-missing", "C16", [(PT, FORM, '''let mut f = String::new();
        for c in form.chars() {
            match c {
                '(' => f.push_str("LBR"),
                c => f.push(c),
            }
        }
        let form = f;''')]),
 ("b-write-extra", "C16", [(PT, 'writeln!(self.writer, "{}", s)?;', 'writeln!(self.writer, "{} {}", s, tree.terminals().next().map(|t| tree[t].terminal().unwrap().form().to_string()).unwrap_or_default())?;')]),
 # behaviour-preserving
 ("r-b-order", None, [(PT, POS, 'let pos = pos.replace(")", "RBR").replace("(", "LBR");')]),
 ("r-b-char", None, [(PT, FORM, "let form = form.replace('(', \"LBR\").replace(')', \"RBR\");")]),
 ("r-b-helper", None, [(PT, FORM, 'let form = escape(form);'), (PT, POS, 'let pos = escape(pos);'), (PT, REP, 'escape(&representation)'), (PT, EDG, 'let edge = escape(edge.unwrap_or("--"));\n'), (PT, "impl PTBFormat {\n", 'fn escape(s: &str) -> String {\n    let open = s.replace("(", "LBR");\n    open.replace(")", "RBR")\n}\n\nimpl PTBFormat {\n')]),
 ("r-b-helper-chars", None, [(PT, FORM, 'let form = escape(form);'), (PT, POS, 'let pos = escape(pos);'), (PT, REP, 'escape(&representation)'), (PT, "impl PTBFormat {\n", '''fn escape(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '(' => out.push_str("LBR"),
            ')' => out.push_str("RBR"),
            c => out.push(c),
        }
    }
    out
}

impl PTBFormat {
''')]),
 ("r-b-helper-if", None, [(PT, FORM, 'let form = escape(form);'), (PT, "impl PTBFormat {\n", '''fn escape(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if c == '(' {
            out += "LBR";
        } else if c == ')' {
            out += "RBR";
        } else {
            out.push(c);
        }
    }
    out
}

impl PTBFormat {
''')]),
 ("r-b-flatmap", None, [(PT, FORM, 'let form = form.chars().map(|c| match c { \'(\' => "LBR".to_string(), \')\' => "RBR".to_string(), c => c.to_string() }).collect::<String>();')]),
 ("r-b-contains", None, [(PT, FORM, 'let form = if form.contains("(") || form.contains(")") { form.replace("(", "LBR").replace(")", "RBR") } else { form.to_string() };')]),
 ("r-b-split", None, [(PT, FORM, 'let form = form.split(\'(\').collect::<Vec<_>>().join("LBR").split(\')\').collect::<Vec<_>>().join("RBR");')]),
 ("r-b-loop", None, [(PT, JOIN, '''                let node_sep = if let PTBFormat::TueBa = self { "" } else { " " };
                let mut out = String::from("(");
                out.push_str(&self.fmt_inner(nt, edge));
                for (child, edge) in nodes {
                    out.push_str(node_sep);
                    out.push_str(&self.format_sub_tree(sentence, child, sentence[edge].label()));
                }
                out.push(')');
                out''')]),
 ("r-b-vecloop", None, [(PT, JOIN, '''                let node_sep = if let PTBFormat::TueBa = self { "" } else { " " };
                let mut reps = vec![self.fmt_inner(nt, edge)];
                for (child, edge) in nodes {
                    let label = sentence[edge].label();
                    reps.push(self.format_sub_tree(sentence, child, label));
                }
                let mut out = reps.join(node_sep);
                out.insert(0, '(');
                out + ")"''')]),
 ("r-b-outparam", None, [
   (PT, "Ok(self.format_sub_tree(tree, tree.root(), None))", "let mut out = String::new();\n            self.format_sub_tree(tree, tree.root(), None, &mut out);\n            Ok(out)"),
   (PT, "fn format_sub_tree(&self, sentence: &Tree, position: NodeIndex, edge: Option<&str>) -> String {", "fn format_sub_tree(&self, sentence: &Tree, position: NodeIndex, edge: Option<&str>, out: &mut String) {"),
   (PT, "Node::Terminal(terminal) => self.fmt_term(terminal.form(), terminal.label(), edge),", "Node::Terminal(terminal) => out.push_str(&self.fmt_term(terminal.form(), terminal.label(), edge)),"),
   (PT, JOIN, '''                let node_sep = if let PTBFormat::TueBa = self { "" } else { " " };
                out.push('(');
                out.push_str(&self.fmt_inner(nt, edge));
                for (child, edge) in nodes {
                    out.push_str(node_sep);
                    self.format_sub_tree(sentence, child, sentence[edge].label(), out);
                }
                out.push(')');'''),
 ]),
 ("r-b-preescaped", None, [(PT, "self.format_sub_tree(sentence, child, sentence[edge].label())", "{\n                    let l = sentence[edge].label().map(|l| l.replace(\"(\", \"LBR\").replace(\")\", \"RBR\"));\n                    self.format_sub_tree(sentence, child, l.as_ref().map(|l| l.as_str()))\n                }"), (PT, EDG, 'let edge = edge.unwrap_or("--");\n')]),
 ("r-b-match", None, [(PT, '''        if let PTBFormat::TueBa = self {
            let edge''', '''        if let PTBFormat::Simple | PTBFormat::PTB = self {
            return format!("({} {})", pos, form);
        }
        if let PTBFormat::TueBa = self {
            let edge''')]),
]
