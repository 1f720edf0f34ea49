C = "lumberjack/src/io/conllx.rs"
E = "lumberjack/src/io/encode.rs"
F = "lumberjack/src/features.rs"
REF = '''        let mut token = Token::new(terminal.form());
            token.set_lemma(terminal.lemma());'''
REFPUSH = '''        terminals
            .into_iter()
            .map(|t| tree[t].terminal().unwrap().into())
            .collect()
'''
VAL = '''            let mut token = Token::new(terminal.set_form(String::new()));
            let lemma = terminal.set_lemma::<String>(None);
            token.set_lemma(lemma);
            token.set_pos(Some(terminal.set_label(String::new())));
            if let Some(morph) = terminal.set_features(None) {
                token.set_features(Some(Features::from_string(morph.to_string())));
            }
            tokens.push((token, terminal.span().start));
        }
        tokens.sort_by(|t0, t1| t0.1.cmp(&t1.1));
        let mut sentence = Sentence::new();
        for (token, _) in tokens {
            sentence.push(token);
        }
        sentence
'''
TOK = '''        let mut token = Token::new(terminal.form());
        token.set_lemma(terminal.lemma());
        token.set_pos(Some(terminal.label()));
        if let Some(features) = terminal.features() {
            token.set_features(Some(Features::from_string(features.to_string())));
        }
        token
'''
ANN = '''            if let Some(Some(chain)) = self[terminal]
                .features()
                .and_then(|f| f.get_val("unary_chain"))
            {
                string_rep = format!("{}~{}", string_rep, chain);
            };

            self[terminal]
                .features_mut()
                .insert("abs_ancestor", Some(string_rep));
'''
EDITS = [
    ("x-swap-lemma-pos", "C19", [(C, TOK, TOK.replace("set_lemma(terminal.lemma())", "set_lemma(Some(terminal.label()))").replace("set_pos(Some(terminal.label()))", "set_pos(terminal.lemma())"))]),
    ("x-lemma-dropped", "C19", [(C, TOK, TOK.replace("        token.set_lemma(terminal.lemma());\n", ""))]),
    ("x-lemma-form", "C19", [(C, TOK, TOK.replace("set_lemma(terminal.lemma())", "set_lemma(Some(terminal.lemma().unwrap_or_else(|| terminal.form())))"))]),
    ("x-cpos", "C19", [(C, TOK, TOK.replace("        token\n", "        token.set_cpos(Some(terminal.label()));\n        token\n"))]),
    ("x-feat-only-with-lemma", "C19", [(C, TOK, TOK.replace("if let Some(features) = terminal.features() {", "if let (Some(features), Some(_)) = (terminal.features(), terminal.lemma()) {"))]),
    ("x-val-feats-lost", "C19", [(C, VAL, VAL.replace('''            if let Some(morph) = terminal.set_features(None) {
                token.set_features(Some(Features::from_string(morph.to_string())));
            }
''', ""))]),
    ("x-val-form-twice", "C19", [(C, VAL, VAL.replace("let lemma = terminal.set_lemma::<String>(None);", "let lemma = Some(terminal.set_form(String::new()));"))]),
    ("x-val-skip-noforms", "C19", [(C, VAL, VAL.replace("            tokens.push((token", "            if token.form().is_empty() {\n                continue;\n            }\n            tokens.push((token"))]),
    ("x-ref-filter", "C19", [(C, REFPUSH, REFPUSH.replace("            .map(", "            .filter(|t| tree[*t].terminal().unwrap().label() != \"$,\")\n            .map("))]),
    ("x-ref-skip", "C19", [(C, REFPUSH, REFPUSH.replace("            .map(", "            .skip(1)\n            .map("))]),
    ("x-featsep", "C19", [(F, '''format!("{}:{}", k, v)''', '''format!("{}={}", k, v)''')]),
    ("x-featjoin", "C19", [(F, '''.join("|")''', '''.join("_")''')]),
    ("x-key-abs", "C19", [(E, '''.insert("abs_ancestor", Some(string_rep))''', '''.insert("ancestor", Some(string_rep))''')]),
    ("x-key-cross", "C19", [(C, '''f.as_map().get("rel_ancestor")''', '''f.as_map().get("abs_ancestor")''')]),
    ("x-sep-chain", "C19", [(E, ANN, ANN.replace("{}~{}", "{}|{}"))]),
    ("x-sep-num", "C19", [(E, '''RelativeAncestor::Regular { label, offset } => format!("{}+{}", label, offset),''', '''RelativeAncestor::Regular { label, offset } => format!("{}{:+}", label, offset),''')]),
    ("x-none", "C19", [(E, '''.map(|(common, n_common)| AbsoluteAncestor::new(n_common, common).to_string())
                .unwrap_or_else(|| "NONE".to_string())''', '''.map(|(common, n_common)| AbsoluteAncestor::new(n_common, common).to_string())
                .unwrap_or_else(|| "None".to_string())''')]),
    ("x-order", "C19", [(E, '''        format!("{}+{}", self.label, self.common)''', '''        format!("{}+{}", self.common, self.label)''')]),
    ("x-joint", "C19", [(E, '''format!("{}_{}", chain, common_nt.label())''', '''format!("{}+{}", chain, common_nt.label())''')]),
    ("x-joint2", "C19", [(E, '''format!("{}_{}", chain, common_nt.label())''', '''format!("{}-{}", chain, common_nt.label())''')]),
    ("x-restore", "C19", [(C, '''        let mut tree = Tree::decode(AbsoluteEncoding::new(encoding), terminals);
        tree.restore_unary_chains("_")?;''', '''        let mut tree = Tree::decode(AbsoluteEncoding::new(encoding), terminals);
        tree.restore_unary_chains("~")?;''')]),
    ("x-chain-piece0", "C19", [(C, '''            let mut parts = ancestor.split('~');
            let ancestor = parts
                .next()
                .ok_or_else(|| format_err!("Invalid ancestor part."))?;
            let unary_chain = parts
                .next()
                .filter(|s| !s.is_empty())
                .map(ToOwned::to_owned);

            let ancestor = match ancestor {
                "NONE" => None,
                s => {
                    let rel_ancestor = AbsoluteAncestor''', '''            let mut parts = ancestor.split('~');
            let ancestor = parts
                .next()
                .ok_or_else(|| format_err!("Invalid ancestor part."))?;
            let unary_chain = parts
                .skip(1)
                .next()
                .filter(|s| !s.is_empty())
                .map(ToOwned::to_owned);

            let ancestor = match ancestor {
                "NONE" => None,
                s => {
                    let rel_ancestor = AbsoluteAncestor''')]),
    ("x-to-conllx-lossy", "C19", [(C, '''    fn to_conllx(&self) -> Sentence {
        self.into()
    }''', '''    fn to_conllx(&self) -> Sentence {
        self.terminals().map(|t| Token::new(self[t].terminal().unwrap().form())).collect()
    }''')]),
    # ---------------------------------------------------------------- refactorings
    ("x-r-helper", None, [(C, REFPUSH, '''        let mut sentence = Sentence::new();
        for t in terminals {
            sentence.push(token_for(tree[t].terminal().unwrap()));
        }
        sentence
'''), (C, '''impl From<Tree> for Sentence {''', '''fn token_for(terminal: &Terminal) -> Token {
    let mut token = Token::new(terminal.form());
    token.set_features(terminal.features().map(|f| Features::from_string(f.to_string())));
    token.set_pos(Some(terminal.label().to_string()));
    token.set_lemma(terminal.lemma().map(str::to_string));
    token
}

impl From<Tree> for Sentence {''')]),
    ("x-r-delegate", None, [(C, VAL, VAL), (C, '''impl From<Tree> for Sentence {
    fn from(mut tree: Tree) -> Self {''', '''impl From<Tree> for Sentence {
    fn from(mut tree: Tree) -> Self {
        let _n = tree.n_terminals();''')]),
    ("x-r-val-iter", None, [(C, '''        for (token, _) in tokens {
            sentence.push(token);
        }
        sentence
''', '''        tokens.into_iter().for_each(|(token, _)| {
            sentence.push(token);
        });
        sentence
''')]),
    ("x-r-val-collect", None, [(C, '''        let mut sentence = Sentence::new();
        for (token, _) in tokens {
            sentence.push(token);
        }
        sentence
''', '''        tokens.into_iter().map(|(token, _)| token).collect()
''')]),
    ("x-r-val-temp", None, [(C, '''            token.set_pos(Some(terminal.set_label(String::new())));
            if let Some(morph) = terminal.set_features(None) {
                token.set_features(Some(Features::from_string(morph.to_string())));
            }
            tokens.push((token, terminal.span().start));''', '''            let pos = terminal.set_label(String::new());
            let features = terminal.set_features(None).map(|f| Features::from_string(f.to_string()));
            token.set_features(features);
            token.set_pos(Some(pos));
            let start = terminal.span().start;
            tokens.push((token, start));''')]),
    ("x-r-ann", None, [(E, ANN, '''            let chain = self[terminal]
                .features()
                .and_then(|f| f.get_val("unary_chain"))
                .and_then(|c| c.map(ToOwned::to_owned));
            if let Some(chain) = chain {
                string_rep.push('~');
                string_rep.push_str(&chain);
            }
            let features = self[terminal].features_mut();
            features.insert(ABS_KEY, Some(string_rep));
'''), (E, '''static EMPTY_NODE''', '''const ABS_KEY: &str = "abs_ancestor";
static EMPTY_NODE''')]),
    ("x-r-reader", None, [(C, '''            let mut parts = ancestor.split('~');
            let ancestor = parts
                .next()
                .ok_or_else(|| format_err!("Invalid ancestor part."))?;
            let unary_chain = parts
                .next()
                .filter(|s| !s.is_empty())
                .map(ToOwned::to_owned);

            let ancestor = match ancestor {
                "NONE" => None,
                s => {
                    let rel_ancestor = AbsoluteAncestor::try_from(s)?;
                    Some(rel_ancestor)
                }
            };
            encoding.push((ancestor, unary_chain))''', '''            let parts = ancestor.split('~').collect::<Vec<_>>();
            let unary_chain = match parts.get(1) {
                Some(chain) if !chain.is_empty() => Some(chain.to_string()),
                _ => None,
            };
            let ancestor = if parts[0] == "NONE" {
                None
            } else {
                Some(AbsoluteAncestor::try_from(parts[0])?)
            };
            encoding.push((ancestor, unary_chain))''')]),
    ("x-r-feat", None, [(F, '''            .map(|(k, v)| {
                if let Some(v) = v {
                    format!("{}:{}", k, v)
                } else {
                    k.to_owned()
                }
            })
            .join("|")''', '''            .map(|(k, v)| match v {
                Some(v) => [k.as_str(), v.as_str()].join(":"),
                None => k.clone(),
            })
            .collect::<Vec<String>>()
            .join("|")''')]),
    ("x-r-dup", None, [(C, '''            let terminal = Terminal::new(token.form(), token.pos().unwrap_or("_"), idx);
            terminals.push(terminal);
            let mut parts = ancestor.split('~');
            let ancestor = parts
                .next()
                .ok_or_else(|| format_err!("Invalid ancestor part."))?;
            let unary_chain = parts
                .next()
                .filter(|s| !s.is_empty())
                .map(ToOwned::to_owned);

            let ancestor = match ancestor {
                "NONE" => None,
                s => {
                    let rel_ancestor = RelativeAncestor::try_from(s)?;
                    Some(rel_ancestor)
                }
            };
            encoding.push((ancestor, unary_chain))''', '''            terminals.push(Terminal::new(token.form(), token.pos().unwrap_or("_"), idx));
            let (tag, unary_chain) = split_tag(ancestor)?;
            let ancestor = if tag == "NONE" { None } else { Some(RelativeAncestor::try_from(tag)?) };
            encoding.push((ancestor, unary_chain))'''), (C, '''impl ToConllx for Tree {''', '''fn split_tag(tag: &str) -> Result<(&str, Option<String>), Error> {
    let mut parts = tag.split('~');
    let ancestor = parts.next().ok_or_else(|| format_err!("Invalid ancestor part."))?;
    Ok((ancestor, parts.next().filter(|s| !s.is_empty()).map(ToOwned::to_owned)))
}

impl ToConllx for Tree {''')]),
 ("x-lemma-first", "C19", [("lumberjack/src/io/conllx.rs", "        token.set_lemma(terminal.lemma());", "        token.set_lemma(terminal.lemma().and_then(|lemma| lemma.split('|').next()));")]),
 ("x-form-trim", "C19", [("lumberjack/src/io/conllx.rs", "        let mut token = Token::new(terminal.form());", "        let mut token = Token::new(terminal.form().trim());")]),
 ("x-pos-upper", "C19", [("lumberjack/src/io/conllx.rs", "        token.set_pos(Some(terminal.label()));", "        token.set_pos(Some(terminal.label().to_uppercase()));")]),
 ("x-lemma-lower", "C19", [("lumberjack/src/io/conllx.rs", "        token.set_lemma(terminal.lemma());", "        token.set_lemma(terminal.lemma().map(|l| l.to_lowercase()));")]),
]
