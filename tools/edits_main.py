M = "lumberjack-utils/src/bin/lumberjack-conversion.rs"
TR = "lumberjack/src/tree.rs"
EDITS = [
 ("m-swap-filter-insert-closures", "C08", [(M, "if !insertion_set.matches", "if insertion_set.matches")]),
 ("m-parent-before-filter", "C08", [(M, "        if let Some(filter_set) = filter_set.as_ref() {", "        if let Some(name) = parent_feature.as_ref() { if filter_set.is_some() && id_set.is_some() {tree.annotate_parent_tag(name).or_exit(\"x\", 1);} }\n        if let Some(filter_set) = filter_set.as_ref() {")]),
 ("m-insert-label-wrong", "C08", [(M, "Some(insertion_label.into())", "Some(id_feature_name.into())")]),
 ("m-filter-idset", "C08", [(M, "let filter_set = matches.value_of(FILTER_SET)", "let filter_set = matches.value_of(INSERTION_SET)")]),
 ("m-id-noroot", "C08", [(M, "tree.root() == nt || id_set.matches", "id_set.matches")]),
 ("m-sec-always", "C08", [(M, "                if sec_edges {", "                if sec_edges || remove_dummies {")]),
 ("m-sec-swapped", "C08", [(M, "tree.add_secondary_edge(parent, child, Some(label));", "tree.add_secondary_edge(child, parent, Some(label));")]),
 ("m-rel-abs", "C08", [(M, "tree.annotate_relative()", "tree.annotate_absolute()")]),
 ("m-skip-collapse", "C08", [(M, "        } else if out_formatter == OutFormat::Relative {\n            tree.collapse_unary_chains(\"_\")\n                .or_exit(\"Could not collapse unary chains.\", 1);", "        } else if out_formatter == OutFormat::Relative {\n            if !projectivize { tree.collapse_unary_chains(\"_\")\n                .or_exit(\"Could not collapse unary chains.\", 1); }")]),
 ("m-continue", "C08", [(M, "        if let Some(label) = reattach_label {", "        if tree.n_terminals() == 1 { continue; }\n        if let Some(label) = reattach_label {")]),
 ("m-pos-once", "C08", [(M, "        if let Some(pos_sentences) = pos_sentences.as_mut() {", "        if let (true, Some(pos_sentences)) = (tree.n_terminals() > 1, pos_sentences.as_mut()) {")]),
 ("m-reattach-ends", "C08", [(M, "starts_with(label)", "ends_with(label)")]),
 ("m-order-pos-after-reattach", "C08", [(M, "        if let Some(label) = reattach_label {\n            let root = tree.root();\n            tree.reattach_terminals(root, |tree, nt| tree[nt].label().starts_with(label))\n        }\n", ""), (M, "        if let Some(pos_sentences) = pos_sentences.as_mut() {", "        if let Some(label) = reattach_label {\n            let root = tree.root();\n            tree.reattach_terminals(root, |tree, nt| tree[nt].label().starts_with(label))\n        }\n        if let Some(pos_sentences) = pos_sentences.as_mut() {")]),
 ("m-root-stale", "C08", [(M, "            let root = tree.root();\n            tree.reattach_terminals(root", "            let root = tree.nonterminals().next().unwrap();\n            tree.reattach_terminals(root")]),
 ("m-fmt-ptb-simple", "C09", [(M, "PTB => Box::new(PTBReader::new(input, PTBFormat::PTB, multiline))", "PTB => Box::new(PTBReader::new(input, PTBFormat::Simple, multiline))")]),
 ("m-fmt-multi", "C09", [(M, "TueBa => Box::new(PTBReader::new(input, PTBFormat::TueBa, multiline))", "TueBa => Box::new(PTBReader::new(input, PTBFormat::TueBa, PTBLineFormat::SingleLine))")]),
 ("m-fmt-rel", "C09", [(M, "TryFromConllx::try_from_conllx_with_relative_encoding(&s)", "TryFromConllx::try_from_conllx_with_absolute_encoding(&s)")]),
 ("m-fmt-name", "C09", [(M, "            \"tueba\" => Ok(TueBa),\n            _ => Err(format_err!(\"Unknown output", "            \"tueba\" => Ok(Simple),\n            _ => Err(format_err!(\"Unknown output")]),
 ("m-fmt-reject", "C09", [(M, "            \"conllx\" => Ok(Conllx),", "            \"conll\" => Ok(Conllx),")]),
 ("m-fmt-default", "C09", [(M, ".default_value(\"simple\")", ".default_value(\"bracket\")")]),
 ("m-fmt-adv", "C09", [(M, "\"absolute\", \"conllx\", \"negra\", \"ptb\", \"relative\", \"simple\", \"tueba\",", "\"absolute\", \"conllx\", \"negra\", \"ptb\", \"relative\", \"simple\", \"tueba\", \"tiger\",")]),
 ("m-fmt-catchall", "C09", [(M, "            _ => Err(format_err!(\"Unknown output format: {}\", value)),", "            x if x.starts_with('s') => Ok(Simple),\n            _ => Err(format_err!(\"Unknown output format: {}\", value)),")]),
 ("m-multi-flag", "C09", [(M, "let multiline = matches.is_present(MULTILINE);", "let multiline = matches.is_present(SEC_EDGES);")]),
 # behaviour preserving
 ("r-main-helper", None, [(M, "        if remove_dummies {\n            tree.remove_dummy_nodes()\n                .or_exit(\"Can't remove dummy nopdes.\", 1);\n        }\n", "        strip(&mut tree, remove_dummies);\n"), (M, "fn get_set_from_file(", "fn strip(t: &mut Tree, yes: bool) {\n    if !yes { return; }\n    t.remove_dummy_nodes().or_exit(\"Can't remove dummy nopdes.\", 1);\n}\n\nfn get_set_from_file(")]),
 ("r-main-match", None, [(M, "        if out_formatter == OutFormat::Absolute {\n            tree.collapse_unary_chains(\"_\")\n                .or_exit(\"Could not collapse unary chains.\", 1);\n            tree.annotate_absolute()\n                .or_exit(\"Could not encode tree.\", 1)\n        } else if out_formatter == OutFormat::Relative {\n            tree.collapse_unary_chains(\"_\")\n                .or_exit(\"Could not collapse unary chains.\", 1);\n            tree.annotate_relative()\n                .or_exit(\"Could not encode tree.\", 1)\n        }", "        match out_formatter {\n            OutFormat::Absolute | OutFormat::Relative => {\n                let delim = \"_\";\n                tree.collapse_unary_chains(delim).or_exit(\"Could not collapse unary chains.\", 1);\n                let res = if let OutFormat::Absolute = out_formatter { tree.annotate_absolute() } else { tree.annotate_relative() };\n                res.or_exit(\"Could not encode tree.\", 1);\n            }\n            _ => (),\n        }")]),
 ("r-main-while", None, [(M, "    for tree in get_reader(in_format, reader, multiline) {\n        let mut tree = tree.or_exit(\"Could not read tree.\", 1);", "    let mut trees = get_reader(in_format, reader, multiline);\n    while let Some(next) = trees.next() {\n        let mut tree = next.or_exit(\"Could not read tree.\", 1);")]),
 ("r-main-filter-closure", None, [(M, "            tree.filter_nonterminals(|tree, nt| filter_set.matches(tree[nt].label()))", "            tree.filter_nonterminals(|t, n| {\n                let label = t[n].label().to_owned();\n                let keep = filter_set.matches(label.as_str());\n                keep\n            })")]),
 ("r-main-if-insert", None, [(M, "                if !insertion_set.matches(tree[nt].label()) {\n                    Some(insertion_label.into())\n                } else {\n                    None\n                }", "                if insertion_set.matches(tree[nt].label()) {\n                    return None;\n                }\n                Some(insertion_label.to_string())")]),
 ("r-main-process-fn", None, [(M, "        writer\n            .write_tree(&tree)\n            .or_exit(\"Can't write to output.\", 1)\n    }\n}", "        emit(&mut *writer, &tree);\n    }\n}\n\nfn emit(w: &mut dyn WriteTree, t: &Tree) {\n    w.write_tree(t).or_exit(\"Can't write to output.\", 1);\n}")]),
 ("r-main-label", None, [(M, "                        let label = if let Some(label) = edge.label() {\n                            format!(\"np_{}\", label)\n                        } else {\n                            \"np\".to_string()\n                        };", "                        let label = edge.label().map(|l| format!(\"np_{}\", l)).unwrap_or_else(|| \"np\".to_owned());")]),
]
