NG, EN, PT, CX = ["lumberjack/src/io/" + x for x in ("negra.rs", "encode.rs", "ptb.rs", "conllx.rs")]
PE = "lumberjack/src/io/ptb.pest"
NUM = """    if let Some(parse) = field.map(str::parse::<usize>) {
        parse.map_err(|e| format_err!("Can't parse value for numerical field: {}", e))
    } else {
        Err(format_err!("Line missing field."))
    }"""
STR = """    field.ok_or_else(|| format_err!("Line missing field."))"""
SEC = """            let source = *self.nt_indices.get(&source).ok_or_else(|| {
                format_err!("Secondary edge from undefined nonterminal: {}", source)
            })?;"""
SELF = """        let self_idx = *self
            .nt_indices
            .get(&self_id)
            .ok_or_else(|| format_err!("Nonterminal without children."))?;"""
ABS = """        let offset = parts
            .next()
            .ok_or_else(|| format_err!("Missing offset."))?
            .parse::<usize>()?;
        if offset == 0 {
            return Err(format_err!("Number of common ancestors has to be positive."));
        }"""
OFF0 = """        if offset == 0 {
            return Err(format_err!("Number of common ancestors has to be positive."));
        }
"""
REL = """            let offset = offset.parse::<isize>()?;"""
CHK = """                        let n_common = offset.checked_add(prev_n).unwrap_or(0);
                        if n_common < 1 {
                            return"""
FIX = """                        let mut n_common = offset.checked_add(self.prev_n).unwrap_or(0);
                        if n_common < 1 {"""
HDR = """        header_parts.next().unwrap();
"""
LINE = """        let mut parts = line.split_whitespace();

        let self_id = read_required_numerical_field(parts.next().map(|part| &part[1..]))?;"""
EOS = """        let eos_id = read_required_string_field(parts.next()).map_err(|e| format_err!("{}", e))?;"""
LAB = """        let form = read_required_string_field(parts.next())?;
        let lemma = read_required_string_field(parts.next())?;
        let pos = read_required_string_field(parts.next())?;
        let morph = read_required_string_field(parts.next())?;"""
PL = """        if line.starts_with('#') {
            self.process_nonterminal_line(line)"""
FEAT = """                .as_ref()
                .map(String::as_str)
                .ok_or_else(|| format_err!("Ancestor feature missing value."))?;
            let terminal = Terminal::new(token.form(), token.pos().unwrap_or("_"), idx);
            terminals.push(terminal);
            let mut parts = ancestor.split('~');
            let ancestor = parts
                .next()
                .ok_or_else(|| format_err!("Invalid ancestor part."))?;
            let unary_chain = parts
                .next()
                .filter(|s| !s.is_empty())
                .map(ToOwned::to_owned);

            let ancestor = match ancestor {
                "NONE" => None,
                s => {
                    let rel_ancestor = AbsoluteAncestor"""
PTB = """                    if let Some(idx) = label.find('-') {
                        Ok((&label[..idx], None, Some(&label[idx..])))
                    } else {
                        Ok((label, None, None))
                    }"""
OPT = """                let edge = part;
                let id = read_required_numerical_field(parts.next())?;"""
RF = """                    if let Some(idx) = common_nt.rfind('_') {
                        let (chain, label) = common_nt.split_at(idx);"""
MISS = """                .ok_or_else(|| format_err!("Missing ancestor feature."))?
                .as_ref()
                .map(String::as_str)
                .ok_or_else(|| format_err!("Ancestor feature missing value."))?;
            let terminal = Terminal::new(token.form(), token.pos().unwrap_or("_"), idx);
            terminals.push(terminal);
            let mut parts = ancestor.split('~');
            let ancestor = parts
                .next()
                .ok_or_else(|| format_err!("Invalid ancestor part."))?;
            let unary_chain = parts
                .next()
                .filter(|s| !s.is_empty())
                .map(ToOwned::to_owned);

            let ancestor = match ancestor {
                "NONE" => None,
                s => {
                    let rel_ancestor = AbsoluteAncestor"""
EDITS = [
    ("q-parse-unwrap", "C13", [(NG, NUM, """    if let Some(parse) = field.map(str::parse::<usize>) {
        Ok(parse.unwrap())
    } else {
        Err(format_err!("Line missing field."))
    }""")]),
    ("q-field-expect", "C13", [(NG, STR, """    Ok(field.expect("Line missing field."))""")]),
    ("q-eos-unwrap", "C13", [(NG, EOS, "        let eos_id = parts.next().unwrap();")]),
    ("q-opt-unwrap", "C13", [(NG, OPT, """                let edge = part;
                let id = parts.next().unwrap().parse::<usize>()?;""")]),
    ("q-opt-index", "C13", [(NG, OPT, """                let edge = part;
                let rest = parts.collect::<Vec<_>>();
                let id = read_required_numerical_field(Some(rest[0]))?;""")]),
    ("q-sec-index", "C13", [(NG, SEC, "            let source = self.nt_indices[&source];")]),
    ("q-self-index", "C13", [(NG, SELF, "        let self_idx = self.nt_indices[&self_id];")]),
    ("q-self-unwrap", "C13", [(NG, SELF, "        let self_idx = *self.nt_indices.get(&self_id).unwrap();")]),
    ("q-hash", "C13", [(NG, PL, """        if line.starts_with('#') || self.finished_terminals {
            self.process_nonterminal_line(line)""")]),
    ("q-fields-index", "C13", [(NG, LAB, """        let fields = parts.by_ref().take(4).collect::<Vec<_>>();
        if fields.is_empty() {
            return Err(format_err!("Line missing field."));
        }
        let (form, lemma, pos, morph) = (fields[0], fields[1], fields[2], fields[3]);""")]),
    ("q-abs-zero", "C13", [(EN, OFF0, "")]),
    ("q-abs-parse", "C13", [(EN, ABS, """        let offset = parts
            .next()
            .ok_or_else(|| format_err!("Missing offset."))?
            .parse::<usize>()
            .expect("Offset is not a number.");
        if offset == 0 {
            return Err(format_err!("Number of common ancestors has to be positive."));
        }""")]),
    ("q-abs-next", "C13", [(EN, ABS, ABS.replace('.ok_or_else(|| format_err!("Missing offset."))?', ".unwrap()"))]),
    ("q-rel-parse", "C13", [(EN, REL, "            let offset: isize = offset.parse().unwrap();")]),
    ("q-rel-slice", "C13", [(EN, """        let mut parts = value.split('+');
        let label = parts
            .next()
            .filter(""", """        if value[..1] == *"+" {
            return Err(format_err!("Missing common label."));
        }
        let mut parts = value.split('+');
        let label = parts
            .next()
            .filter(""")]),
    ("q-rel-add", "C13", [(EN, CHK, CHK.replace("offset.checked_add(prev_n).unwrap_or(0)", "offset + prev_n"))]),
    ("q-fix-add", "C13", [(EN, FIX, FIX.replace("offset.checked_add(self.prev_n).unwrap_or(0)", "offset + self.prev_n"))]),
    ("q-rel-level", "C13", [(EN, CHK, CHK.replace("n_common < 1", "n_common < 0"))]),
    ("q-fix-level", "C13", [(EN, FIX, FIX.replace("n_common < 1", "n_common < 0"))]),
    ("q-miss", "C13", [(CX, MISS, MISS.replace('.ok_or_else(|| format_err!("Missing ancestor feature."))?', ".unwrap()"))]),
    ("q-value", "C13", [(CX, FEAT, FEAT.replace('.ok_or_else(|| format_err!("Ancestor feature missing value."))?', '.expect("value")'))]),

    ("q-ptb-slice", "C13", [(PT, PTB, """                    if let Some(idx) = label.find('-') {
                        Ok((&label[..idx], None, Some(&label[idx + 2..])))
                    } else {
                        Ok((label, None, None))
                    }""")]),
    ("q-ptb-edge", "C13", [(PT, """                    let edge = parts.next().filter(|s| s != &"--");
                    let mut""", """                    let edge = Some(parts.next().unwrap()).filter(|s| s != &"--");
                    let mut""")]),
    ("q-decode-slice", "C13", [(EN, RF, RF.replace("split_at(idx)", "split_at(idx + 1)").replace("rfind('_')", "rfind(\"_\").map(|i| i + 1)"))]),
    ("q-pest-nt", "C13", [(PE, "nonterminal = { open ~ node_label ~", "nonterminal = { open ~ node_label? ~")]),
    ("q-pest-pre", "C13", [(PE, "node_label ~ terminal ~ close", "node_label ~ terminal* ~ close")]),
    ("q-pest-eoi", "C13", [(PE, "tree = _{SOI ~ node ~ EOI}", "tree = _{SOI ~ node ~ EOI?}")]),

    ("q-ok-match", None, [(NG, NUM, """    match field {
        None => Err(format_err!("Line missing field.")),
        Some(f) => match f.parse::<usize>() {
            Ok(n) => Ok(n),
            Err(e) => Err(format_err!("Can't parse value for numerical field: {}", e)),
        },
    }""")]),
    ("q-ok-checked-index", None, [(NG, LAB, """        let fields = parts.by_ref().take(4).collect::<Vec<_>>();
        if fields.len() < 4 {
            return Err(format_err!("Line missing field."));
        }
        let (form, lemma, pos, morph) = (fields[0], fields[1], fields[2], fields[3]);""")]),
    ("q-ok-is-some", None, [(NG, STR, """    if field.is_none() {
        return Err(format_err!("Line missing field."));
    }
    Ok(field.unwrap())""")]),
    ("q-ok-contains", None, [(NG, SELF, """        if !self.nt_indices.contains_key(&self_id) {
            return Err(format_err!("Nonterminal without children."));
        }
        let self_idx = self.nt_indices[&self_id];""")]),
    ("q-ok-zero-match", None, [(EN, OFF0, """        match offset {
            0 => return Err(format_err!("Number of common ancestors has to be positive.")),
            _ => {}
        }
""")]),
    ("q-ok-zero-lt", None, [(EN, OFF0, OFF0.replace("offset == 0", "offset < 1"))]),
    ("q-ok-level-pos", None, [(EN, CHK, CHK.replace("n_common < 1", "n_common <= 0"))]),
    ("q-ok-level-match", None, [(EN, """                        let n_common = offset.checked_add(prev_n).unwrap_or(0);
                        if n_common < 1 {""", """                        let n_common = match offset.checked_add(prev_n) {
                            Some(n) => n,
                            None => 0,
                        };
                        if !(n_common >= 1) {""")]),
    ("q-ok-rel-match", None, [(EN, """        if let Some(offset) = parts.next() {
            let offset = offset.parse::<isize>()?;
            Ok(RelativeAncestor::new(offset, label))
        } else {
            Ok(RelativeAncestor::Root(label.to_owned()))
        }""", """        match parts.next().map(|o| o.parse::<isize>()) {
            Some(Ok(offset)) => Ok(RelativeAncestor::new(offset, label)),
            Some(Err(e)) => Err(e.into()),
            None => Ok(RelativeAncestor::Root(label.to_owned())),
        }""")]),
    ("q-ok-strip", None, [(NG, "        let self_id = read_required_numerical_field(parts.next().map(|part| &part[1..]))?;",
                           "        let self_id = read_required_numerical_field(parts.next().map(|part| part.trim_start_matches('#')))?;")]),
    ("q-ok-slice-local", None, [(NG, "        let self_id = read_required_numerical_field(parts.next().map(|part| &part[1..]))?;",
                           """        let first = read_required_string_field(parts.next())?;
        let self_id = read_required_numerical_field(Some(&first[1..]))?;""")]),
    ("q-ok-ptb-split", None, [(PT, PTB, """                    let annotation = label.find('-');
                    match annotation {
                        Some(idx) => {
                            let (tag, rest) = label.split_at(idx);
                            Ok((tag, None, Some(rest)))
                        }
                        None => Ok((label, None, None)),
                    }""")]),
    ("q-ok-sec-match", None, [(NG, SEC, """            let source = match self.nt_indices.get(&source) {
                Some(idx) => *idx,
                None => {
                    return Err(format_err!(
                        "Secondary edge from undefined nonterminal: {}",
                        source
                    ))
                }
            };""")]),
    ("q-ok-decode-chain", None, [(EN, """                    if prev.is_none() || n_common > prev_n {
                        graph.add_edge(cur, term_idx, Edge::new_primary::<String>(None));
                    } else {
                        graph.add_edge(prev.unwrap(), term_idx, Edge::new_primary::<String>(None));
                    }""", """                    let attach_to = match prev {
                        Some(p) if n_common <= prev_n => p,
                        _ => cur,
                    };
                    graph.add_edge(attach_to, term_idx, Edge::new_primary::<String>(None));""")]),
    ("q-ok-pest", None, [(PE, "preterminal = { open ~ node_label ~ terminal ~ close }", "preterminal = { \"(\" ~ node_label ~ terminal ~ \")\" }")]),
]
