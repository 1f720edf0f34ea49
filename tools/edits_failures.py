TR, TM, NG, EN, PT, CX = ["lumberjack/src/" + x for x in ("tree.rs", "tree_modification.rs", "io/negra.rs", "io/encode.rs", "io/ptb.rs", "io/conllx.rs")]
MN = "lumberjack-utils/src/bin/lumberjack-conversion.rs"
LINE = """            let line = match line {
                Ok(line) => line,
                Err(e) => return Some(Err(e.into())),
            };"""
PL = """                if let Err(e) = builder.process_line(line) {
                    return Some(Err(e));
                }"""
PTL = """                let line = match line {
                    Ok(line) => line,
                    Err(err) => return Some(Err(err.into())),
                };
                if line.starts_with('%') {"""
PTM = """                let line = match line {
                    Ok(line) => line,
                    Err(err) => return Some(Err(err.into())),
                };
                if (line"""
HDR = """                match Builder::from_header(line) {
                    Ok(builder) => cur = Some(builder),
                    Err(e) => return Some(Err(e)),
                };"""
NUM = """    if let Some(parse) = field.map(str::parse::<usize>) {
        parse.map_err(|e| format_err!("Can't parse value for numerical field: {}", e))
    } else {
        Err(format_err!("Line missing field."))
    }"""
STR = """    field.ok_or_else(|| format_err!("Line missing field."))"""
PARENT = """        let parent_id = read_required_numerical_field(parts.next())?;
        // unl"""
SECID = """                let id = read_required_numerical_field(parts.next())?;
                return Ok(Some((edge, id)));"""
EOS = """        writeln!(self.writer, "#EOS {}\\n", sentence_id)?;

        Ok(())"""
ABS = """                s => {
                    let rel_ancestor = AbsoluteAncestor::try_from(s)?;
                    Some(rel_ancestor)
                }"""
OFF = """            let offset = offset.parse::<isize>()?;
            Ok(RelativeAncestor::new(offset, label))"""
AOFF = """            .ok_or_else(|| format_err!("Missing offset."))?
            .parse::<usize>()?;"""
TOK = """                .map(|s| s.or_exit("Can't read sentence", 1))
                .map(|s| TryFromConllx::try_from_conllx_with_absolute_encoding(&s)),"""
TREE = """        let mut tree = tree.or_exit("Could not read tree.", 1);"""
WR = """        writer
            .write_tree(&tree)
            .or_exit("Can't write to output.", 1)"""
DUM = """            tree.remove_dummy_nodes()
                .or_exit("Can't remove dummy nopdes.", 1);"""
REA = """                        self.reattach_node(insert, edge)?;"""
RM = """                self.remove_node(nt)?;"""
MISS = """                .ok_or_else(|| format_err!("Missing ancestor feature."))?
                .as_ref()
                .map(String::as_str)
                .ok_or_else(|| format_err!("Ancestor feature missing value."))?;
            let terminal = Terminal::new(token.form(), token.pos().unwrap_or("_"), idx);
            terminals.push(terminal);
            let mut parts = ancestor.split('~');
            let ancestor = parts
                .next()
                .ok_or_else(|| format_err!("Invalid ancestor part."))?;
            let unary_chain = parts
                .next()
                .filter(|s| !s.is_empty())
                .map(ToOwned::to_owned);

            let ancestor = match ancestor {
                "NONE" => None,
                s => {
                    let rel_ancestor = Abs"""
POSS = """                .or_exit("Can't read POS sentence", 1);
            tree"""
EDITS = [
 ("f-line-skip", "C04", [(NG, LINE, LINE.replace("return Some(Err(e.into()))", "{ eprintln!(\"{}\", e); continue }"))]),
 ("f-line-eof", "C04", [(NG, LINE, LINE.replace("return Some(Err(e.into()))", "{ let _ = e; break }"))]),
 ("f-line-none", "C04", [(NG, LINE, LINE.replace("Err(e) => return Some(Err(e.into()))", "Err(_) => return None"))]),
 ("f-process-ignored", "C04", [(NG, PL, "                if builder.process_line(line).is_err() {\n                    continue;\n                }")]),
 ("f-process-ok", "C04", [(NG, PL, "                builder.process_line(line).ok();")]),
 ("f-process-unused", "C04", [(NG, PL, "                let _ = builder.process_line(line);")]),
 ("f-process-drop", "C04", [(NG, PL, "                drop(builder.process_line(line));")]),
 ("f-header-skip", "C04", [(NG, HDR, "                cur = Builder::from_header(line).ok();")]),
 ("f-num-default", "C04", [(NG, NUM, NUM.replace("parse.map_err(|e| format_err!(\"Can't parse value for numerical field: {}\", e))", "Ok(parse.unwrap_or(0))"))]),
 ("f-parent-default", "C04", [(NG, PARENT, PARENT.replace("read_required_numerical_field(parts.next())?", "read_required_numerical_field(parts.next()).unwrap_or(0)"))]),
 ("f-parent-or", "C04", [(NG, PARENT, PARENT.replace("read_required_numerical_field(parts.next())?", "read_required_numerical_field(parts.next()).or_else(|_| Ok::<usize, Error>(0))?"))]),
 ("f-str-default", "C04", [(NG, STR, "    Ok(field.unwrap_or(\"--\"))")]),
 ("f-sec-skip", "C04", [(NG, SECID, "                if let Ok(id) = read_required_numerical_field(parts.next()) {\n                    return Ok(Some((edge, id)));\n                }")]),
 ("f-sec-map", "C04", [(NG, SECID, "                return Ok(read_required_numerical_field(parts.next()).map(|id| (edge, id)).ok());")]),
 ("f-eos-unused", "C04", [(NG, EOS, EOS.replace("writeln!(self.writer, \"#EOS {}\\n\", sentence_id)?", "let _ = writeln!(self.writer, \"#EOS {}\\n\", sentence_id)"))]),
 ("f-eos-okd", "C04", [(NG, EOS, EOS.replace("writeln!(self.writer, \"#EOS {}\\n\", sentence_id)?", "writeln!(self.writer, \"#EOS {}\\n\", sentence_id).unwrap_or_default()"))]),
 ("f-ptb-skip", "C04", [(PT, PTL, PTL.replace("return Some(Err(err.into()))", "{ eprintln!(\"{}\", err); continue }"))]),
 ("f-ptb-multi-break", "C04", [(PT, PTM, PTM.replace("Err(err) => return Some(Err(err.into()))", "Err(_) => break"))]),
 ("f-ptb-whilelet", "C04", [(PT, PTL, PTL.replace("""                let line = match line {
                    Ok(line) => line,
                    Err(err) => return Some(Err(err.into())),
                };
""", "")), (PT, "            while let Some(line) = self.inner.next() {\n                if line.starts_with('%') {", "            while let Some(Ok(line)) = self.inner.next() {\n                if line.starts_with('%') {")]),
 ("f-abs-ok", "C04", [(CX, ABS, "                s => AbsoluteAncestor::try_from(s).ok(),")]),
 ("f-rel-offset", "C04", [(EN, OFF, OFF.replace("?;", ".unwrap_or(0);"))]),
 ("f-abs-offset-default", "C04", [(EN, AOFF, AOFF.replace(".ok_or_else(|| format_err!(\"Missing offset.\"))?", ".unwrap_or(\"1\")"))]),
 ("f-abs-miss", "C04", [(CX, MISS, MISS.replace(""".ok_or_else(|| format_err!("Missing ancestor feature."))?
                .as_ref()
                .map(String::as_str)
                .ok_or_else(|| format_err!("Ancestor feature missing value."))?""", """.ok_or_else(|| format_err!("Missing ancestor feature."))?
                .as_ref()
                .map(String::as_str)
                .unwrap_or("NONE")"""))]),
 ("f-abs-nofeat", "C04", [(CX, MISS, MISS.replace(""".ok_or_else(|| format_err!("Missing ancestor feature."))?
                .as_ref()
                .map(String::as_str)
                .ok_or_else(|| format_err!("Ancestor feature missing value."))?""", """.and_then(|v| v.as_ref())
                .map(String::as_str)
                .unwrap_or("NONE")"""))]),
 ("f-main-skiptree", "C04", [(MN, TREE, "        let mut tree = match tree {\n            Ok(tree) => tree,\n            Err(e) => {\n                eprintln!(\"{}\", e);\n                continue;\n            }\n        };")]),
 ("f-main-break", "C04", [(MN, TREE, "        let mut tree = match tree {\n            Ok(tree) => tree,\n            Err(e) => {\n                eprintln!(\"{}\", e);\n                break;\n            }\n        };")]),
 ("f-main-exit0", "C04", [(MN, TREE, TREE.replace("1)", "0)"))]),
 ("f-main-filter", "C04", [(MN, TOK, TOK.replace(".map(|s| s.or_exit(\"Can't read sentence\", 1))", ".filter_map(Result::ok)"))]),
 ("f-main-flatten", "C04", [(MN, TOK, TOK.replace(".map(|s| s.or_exit(\"Can't read sentence\", 1))", ".flatten()"))]),
 ("f-main-filtertree", "C04", [(MN, "    for tree in get_reader(in_format, reader, multiline) {", "    for tree in get_reader(in_format, reader, multiline).filter(|t| t.is_ok()) {")]),
 ("f-main-write", "C04", [(MN, WR, "        if let Err(e) = writer.write_tree(&tree) {\n            eprintln!(\"{}\", e);\n        }")]),
 ("f-main-write-unused", "C04", [(MN, WR, "        let _ = writer.write_tree(&tree);")]),
 ("f-main-silent-exit", "C04", [(MN, WR, "        if writer.write_tree(&tree).is_err() {\n            std::process::exit(1);\n        }")]),
 ("f-main-exit-status", "C04", [(MN, WR, "        if let Err(e) = writer.write_tree(&tree) {\n            eprintln!(\"{}\", e);\n            std::process::exit(0);\n        }")]),
 ("f-main-return", "C04", [(MN, WR, "        if let Err(e) = writer.write_tree(&tree) {\n            eprintln!(\"{}\", e);\n            return;\n        }")]),
 ("f-main-dummy", "C04", [(MN, DUM, "            tree.remove_dummy_nodes().unwrap_or_default();")]),
 ("f-main-pos", "C04", [(MN, POSS, POSS.replace(".or_exit(\"Can't read POS sentence\", 1);", ".unwrap_or_default();"))]),
 ("f-main-buffered", "C04", [(MN, "    let mut writer = get_writer(out_formatter, writer);", "    let mut writer = get_writer(out_formatter, std::io::BufWriter::new(writer));")]),
 ("f-insert-ignored", "C04", [(TM, REA, "                        let _ = self.reattach_node(insert, edge);")]),
 ("f-filter-ignored", "C04", [(TM, RM, "                self.remove_node(nt).ok();")]),
 ("f-filter-continue", "C04", [(TM, RM, "                if self.remove_node(nt).is_err() {\n                    continue;\n                }")]),
 ("f-partial-write", "C04", [(PT, "        writeln!(self.writer, \"{}\", s)?;", "        self.writer.write(s.as_bytes())?;\n        self.writer.write_all(b\"\\n\")?;")]),
 ("r-f-num-and-then", None, [(NG, NUM, """    let field = read_required_string_field(field)?;
    field
        .parse()
        .map_err(|e| format_err!("Can't parse value for numerical field: {}", e))""")]),
 ("r-f-num-match", None, [(NG, NUM, """    match field {
        None => Err(format_err!("Line missing field.")),
        Some(field) => match field.parse::<usize>() {
            Ok(n) => Ok(n),
            Err(e) => Err(format_err!("Can't parse value for numerical field: {}", e)),
        },
    }""")]),
 ("r-f-line-question", None, [(PT, PTL, PTL.replace("""                let line = match line {
                    Ok(line) => line,
                    Err(err) => return Some(Err(err.into())),
                };""", """                if let Err(err) = line {
                    return Some(Err(err.into()));
                }
                let line = line.unwrap();"""))]),
 ("r-f-line-maperr", None, [(NG, PL, "                match builder.process_line(line) {\n                    Ok(()) => (),\n                    err => return Some(err.map(|_| unreachable!())),\n                }")]),
 ("r-f-header-q", None, [(NG, HDR, """                let builder = Builder::from_header(line);
                if builder.is_err() {
                    return builder.err().map(Err);
                }
                cur = builder.ok();""")]),
 ("r-f-eos-return", None, [(NG, EOS, "        writeln!(self.writer, \"#EOS {}\\n\", sentence_id).map_err(Error::from)")]),
 ("r-f-abs-transpose", None, [(CX, ABS, "                s => Some(AbsoluteAncestor::try_from(s)?),")]),
 ("r-f-main-match", None, [(MN, TREE, "        let mut tree = match tree {\n            Ok(tree) => tree,\n            Err(e) => {\n                eprintln!(\"Could not read tree: {}\", e);\n                std::process::exit(1)\n            }\n        };")]),
 ("r-f-main-write", None, [(MN, WR, "        if let Err(e) = writer.write_tree(&tree) {\n            eprintln!(\"Can't write to output: {}\", e);\n            std::process::exit(1);\n        }")]),
 ("r-f-insert-match", None, [(TM, REA, "                        match self.reattach_node(insert, edge) {\n                            Ok(_) => (),\n                            Err(e) => return Err(e),\n                        }")]),
 ("r-f-filter-tryfor", None, [(TM, """        for nt in nts {
            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
        }
        Ok(())""", """        nts.into_iter().try_for_each(|nt| {
            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
            Ok(())
        })""")]),
 ("r-f-fmt-ignore", None, [(PT, "representation.push_str(edge.unwrap_or(\"--\"));", "use std::fmt::Write as _;\n                let _ = write!(representation, \"{}\", edge.unwrap_or(\"--\"));")]),
]
