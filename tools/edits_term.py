TM = "lumberjack/src/tree_modification.rs"
TR = "lumberjack/src/tree.rs"
UT = "lumberjack/src/util.rs"
SP = "lumberjack/src/span.rs"
NE = "lumberjack/src/io/negra.rs"
PT = "lumberjack/src/io/ptb.rs"
EN = "lumberjack/src/io/encode.rs"
ND = "lumberjack/src/node.rs"
NEXTDFS = """        while let Some(node) = self.dfs.next(GraphWrap(self.tree.graph())) {
            if self.tree[node].is_terminal() {
                return Some(node);
            } else {
                continue;
            }
        }
        None"""
FILT = """        for nt in nts {
            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
        }
        Ok(())"""
ANC = """        let mut climber = Climber::new(new_parent, self);
        while let Some(node) = climber.next(self) {
            new_ancestors.push(node);
        }"""
REAT = """                while self.siblings(terminal).count() == 0 {
                    match climber.next(self) {
                        Some(parent) if parent != self.root() && parent != attachment => {
                            self.remove_node(parent).unwrap();
                        }
                        // the terminal is the only material below the attachment point or root
                        _ => break,
                    }
                }"""
COVER = """        while let Some(node) = climber.next(self) {
            if new_ancestors.contains(&node) {
                break;
            }"""
PNT = """            let mut climber = Climber::new(terminal, self);
            while let Some(parent) = climber.next(self) {
                if match_fn(self, parent) {
                    indices[self[terminal].span().start] = parent;
                    break;
                }
            }"""
SKIPS = """        while skips.remove(&self.start) {
            self.start += 1;
        }"""
SKIPE = """        while skips.remove(&(self.end - 1)) {
            self.end -= 1;
        }"""
SPNEXT = """        while let Some(next) = self.range.next() {
            if let Some(skip) = self.skip {
                if skip.contains(&next) {
                    continue;
                }
            }
            return Some(next);
        }
        None"""
CL = """        if let Some((node, _)) = self.cur {
            self.cur = tree.parent(node);
            Some(node)
        } else {
            None
        }"""
QUEUE = """            if let Some((parent, _)) = tree.parent(node) {
                if tree.children(parent).all(|(n, _)| visit_map.is_visited(&n)) {
                    queue.push_front(parent);
                }
            }"""
ONODES = """    nodes.push(node);
    let mut children = tree.children(node).map(|(n, _)| n).collect::<Vec<_>>();
    tree.sort_indices(&mut children);
    for child in children {
        ordered_nodes(tree, child, nodes);
    }"""
APOS = """        for terminal in terminals {
            if let Some(pos) = pos_iter.next() {
                self[terminal].terminal_mut().unwrap().set_label(pos);
            } else {
                return Err(format_err!("Not enough POS tags were provided"));
            }
        }"""
NEGLINE = """            let line = match line {
                Ok(line) => line,
                Err(e) => return Some(Err(e.into())),
            };
            let line = line.trim();"""
EDITS = [
    # ---- breaking
    ("t-reattach-none", "C12", [(TM, "                        _ => break,\n", "                        Some(_) => break,\n                        None => {}\n")]),
    ("t-reattach-guard", "C12", [(TM, REAT, """                while self.siblings(terminal).count() == 0 {
                    if let Some(parent) = climber.next(self) {
                        if parent != self.root() && parent != attachment {
                            self.remove_node(parent).unwrap();
                        }
                    }
                }""")]),
    ("t-climber-stays", "C12", [(UT, CL, """        if let Some((node, _)) = self.cur {
            self.cur = tree.parent(node).or(self.cur);
            Some(node)
        } else {
            None
        }""")]),
    ("t-climber-noadvance", "C12", [(UT, CL, """        self.cur.map(|(node, _)| {
            tree.parent(node);
            node
        })""")]),
    ("t-spaniter-manual", "C12", [(SP, SPNEXT, """        while self.range.start < self.range.end {
            let next = self.range.start;
            if let Some(skip) = self.skip {
                if skip.contains(&next) {
                    continue;
                }
            }
            self.range.start += 1;
            return Some(next);
        }
        None""")]),
    ("t-spaniter-peek", "C12", [(SP, SPNEXT, """        let skip = self.skip;
        let next = self.range.clone().find(|n| skip.map_or(true, |s| !s.contains(n)));
        if next == Some(self.range.end) {
            self.range.next();
        }
        next""")]),
    ("t-negra-eof", "C12", [(NE, """        cur.map(|builder: Builder| {
            Err(format_err!(
                "Found end of input before #EOS {}",
                builder.sentence_id
            ))
        })""", """        Some(Err(match cur {
            Some(builder) => format_err!("Found end of input before #EOS {}", builder.sentence_id),
            None => format_err!("Found end of input"),
        }))""")]),
    ("t-ptb-eof", "C12", [(PT, """            if !buffer.is_empty() {
                return Some(Err(format_err!(
                    "Found end of input inside of tree: {}",
                    buffer
                )));
            }""", """            return Some(Err(format_err!(
                "Found end of input inside of tree: {}",
                buffer
            )));""")]),
    ("t-requeue", "C12", [(NE, QUEUE, """            if let Some((parent, _)) = tree.parent(node) {
                if tree.children(parent).all(|(n, _)| visit_map.is_visited(&n)) {
                    queue.push_front(parent);
                } else {
                    queue.push_back(node);
                }
            }""")]),
    ("t-skips-wrong", "C12", [(SP, SKIPE, """        while skips.contains(&(self.end - 1)) {
            if self.end - self.start > 1 {
                continue;
            }
            self.end -= 1;
        }""")]),
    ("t-ancestor-loop", "C12", [(TR, ANC, """        let mut cur = new_parent;
        while let Some((node, _)) = self.parent(cur) {
            if new_ancestors.contains(&node) {
                continue;
            }
            new_ancestors.push(node);
            cur = node;
        }""")]),
    ("t-filter-index", "C12", [(TM, FILT, """        let mut i = 0;
        while i < nts.len() {
            if match_fn(self, nts[i]) {
                continue;
            }
            self.remove_node(nts[i])?;
            i += 1;
        }
        Ok(())""")]),
    ("t-filter-fresh", "C12", [(TM, FILT, """        while let Some(&nt) = nts.iter().next() {
            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
        }
        Ok(())""")]),
    ("t-cover-restart", "C12", [(TR, COVER, """        while let Some(node) = climber.next(self) {
            if node == self.root {
                climber = Climber::new(child, self);
            }
            if new_ancestors.contains(&node) {
                break;
            }""")]),
    ("t-project-restart", "C12", [(TR, PNT, """            loop {
                let mut climber = Climber::new(terminal, self);
                if let Some(parent) = climber.next(self) {
                    if match_fn(self, parent) {
                        indices[self[terminal].span().start] = parent;
                        break;
                    }
                }
            }""")]),
    ("t-recursion-same", "C12", [(TR, "        ordered_nodes(tree, child, nodes);\n", "        if child != node {\n            ordered_nodes(tree, node, nodes);\n        }\n")]),
    ("t-display-self", "C12", [(ND, '            Node::NonTerminal(nt) => write!(f, "{}", nt.label),', '            Node::NonTerminal(nt) => if nt.label.is_empty() { write!(f, "{}", self) } else { write!(f, "{}", nt.label) },')]),
    ("t-pos-cycle", "C12", [(TM, APOS, """        let mut ts = terminals.iter().cycle();
        while let Some(&terminal) = ts.next() {
            match pos_iter.next() {
                Some(pos) => self[terminal].terminal_mut().unwrap().set_label(pos),
                None => continue,
            };
        }""")]),
    ("tp-dfs-move", None, [(TR, NEXTDFS, """        while let Some(node) = self.dfs.next(GraphWrap(self.tree.graph())) {
            if self.tree[node].is_terminal() {
                return Some(node);
            } else {
                self.dfs.move_to(node);
                continue;
            }
        }
        None""")]),
    ("t-get-common", "C12", [(EN, "    while let Some(parent) = climber.next(tree) {\n        let span = tree[parent].span();", "    let mut cur = terminal;\n    while let Some((parent, _)) = tree.parent(cur) {\n        if tree[parent].span().n_indices() > 1 {\n            cur = parent;\n        }\n        let _ = climber.next(tree);\n        let span = tree[parent].span();")]),
    ("t-collapse-new", "C12", [(TM, """            while let Some(node) = climber.next(self) {
                if self[node].span() == self[cur].span() {""", """            while let Some(node) = Climber::new(cur, self).next(self) {
                let _ = climber.next(self);
                if self[node].span() == self[cur].span() && node == self.root() {
                    continue;
                }
                if self[node].span() == self[cur].span() {""")]),
    ("t-chain-find", "C12", [(TM, """                for label in chain.split(delim) {
                    cur = self.insert_unary_above(cur, label);
                }""", """                let mut rest = chain.as_str();
                while let Some(at) = rest.find(delim) {
                    cur = self.insert_unary_above(cur, &rest[..at]);
                    rest = &rest[at + delim.len()..];
                }
                cur = self.insert_unary_above(cur, rest);""")]),
    ("t-project-root", "C12", [(TR, PNT, """            let mut climber = Climber::new(terminal, self);
            loop {
                let parent = climber.next(self).unwrap_or(self.root);
                if match_fn(self, parent) {
                    indices[self[terminal].span().start] = parent;
                    break;
                }
            }""")]),
    # ---- preserving
    ("tp-chain-char", None, [(TM, """                for label in chain.split(delim) {
                    cur = self.insert_unary_above(cur, label);
                }""", """                let mut labels = chain.split(delim);
                loop {
                    match labels.next() {
                        Some(label) => cur = self.insert_unary_above(cur, label),
                        None => break,
                    }
                }""")]),
    ("tp-reattach-loop", None, [(TM, REAT, """                loop {
                    if self.siblings(terminal).count() != 0 {
                        break;
                    }
                    let parent = match climber.next(self) {
                        Some(parent) => parent,
                        None => break,
                    };
                    if parent == self.root() || parent == attachment {
                        break;
                    }
                    self.remove_node(parent).unwrap();
                }""")]),
    ("tp-reattach-parent", None, [(TM, REAT, """                while self.siblings(terminal).count() == 0 {
                    match self.parent(terminal) {
                        Some((parent, _)) if parent != self.root() && parent != attachment => {
                            self.remove_node(parent).unwrap();
                        }
                        _ => break,
                    }
                }""")]),
    ("tp-climber-take", None, [(UT, CL, """        let (node, _) = self.cur.take()?;
        self.cur = tree.parent(node);
        Some(node)""")]),
    ("tp-climber-shared", None, [(UT, CL, "        self.next_with_edge(tree).map(|(node, _)| node)")]),
    ("tp-spaniter-find", None, [(SP, SPNEXT, """        let skip = self.skip;
        self.range.find(|n| skip.map_or(true, |s| !s.contains(n)))""")]),
    ("tp-spaniter-rec", None, [(SP, SPNEXT, """        let next = self.range.next()?;
        match self.skip {
            Some(skip) if skip.contains(&next) => self.next(),
            _ => Some(next),
        }""")]),
    ("tp-spaniter-manual", None, [(SP, SPNEXT, """        while self.range.start < self.range.end {
            let next = self.range.start;
            self.range.start += 1;
            if let Some(skip) = self.skip {
                if skip.contains(&next) {
                    continue;
                }
            }
            return Some(next);
        }
        None""")]),
    ("tp-skips-bound", None, [(SP, SKIPS, """        let mut start = self.start;
        while skips.contains(&start) {
            skips.remove(&start);
            start += 1;
        }
        self.start = start;""")]),
    ("tp-skips-loop", None, [(SP, SKIPE, """        loop {
            let last = self.end - 1;
            if !skips.remove(&last) {
                break;
            }
            self.end = last;
        }""")]),
    ("tp-ancestors-parent", None, [(TR, ANC, """        let mut cur = self.parent(new_parent);
        while let Some((node, _)) = cur {
            new_ancestors.push(node);
            cur = self.parent(node);
        }""")]),
    ("tp-ancestors-cur", None, [(TR, ANC, """        let mut cur = new_parent;
        while let Some((node, _)) = self.parent(cur) {
            new_ancestors.push(node);
            cur = node;
        }""")]),
    ("tp-ancestors-succ", None, [(TR, ANC, """        new_ancestors.extend(std::iter::successors(self.parent(new_parent), |(n, _)| self.parent(*n)).map(|(n, _)| n));""")]),
    ("tp-ancestors-reinit", None, [(TR, ANC, """        let mut climber = Climber::new(new_parent, self);
        while let Some(node) = climber.next(self) {
            new_ancestors.push(node);
            climber = Climber::new(node, self);
        }""")]),
    ("tp-ancestors-helper", None, [(TR, ANC, """        let mut climber = Climber::new(new_parent, self);
        while push_next(self, &mut climber, &mut new_ancestors) {}"""),
        (TR, "fn ordered_nodes(", """fn push_next(tree: &Tree, climber: &mut Climber, nodes: &mut Vec<NodeIndex>) -> bool {
    match climber.next(tree) {
        Some(node) => {
            nodes.push(node);
            true
        }
        None => false,
    }
}

fn ordered_nodes(""")]),
    ("tp-filter-index", None, [(TM, FILT, """        let mut i = 0;
        while i < nts.len() {
            let nt = nts[i];
            i += 1;
            if match_fn(self, nt) {
                continue;
            }
            self.remove_node(nt)?;
        }
        Ok(())""")]),
    ("tp-filter-pop", None, [(TM, FILT, """        let mut nts = nts;
        nts.reverse();
        while !nts.is_empty() {
            let nt = nts.pop().unwrap();
            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
        }
        Ok(())""")]),
    ("tp-filter-split", None, [(TM, FILT, """        let mut rest = &nts[..];
        while let Some((&nt, tail)) = rest.split_first() {
            rest = tail;
            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
        }
        Ok(())""")]),
    ("tp-filter-foreach", None, [(TM, FILT, """        nts.into_iter().try_for_each(|nt| {
            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
            Ok(())
        })""")]),
    ("tp-filter-slice", None, [(TM, FILT, """        let mut rest = &nts[..];
        while !rest.is_empty() {
            let nt = rest[0];
            rest = &rest[1..];
            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }
        }
        Ok(())""")]),
    ("tp-filter-range", None, [(TM, FILT, """        for i in 0.. {
            if i >= nts.len() {
                break;
            }
            if !match_fn(self, nts[i]) {
                self.remove_node(nts[i])?;
            }
        }
        Ok(())""")]),
    ("tp-onodes-stack", None, [(TR, ONODES, """    let mut stack = vec![node];
    while let Some(node) = stack.pop() {
        nodes.push(node);
        let mut children = tree.children(node).map(|(n, _)| n).collect::<Vec<_>>();
        tree.sort_indices(&mut children);
        children.reverse();
        stack.extend(children);
    }""")]),
    ("tp-onodes-foreach", None, [(TR, ONODES, """    nodes.push(node);
    let mut children = tree.children(node).map(|(n, _)| n).collect::<Vec<_>>();
    tree.sort_indices(&mut children);
    children.into_iter().for_each(|child| ordered_nodes(tree, child, nodes));""")]),
    ("tp-dfs-find", None, [(TR, NEXTDFS, """        loop {
            let node = self.dfs.next(GraphWrap(self.tree.graph()))?;
            if self.tree[node].is_terminal() {
                return Some(node);
            }
        }""")]),
    ("tp-pos-zip", None, [(TM, APOS, """        let mut ts = terminals.into_iter();
        while let Some(terminal) = ts.next() {
            let pos = pos_iter
                .next()
                .ok_or_else(|| format_err!("Not enough POS tags were provided"))?;
            self[terminal].terminal_mut().unwrap().set_label(pos);
        }""")]),
    ("tp-negra-lines", None, [(NE, "        while let Some(line) = self.inner.next() {\n" + NEGLINE, """        loop {
            let line = match self.inner.next() {
                Some(Ok(line)) => line,
                Some(Err(e)) => return Some(Err(e.into())),
                None => break,
            };
            let line = line.trim();""")]),
    ("tp-negra-transpose", None, [(NE, "        while let Some(line) = self.inner.next() {\n" + NEGLINE, """        loop {
            let line = match self.inner.next().transpose() {
                Ok(Some(line)) => line,
                Ok(None) => break,
                Err(e) => return Some(Err(e.into())),
            };
            let line = line.trim();""")]),
    ("tp-requeue-front", None, [(NE, QUEUE, """            let parent = tree.parent(node).map(|(parent, _)| parent);
            if let Some(parent) = parent.filter(|p| tree.children(*p).all(|(n, _)| visit_map.is_visited(&n))) {
                queue.push_front(parent);
            }""")]),
    ("tp-project-find", None, [(TR, PNT, """            let mut climber = Climber::new(terminal, self);
            let found = loop {
                match climber.next(self) {
                    Some(parent) if match_fn(self, parent) => break Some(parent),
                    Some(_) => continue,
                    None => break None,
                }
            };
            if let Some(parent) = found {
                indices[self[terminal].span().start] = parent;
            }""")]),
]
EDITS += [
    ("tp-pad-fill", None, [(NE, "fn pad(", "fn fill(s: &mut String, to: usize) {\n        while s.len() < to {\n            s.push(' ');\n        }\n    }\n\n    fn pad(")]),
]
