TR = "lumberjack/src/tree.rs"; NO="lumberjack/src/node.rs"; SP="lumberjack/src/span.rs"; TM="lumberjack/src/tree_modification.rs"; NG="lumberjack/src/io/negra.rs"; EN="lumberjack/src/io/encode.rs"
MINS = ".and_then(|s| s.iter().min())"
COV = """                for skip in skips {
                    if other.contains(*skip) {
                        return false;
                    }
                }
            }
            true"""
EDITS = [
 ("d-next", "C05", [(TM, MINS, ".and_then(|s| s.iter().next())")]),
 ("d-nts-hash", "C05", [(NG, "        for nt_idx in nts.into_iter() {", "        let nts = nts.into_iter().collect::<std::collections::HashSet<_>>();\n        for nt_idx in nts.into_iter() {")]),
 ("d-nts-keys", "C05", [(NG, "        for nt_idx in nts.into_iter() {", "        let nts: Vec<NodeIndex> = nt_id_map.keys().cloned().filter(|n| *n != tree.root()).collect();\n        for nt_idx in nts.into_iter() {")]),
 ("d-time", "C05", [(NG, "            self.counter += 1;\n            (self.counter - 1).to_string()", "            self.counter += 1;\n            let _ = std::time::SystemTime::now();\n            (self.counter - 1).to_string()")]),
 ("d-env", "C05", [(NG, "            self.counter += 1;\n            (self.counter - 1).to_string()", "            self.counter += 1;\n            std::env::var(\"SENT\").unwrap_or_else(|_| (self.counter - 1).to_string())")]),
 ("d-static", "C05", [(NG, "            self.counter += 1;\n            (self.counter - 1).to_string()", "            static C: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n            self.counter += 1;\n            C.fetch_add(1, std::sync::atomic::Ordering::SeqCst).to_string()")]),
 ("d-ids-map", "C05", [(TR, "        let mut mapping = HashMap::new();\n        self.map_climber_path(|tree, nt, t| {\n            if match_fn(tree, nt) {\n                let n = mapping.len();\n                let id = *mapping.entry(nt).or_insert(n);",
   "        let nts = self.nonterminals().collect::<std::collections::HashSet<_>>();\n        let mapping = nts.into_iter().enumerate().map(|(i, n)| (n, i)).collect::<HashMap<_, _>>();\n        self.map_climber_path(|tree, nt, t| {\n            if match_fn(tree, nt) {\n                let id = mapping[&nt];")]),
 ("d-skips-vec", "C05", [(SP, "    /// Get the number of indices covered.", "    /// Gaps.\n    pub fn gaps(&self) -> Vec<usize> {\n        self.skips.iter().flat_map(|s| s.iter().cloned()).collect()\n    }\n\n    /// Get the number of indices covered.")]),
 ("d-skips-opaque", "C05", [(SP, "    /// Get the number of indices covered.", "    /// Gaps.\n    pub fn gaps<'a>(&'a self) -> impl Iterator<Item = usize> + 'a {\n        self.skips.iter().flat_map(|s| s.iter().cloned())\n    }\n\n    /// Get the number of indices covered.")]),
 ("d-loop-last", "C05", [(TM, MINS, ".and_then(|s| { let mut f = None; for i in s { f = Some(i); } f })")]),
 ("d-debug", "C05", [(TM, '.ok_or_else(|| format_err!("Terminal without parent:\\n{}", self[terminal]))?;\n\n            let label', '.ok_or_else(|| format_err!("Terminal without parent:\\n{:?}", self))?;\n\n            let label')]),
 ("d-sec-hash", "C05", [(NG, "        for (source, label, target) in self.sec_edges {", "        for (source, label, target) in self.sec_edges.into_iter().collect::<std::collections::HashSet<_>>() {")]),
 ("d-foreach", "C05", [(NG, "        for (source, label, target) in self.sec_edges {", "        let mut q = Vec::new();\n        self.nt_indices.values().for_each(|v| q.push(*v));\n        if q.len() > 100000 { return Err(format_err!(\"{:?}\", q)); }\n        for (source, label, target) in self.sec_edges {")]),
 ("d-project-ids-fold", "C05", [(TM, MINS, ".and_then(|s| s.iter().fold(None, |_, x| Some(x)))")]),
 ("d-generic", "C05", [(SP, "    /// Get the number of indices covered.", "    /// G.\n    pub fn gap(&self) -> Option<usize> {\n        fn pick(i: impl IntoIterator<Item = usize>) -> Option<usize> { i.into_iter().last() }\n        self.skips.as_ref().and_then(|s| pick(s.iter().cloned()))\n    }\n\n    /// Get the number of indices covered.")]),
 ("d-sort-ties", "C05", [(NG, "        for nt_idx in nts.into_iter() {", "        let mut nts: Vec<NodeIndex> = nt_id_map.keys().cloned().filter(|n| *n != tree.root()).collect();\n        nts.sort_by_key(|n| tree[*n].span().start);\n        for nt_idx in nts.into_iter() {")]),
 ("r-d-min-sortby", None, [(TM, MINS, ".and_then(|s| { let mut v = s.iter().collect::<Vec<_>>(); v.sort_by(|a, b| a.cmp(b)); v.into_iter().next() })")]),
 ("r-d-min-sortbykey", None, [(TM, MINS, ".and_then(|s| { let mut v = s.iter().collect::<Vec<_>>(); v.sort_by_key(|a| **a); v.into_iter().next() })")]),
 ("r-d-min-rev", None, [(TM, MINS, ".and_then(|s| { let mut v = s.iter().collect::<Vec<_>>(); v.sort_unstable_by(|a, b| b.cmp(a)); v.pop() })")]),
 # behaviour-preserving
 ("r-d-cov-any", None, [(SP, COV, "                return !skips.iter().any(|skip| other.contains(*skip));\n            }\n            true")]),
 ("r-d-cov-flag", None, [(SP, COV, "                let mut ok = true;\n                for skip in skips {\n                    if other.contains(*skip) {\n                        ok = false;\n                    }\n                }\n                return ok;\n            }\n            true")]),
 ("r-d-cov-helper", None, [(SP, COV, "                return none_in(skips.iter().cloned(), other);\n            }\n            true"), (SP, "impl Ord for Span {", "fn none_in(it: impl IntoIterator<Item = usize>, other: &Span) -> bool {\n    for i in it {\n        if other.contains(i) {\n            return false;\n        }\n    }\n    true\n}\n\nimpl Ord for Span {")]),
 ("r-d-min-loop", None, [(TM, MINS, ".and_then(|s| { let mut v = s.iter().collect::<Vec<_>>(); v.sort(); v.into_iter().next() })")]),
 ("r-d-min-btree", None, [(TM, MINS, ".and_then(|s| { let v = s.iter().collect::<std::collections::BTreeSet<_>>(); v.into_iter().next() })")]),
 ("r-d-min-fold", None, [(TM, MINS, ".and_then(|s| s.iter().fold(None, |a: Option<&usize>, x| match a { Some(y) => Some(y.min(x)), None => Some(x) }))")]),
 ("r-d-n-count", None, [(SP, "self.end - self.start - skips.len()", "self.end - self.start - skips.iter().count()")]),
 ("r-d-sum", None, [(SP, "self.end - self.start - skips.len()", "{ let mut n = 0; for _ in skips { n += 1; } self.end - self.start - n }")]),
 ("r-d-merge-extend", None, [(SP, "        let mut skips = HashSet::new();\n        for i in start..end {\n            if !self.contains(i) && !span.contains(i) {\n                skips.insert(i);\n            }\n        }", "        let skips = (start..end)\n            .filter(|i| !self.contains(*i) && !span.contains(*i))\n            .collect::<HashSet<_>>();")]),
]
