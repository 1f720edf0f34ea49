PROPERTY = "C05"
NEEDS = "several nonterminals removed below the same node"
BREAKS = "filtering removes nonterminals in hash order, so the order in which children are listed changes between runs"
EDITS = [("lumberjack/src/tree_modification.rs", """            .filter(|nt| *nt != self.root())
            .collect::<Vec<_>>();
""", """            .filter(|nt| *nt != self.root())
            .collect::<std::collections::HashSet<_>>();
""")]
DEMO = """
use lumberjack::io::PTBFormat;
use lumberjack::TreeOps;
fn main() {
    let run = || {
        let mut tree = PTBFormat::Simple
            .string_to_tree("(R (A (T a) (T b)) (B (T c) (T d)) (C (T e) (T f)) (D (T g) (T h)) (E (T i) (T j)))")
            .unwrap();
        tree.filter_nonterminals(|_, _| false).unwrap();
        tree.children(tree.root()).map(|(c, _)| tree[c].terminal().unwrap().form().to_string()).collect::<Vec<_>>()
    };
    let first = run();
    for _ in 0..40 {
        assert_eq!(run(), first);
    }
}
"""
