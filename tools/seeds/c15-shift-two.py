PROPERTY = "C15"
NEEDS = "a word inserted with more than two words after it"
BREAKS = "inserting a word leaves two others at the same position"
EDITS = [("lumberjack/src/tree.rs", "            if pos >= index {", "            if pos >= index && pos <= index + 2 {")]
DEMO = """
use lumberjack::io::PTBFormat;
use lumberjack::Terminal;
fn main() {
    let mut tree = PTBFormat::Simple.string_to_tree("(R (A a) (B b) (C c) (D d) (E e) (F f))").unwrap();
    let root = tree.root();
    tree.insert_terminal(root, Terminal::new("x", "X", 1));
    let mut at = tree.terminals().map(|t| tree[t].span().start).collect::<Vec<_>>();
    at.sort();
    assert_eq!(at, (0..7).collect::<Vec<_>>());
}
"""
