PROPERTY = "C20"
NEEDS = "a value exactly as long as its column with the margin"
BREAKS = "no blank follows a value of one particular length"
EDITS = [("lumberjack/src/io/negra.rs", "        if len >= to + 8 {", "        if len > to + 8 {")]
DEMO = """
use lumberjack::io::{NegraWriter, WriteTree};
use lumberjack::{Tree};
fn main() {
    for n in 1..80 {
        let mut tree = Tree::new("f".repeat(n), "T");
        let root = tree.root();
        tree.insert_unary_above(root, "R");
        let mut out = Vec::new();
        NegraWriter::new(&mut out).write_tree(&tree).unwrap();
        let out = String::from_utf8(out).unwrap();
        let line = out.lines().nth(1).unwrap();
        assert_eq!(line.split_whitespace().count(), 6, "{}", line);
    }
}
"""
