PROPERTY = "C07"
NEEDS = "words inserted or moved so that the order of creation is not that of the sentence"
BREAKS = "runs of words are grouped in the order in which they were attached"
EDITS = [("lumberjack/src/tree_modification.rs", """                children.sort_by(|c1, c2| self[c1.0].span().cmp(self[c2.0].span()));
                let mut children""", """                // edges are listed latest first
                children.reverse();
                let mut children""")]
DEMO = """
use lumberjack::io::PTBFormat;
use lumberjack::{Terminal, TreeOps};
fn main() {
    let mut tree = PTBFormat::Simple.string_to_tree("(R (T a) (T b) (T c))").unwrap();
    let root = tree.root();
    tree.insert_terminal(root, Terminal::new("x", "T", 1));
    tree.insert_intermediate(|_, _| Some("I".to_string())).unwrap();
    assert_eq!(PTBFormat::Simple.tree_to_string(&tree).unwrap(), "(R (I (T a) (T x) (T b) (T c)))");
}
"""
