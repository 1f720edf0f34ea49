PROPERTY = "C02"
NEEDS = "moving a word out of its phrase and back"
BREAKS = "recomputing the spans adds to the count of discontinuous nodes instead of starting over"
EDITS = [("lumberjack/src/tree.rs", """        self.num_discontinuous = 0;
        while let""", """        while let""")]
DEMO = """
use lumberjack::io::PTBFormat;
fn main() {
    let mut tree = PTBFormat::Simple.string_to_tree("(R (X (A a) (B b)) (C c) (D d))").unwrap();
    let b = tree.terminals().find(|t| tree[*t].terminal().unwrap().form() == "b").unwrap();
    tree.move_terminal(b, 3);
    assert!(!tree.is_projective());
    tree.move_terminal(b, 1);
    assert!(tree.is_projective());
}
"""
