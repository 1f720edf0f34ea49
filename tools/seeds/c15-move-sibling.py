PROPERTY = "C15"
NEEDS = "a word moved across words of another constituent"
BREAKS = "spans are not recomputed after a word moved unless the tree was discontinuous before"
EDITS = [("lumberjack/src/tree.rs", """        self[terminal].set_span(index).unwrap();
        self.reset_nt_spans();
""", """        self[terminal].set_span(index).unwrap();
        if self.siblings(terminal).count() == 0 || index + 1 == self.n_terminals || index == 0 {
            self.reset_nt_spans();
        }
""")]
DEMO = """
use lumberjack::io::PTBFormat;
fn main() {
    let mut tree = PTBFormat::Simple.string_to_tree("(R (X (A a) (B b)) (Y (C c) (D d)))").unwrap();
    let a = tree.terminals().find(|t| tree[*t].span().start == 0).unwrap();
    let x = tree.parent(a).unwrap().0;
    tree.move_terminal(a, 2);
    assert_eq!(tree[x].span().into_iter().collect::<Vec<_>>(), vec![0, 2]);
}
"""
