PROPERTY = "C01"
NEEDS = "a tree whose gap lies after the first words, annotated in place with relative tags"
BREAKS = "annotate_relative leaves tags on the first words of a non-projective tree before returning the error"
EDITS = [("lumberjack/src/io/encode.rs", """    fn annotate_relative(&mut self) -> Result<(), Error> {
        if !self.is_projective() {
            return Err(format_err!("Can't encode nonprojective tree."));
        }
""", """    fn annotate_relative(&mut self) -> Result<(), Error> {
        if self[self.root()].span().skips().is_some() {
            return Err(format_err!("Can't encode nonprojective tree."));
        }
""")]
DEMO = """
use lumberjack::io::{Encode, PTBFormat};
fn main() {
    let mut tree = PTBFormat::Simple.string_to_tree("(R (A a) (X (B b) (C c)) (D d))").unwrap();
    let c = tree.terminals().find(|t| tree[*t].terminal().unwrap().form() == "c").unwrap();
    tree.move_terminal(c, 3);
    assert!(!tree.is_projective());
    assert!(tree.annotate_relative().is_err());
    for t in tree.terminals().collect::<Vec<_>>() {
        let f = tree[t].features().map(|f| f.inner().len()).unwrap_or(0);
        assert_eq!(f, 0, "refused annotation touched the tree");
    }
}
"""
