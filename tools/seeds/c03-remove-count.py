PROPERTY = "C03"
NEEDS = "removing the only word of a phrase"
BREAKS = "a refused removal of a word has already lowered the number of words"
EDITS = [("lumberjack/src/tree.rs", """        if self.siblings(terminal).count() == 0 {
            return Err(format_err!("Last terminal of a branch."));
        }
        let node = self.graph.remove_node(terminal).unwrap();
        self.n_terminals -= 1;
""", """        self.n_terminals -= 1;
        if self.siblings(terminal).count() == 0 {
            return Err(format_err!("Last terminal of a branch."));
        }
        let node = self.graph.remove_node(terminal).unwrap();
""")]
DEMO = """
use lumberjack::io::PTBFormat;
fn main() {
    let mut tree = PTBFormat::Simple.string_to_tree("(R (X (A a)) (B b))").unwrap();
    let a = tree.terminals().find(|t| tree[*t].terminal().unwrap().form() == "a").unwrap();
    assert!(tree.remove_node(a).is_err());
    assert_eq!(tree.n_terminals(), 2);
}
"""
