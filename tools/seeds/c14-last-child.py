PROPERTY = "C14"
NEEDS = "moving a phrase that is the only child of its parent"
BREAKS = "a phrase that is an only child can be moved away, leaving its parent without children"
EDITS = [("lumberjack/src/tree.rs", """        } else if self.siblings(child).count() == 0 && parent != new_parent {""", """        } else if self[child].is_terminal()
            && self.siblings(child).count() == 0
            && parent != new_parent
        {""")]
DEMO = """
use lumberjack::io::PTBFormat;
fn main() {
    let mut tree = PTBFormat::Simple.string_to_tree("(R (S (X (A a) (B b))) (C c))").unwrap();
    let x = tree.nonterminals().find(|n| tree[*n].label() == "X").unwrap();
    let (_, edge) = tree.parent(x).unwrap();
    let root = tree.root();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tree.reattach_node(root, edge).is_err()));
    assert_eq!(res.ok(), Some(true));
}
"""
