PROPERTY = "C06"
NEEDS = "a parent with a secondary edge to a node elsewhere"
BREAKS = "siblings include the targets of the parent's secondary edges"
EDITS = [("lumberjack/src/tree.rs", """                self.children(parent)
                    .filter(move |(target, _)| *target != node),
""", """                self.graph
                    .edges_directed(parent, Direction::Outgoing)
                    .map(|edge| (edge.target(), edge.id()))
                    .filter(move |(target, _)| *target != node),
""")]
DEMO = """
use lumberjack::io::PTBFormat;
fn main() {
    let mut tree = PTBFormat::Simple.string_to_tree("(R (X (A a)) (Y (B b)))").unwrap();
    let find = |l: &str| tree.nonterminals().find(|n| tree[*n].label() == l).unwrap();
    let (x, y) = (find("X"), find("Y"));
    tree.add_secondary_edge(x, y, Some("s"));
    let a = tree.terminals().next().unwrap();
    assert_eq!(tree.siblings(a).count(), 0);
}
"""
