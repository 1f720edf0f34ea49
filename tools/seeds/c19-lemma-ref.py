PROPERTY = "C19"
NEEDS = "a lemma listing alternatives, converted by reference"
BREAKS = "only the first of several alternative lemmas reaches the CoNLL-X token"
EDITS = [("lumberjack/src/io/conllx.rs", """        token.set_lemma(terminal.lemma());""", """        token.set_lemma(terminal.lemma().and_then(|lemma| lemma.split('|').next()));""")]
DEMO = """
use lumberjack::io::ToConllx;
use lumberjack::{Terminal, Tree};
fn main() {
    let mut tree = Tree::new("sein", "VA");
    let root = tree.root();
    tree[root].terminal_mut().unwrap().set_lemma(Some("sein|haben"));
    let s = tree.to_conllx();
    assert_eq!(s[1].token().unwrap().lemma(), Some("sein|haben"));
    let _ = Terminal::new("a", "b", 0);
}
"""
