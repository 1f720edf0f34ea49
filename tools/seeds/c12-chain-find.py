PROPERTY = "C12"
NEEDS = "restoring unary chains with an empty delimiter"
BREAKS = "restoring unary chains never comes to an end when the delimiter is empty, adding nodes for ever"
EDITS = [("lumberjack/src/tree_modification.rs", """                for label in chain.split(delim) {
                    cur = self.insert_unary_above(cur, label);
                }""", """                let mut rest = chain.as_str();
                while let Some(at) = rest.find(delim) {
                    cur = self.insert_unary_above(cur, &rest[..at]);
                    rest = &rest[at + delim.len()..];
                }
                cur = self.insert_unary_above(cur, rest);""")]
DEMO = """
use lumberjack::io::PTBFormat;
use lumberjack::UnaryChains;
use std::{process, sync::mpsc, thread, time::Duration};
fn main() {
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let mut tree = PTBFormat::Simple.string_to_tree("(R (A (T a)) (S b))").unwrap();
        tree.collapse_unary_chains("").unwrap();
        tree.restore_unary_chains("").unwrap();
        tx.send(tree.n_terminals()).unwrap();
    });
    match rx.recv_timeout(Duration::from_millis(1500)) {
        Ok(n) => assert_eq!(n, 2),
        Err(_) => process::exit(1),
    }
}
"""
