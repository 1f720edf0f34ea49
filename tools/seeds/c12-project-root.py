PROPERTY = "C12"
NEEDS = "a match function that accepts none of the nodes above some word, the root included"
BREAKS = "projecting node indices loops forever at the root when nothing above a word matches"
EDITS = [("lumberjack/src/tree.rs", """            while let Some(parent) = climber.next(self) {
                if match_fn(self, parent) {
                    indices[self[terminal].span().start] = parent;
                    break;
                }
            }
        }
        indices""", """            loop {
                let parent = climber.next(self).unwrap_or(self.root);
                if match_fn(self, parent) {
                    indices[self[terminal].span().start] = parent;
                    break;
                }
            }
        }
        indices""")]
DEMO = """
use lumberjack::io::PTBFormat;
use std::{process, sync::mpsc, thread, time::Duration};
fn main() {
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let tree = PTBFormat::Simple.string_to_tree("(R (A (T a) (T b)) (B (T c)))").unwrap();
        let nodes = tree.project_nt_indices(|t, n| t[n].label() == "A");
        tx.send(nodes[2] == tree.root()).unwrap();
    });
    match rx.recv_timeout(Duration::from_secs(10)) {
        Ok(root) => assert!(root),
        Err(_) => process::exit(1),
    }
}
"""
