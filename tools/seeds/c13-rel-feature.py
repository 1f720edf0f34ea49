PROPERTY = "C13"
NEEDS = "a CoNLL-X token without the feature that carries the relative tag"
BREAKS = "decoding relative tags panics on a token without the feature"
EDITS = [("lumberjack/src/io/conllx.rs", """            let ancestor = token
                .features()
                .and_then(|f| f.as_map().get("rel_ancestor"))
                .ok_or_else(|| format_err!("Missing ancestor feature."))?
""", """            let ancestor = token
                .features()
                .and_then(|f| f.as_map().get("rel_ancestor"))
                .unwrap()
""")]
DEMO = """
use lumberjack::io::{PTBFormat, ToConllx, TryFromConllx};
use lumberjack::Tree;
fn main() {
    let s = PTBFormat::Simple.string_to_tree("(R (A a) (B b))").unwrap().to_conllx();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Tree::try_from_conllx_with_relative_encoding(&s).is_err()));
    assert_eq!(r.ok(), Some(true));
}
"""
