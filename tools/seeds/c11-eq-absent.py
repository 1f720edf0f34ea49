PROPERTY = "C11"
NEEDS = "comparing a word without features with one that has some, in that order"
BREAKS = "a word without features equals one with features, but not the other way round"
EDITS = [("lumberjack/src/node.rs", """            || self.lemma != other.lemma
        {
            return false;
        }
        match (&self.features, &other.features) {
            (Some(f), Some(f_other)) => f == f_other,
            (None, None) => true,
            (Some(f), None) => f.inner().is_empty(),
            (None, Some(f)) => f.inner().is_empty(),
        }""", """            || self.lemma != other.lemma
        {
            return false;
        }
        match (&self.features, &other.features) {
            (Some(f), Some(f_other)) => f == f_other,
            (None, _) => true,
            (Some(f), None) => f.inner().is_empty(),
        }""")]
DEMO = """
use lumberjack::Terminal;
fn main() {
    let plain = Terminal::new("a", "A", 0);
    let mut marked = plain.clone();
    marked.features_mut().insert("k", Some("v"));
    assert!(marked != plain);
    assert!(plain != marked);
}
"""
