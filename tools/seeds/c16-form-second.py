PROPERTY = "C16"
NEEDS = "a word with two opening parentheses"
BREAKS = "only the first opening parenthesis of a word is replaced"
EDITS = [("lumberjack/src/io/ptb.rs", """        let form = form.replace("(", "LBR").replace(")", "RBR");
""", """        let form = form.replacen("(", "LBR", 1).replace(")", "RBR");
""")]
DEMO = """
use lumberjack::io::PTBFormat;
use lumberjack::Tree;
fn main() {
    let out = PTBFormat::Simple.tree_to_string(&Tree::new("((", "T")).unwrap();
    assert_eq!(out.matches('(').count(), 1, "{}", out);
}
"""
