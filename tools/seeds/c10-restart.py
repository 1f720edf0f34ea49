PROPERTY = "C10"
NEEDS = "a record cut off right after its first line, followed by the next one"
BREAKS = "the NEGRA reader passes over a record that is cut off before its first word, instead of an error"
EDITS = [("lumberjack/src/io/negra.rs", "                if cur.is_some() {\n", "                if cur.as_ref().map_or(false, |b: &Builder| b.n_terminals > 0) {\n")]
DEMO = """
use lumberjack::io::NegraReader;
fn main() {
    let rec = "#BOS 2\\nw\\t--\\tNN\\t--\\t--\\t500\\n#500\\t--\\tS\\t--\\t--\\t0\\n#EOS 2\\n";
    assert!(NegraReader::new(rec.as_bytes()).all(|t| t.is_ok()));
    let text = format!("#BOS 1\\n{}", rec);
    assert!(NegraReader::new(text.as_bytes()).any(|t| t.is_err()));
}
"""
