PROPERTY = "C10"
NEEDS = "a record closed with an identifier that is a part of the one it was opened with"
BREAKS = "the NEGRA reader yields a tree from a record that is closed with another identifier"
EDITS = [("lumberjack/src/io/negra.rs", "        if eos_id != self.sentence_id {", "        if !self.sentence_id.ends_with(&eos_id) {")]
DEMO = """
use lumberjack::io::NegraReader;
fn main() {
    let text = "#BOS 12\\nw\\t--\\tNN\\t--\\t--\\t500\\n#500\\t--\\tS\\t--\\t--\\t0\\n#EOS 2\\n";
    let ok = text.replace("#EOS 2", "#EOS 12");
    assert!(NegraReader::new(ok.as_bytes()).next().unwrap().is_ok());
    assert!(NegraReader::new(text.as_bytes()).next().unwrap().is_err());
}
"""
