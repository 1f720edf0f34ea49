PROPERTY = "C18"
NEEDS = "a caller using the new accessor"
BREAKS = "callers can overwrite the position of a word in a tree"
EDITS = [("lumberjack/src/node.rs", """    pub(crate) fn set_idx(&mut self, idx: usize) {""", """    pub fn set_idx(&mut self, idx: usize) {""")]
SH = r"""
mkdir -p "$W/c/src"
cat > "$W/c/src/main.rs" <<EOF
fn main() {
    let mut tree = lumberjack::Tree::new("a", "A");
    let root = tree.root();
    tree[root].terminal_mut().unwrap().set_idx(7);
}
EOF
cp "$R/Cargo.lock" "$W/c/"
cat > "$W/c/Cargo.toml" <<EOF
[package]
name = "c"
version = "0.1.0"
edition = "2018"
[dependencies]
lumberjack = { path = "$R/lumberjack" }
[workspace]
EOF
cd "$W/c"
if cargo build --offline -q --target-dir "$W/target" 2> "$W/err"; then echo "the position of a word can be overwritten"; exit 1; fi
grep -q "private" "$W/err"
"""
