PROPERTY = "C17"
NEEDS = "words that already carry features"
BREAKS = "annotating parent tags drops the features a word already had"
EDITS = [("lumberjack/src/tree_modification.rs", """            self[terminal]
                .features_mut()
                .insert(feature_name, Some(label));
        }
        Ok(())""", """            let mut features = Features::default();
            features.insert(feature_name, Some(label));
            self[terminal]
                .terminal_mut()
                .unwrap()
                .set_features(Some(features));
        }
        Ok(())"""), ("lumberjack/src/tree_modification.rs", "use crate::{Edge, Tree};", "use crate::{Edge, Features, Tree};")]
DEMO = """
use lumberjack::io::PTBFormat;
use lumberjack::TreeOps;
fn main() {
    let mut tree = PTBFormat::Simple.string_to_tree("(R (A a) (B b))").unwrap();
    let a = tree.terminals().next().unwrap();
    tree[a].features_mut().insert("morph", Some("nsf"));
    tree.annotate_parent_tag("parent").unwrap();
    assert_eq!(tree[a].features().unwrap().get_val("morph"), Some(Some("nsf")));
    assert_eq!(tree[a].features().unwrap().get_val("parent"), Some(Some("R")));
}
"""
