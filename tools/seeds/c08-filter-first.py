PROPERTY = "C08"
NEEDS = "ID projection and filtering requested together"
BREAKS = "nonterminals are filtered before their IDs are projected"
EDITS = [("lumberjack-utils/src/bin/lumberjack-conversion.rs", """        if let Some(id_set) = id_set.as_ref() {
            tree.project_ids(id_feature_name, |tree, nt| {
                tree.root() == nt || id_set.matches(tree[nt].label())
            })
        }

        if let Some(filter_set) = filter_set.as_ref() {
            tree.filter_nonterminals(|tree, nt| filter_set.matches(tree[nt].label()))
                .or_exit("Can't filter nodes.", 1);
        }
""", """        if let Some(filter_set) = filter_set.as_ref() {
            tree.filter_nonterminals(|tree, nt| filter_set.matches(tree[nt].label()))
                .or_exit("Can't filter nodes.", 1);
        }

        if let Some(id_set) = id_set.as_ref() {
            tree.project_ids(id_feature_name, |tree, nt| {
                tree.root() == nt || id_set.matches(tree[nt].label())
            })
        }
""")]
SH = r"""
printf '(R (X (A a) (B b)) (C c))\n' > in.ptb
printf 'X\n' > ids
printf 'NOSUCH\n' > filter
"$T" --input_file in.ptb --input_format simple --output_format conllx --id_set ids --filter filter --output_file out || exit 3
cut -f6 out > got
printf 'id:0\nid:0\nid:1\n' > one
tr -d ' ' < got | grep -o '[0-9]*$' | tr '\n' ' ' > n
grep -q '^0 0 1' n
"""
