PROPERTY = "C08"
NEEDS = "relative output together with the ID projection option"
BREAKS = "unary chains are no longer collapsed before the relative encoding when IDs are projected"
EDITS = [("lumberjack-utils/src/bin/lumberjack-conversion.rs", """        } else if out_formatter == OutFormat::Relative {
            tree.collapse_unary_chains("_")
                .or_exit("Could not collapse unary chains.", 1);
""", """        } else if out_formatter == OutFormat::Relative {
            if id_set.is_none() {
                tree.collapse_unary_chains("_")
                    .or_exit("Could not collapse unary chains.", 1);
            }
""")]
SH = r"""
printf '(R (U (X (A a) (B b))) (C c))\n' > in.ptb
printf 'R\n' > ids
"$T" --input_file in.ptb --input_format simple --output_format relative --id_set ids --output_file out.conllx || exit 3
grep -q 'U_X' out.conllx
"""
