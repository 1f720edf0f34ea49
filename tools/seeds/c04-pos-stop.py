PROPERTY = "C04"
NEEDS = "a file of part-of-speech sentences that is shorter than the input"
BREAKS = "the tool stops without a message when the tags run out"
EDITS = [("lumberjack-utils/src/bin/lumberjack-conversion.rs", """            let sentence = pos_sentences
                .read_sentence()
                .or_exit(
                    "Number of POS sentences doesn't match number of input sentences.",
                    1,
                )
                .or_exit("Can't read POS sentence", 1);
""", """            let sentence = match pos_sentences.read_sentence() {
                Ok(Some(sentence)) => sentence,
                Ok(None) => break,
                Err(_) => std::process::exit(1),
            };
""")]
SH = r"""
printf '(R (A a) (B b))\n(R (C c) (D d))\n' > in.ptb
printf '1\ta\t_\tX\tX\t_\n2\tb\t_\tY\tY\t_\n\n' > pos.conllx
"$T" --input_file in.ptb --input_format simple --output_format simple --pos pos.conllx --output_file out 2> err; s=$?
[ "$s" -ne 0 ] && [ -s err ]
"""
