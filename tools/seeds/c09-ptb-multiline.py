PROPERTY = "C09"
NEEDS = "PTB input with the multi-line option"
BREAKS = "the ptb reader ignores the requested line mode"
EDITS = [("lumberjack-utils/src/bin/lumberjack-conversion.rs", """        PTB => Box::new(PTBReader::new(input, PTBFormat::PTB, multiline)),
""", """        PTB => Box::new(PTBReader::new(
            input,
            PTBFormat::PTB,
            PTBLineFormat::SingleLine,
        )),
""")]
SH = r"""
printf '(R\n (A a)\n (B b))\n' > in.ptb
"$T" --input_file in.ptb --input_format ptb --multiline_brackets --output_format simple --output_file out || exit 1
[ "$(cat out)" = "(R (A a) (B b))" ]
"""
