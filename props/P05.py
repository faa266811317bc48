title = "Word-alignment combination computes the defined operation on every pair"
statement = """For every two alignment matrices, and, or, sum, xor, transpose, sym1, sym2 and grow-diag-final give the matrix they are defined to give: never
a link outside the union nor without one in the intersection. For every two alignment files, the tool, the library and the parallel script, in
sequence or exhaustive mode, compact or not, transposed or not, with one operation or a list of them, write one entry per sentence pair with the
operation's result, its words and repetitions, leave mismatching pairs as they were, and what is written reads back identically, also after
conversion to the other formats."""
over = ["inputs", "configurations", "histories"]
quant = "all matrices, alignment files and sequences of operations"
tests = "No unit test touches alignment matrices; the toy pipeline runs one symmetrization and looks at the final translation only."
files = ["src/nlp_common/WordAligMatrix.cc", "src/phrase_models/AlignmentExtractor.cc", "src/phrase_models/AlignmentContainer.cc",
         "src/phrase_models/thot_alig_op.cc", "src/nlp_common/printAligFuncs.cc", "utils/phrase_models/thot_pbs_alig_op.sh",
         "utils/phrase_models/thot_conv_giza_alig_file.py", "utils/phrase_models/thot_gen_exhaustive_giza_alig.py"]
mech = [("matrix operations", "src/nlp_common/WordAligMatrix.cc"), ("alignment files", "src/phrase_models/AlignmentExtractor.cc"),
        ("exhaustive mode", "src/phrase_models/AlignmentContainer.cc")]
technique = "runtime monitoring: every operation's output compared with a direct definition of it, under ASan+UBSan"
note = "Matrices up to 6x6 (some up to 90x90); files up to 6 pairs (some up to 60). sym1, sym2 and grow-diag-final are defined by their scanning order, restated independently."
