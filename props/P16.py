title = "Corpus preparation keeps lines, words and pairs, and is undone afterwards"
statement = """Tokenizing, lowercasing, removing annotations and categorizing give one line of output for each line of input, whatever white space or
characters the lines contain, from a file or the standard input; no character of the text other than white space is lost, added or
reordered, annotations stay in place, and categories replace exactly the words of their kind.
Decategorizing puts the words of the source segment back in place of the categories of the target segment they were translated to, and
leaves the other words as they are.
Detokenizing and recasing keep the characters of the text (but for case) and give a best derivation under the translation and language model
that was trained, whose counts are those of the training text, also when it is trained in several portions and merged.
Cleaning removes exactly the pairs out of the limits and reports their numbers; shuffling permutes the lines, the same way for both sides;
partitions have the sizes asked for, keep the pairs together and do not overlap, and impossible sizes are rejected."""
over = ["inputs", "histories"]
quant = "all texts, annotations, white space and line breaks, models, limits, sizes and seeds"
tests = """None of the scripts and Python tools is run by a test."""
files = ["utils/smt_preproc/thot_tokenize.py", "utils/smt_preproc/thot_smt_preproc.py", "utils/smt_preproc/thot_decategorize.py",
         "utils/smt_preproc/thot_detok_translator.py", "utils/smt_preproc/thot_rec_translator.py", "utils/smt_preproc/thot_clean_corpus_ln.py",
         "utils/nlp_common/thot_shuffle.sh"]
mech = [("xml_skeleton_to_tokens", "utils/smt_preproc/thot_smt_preproc.py"), ("Decoder", "utils/smt_preproc/thot_smt_preproc.py"),
        ("categorize", "utils/smt_preproc/thot_smt_preproc.py"), ("thot_shuffle", "utils/nlp_common/thot_shuffle.sh")]
technique = "runtime monitoring: oracles over the runs of the tools (structure of generated texts, exhaustive best derivation, multisets of pairs)"
note = """Held on every generated text. Texts of at most a few dozen lines; best derivations of lines of at most a few words."""
