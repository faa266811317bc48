title = "Evaluation metrics compute what they are defined to compute, on any corpus"
statement = """For every corpus of translations and references, however short, empty, repetitive or different the sentences, BLEU is the brevity penalty times
the geometric mean of the clipped n-gram precisions over the corpus, WER the minimum number of word edits over the reference words, GTM the F-measure
of the clipped word matches and chrF the F-measure of averaged character n-gram precision and recall; the sentence and background scores that tuning
uses are those of the documented statistics. BLEU, GTM and chrF lie between 0 and 1, never NaN; a sentence scores 1 against itself; the order of the
sentences is irrelevant. The tools print these values, and report an error when the files have different numbers of sentences."""
over = ["inputs"]
quant = "all corpora of candidate and reference sentences"
tests = "The tests score eight chrF sentence pairs and one corpus; BLEU, GTM and WER are not tested."
files = ["src/stack_dec/bleu.cc", "src/stack_dec/chrf.cc", "src/stack_dec/MiraBleu.cc", "src/stack_dec/MiraGtm.cc", "src/stack_dec/MiraWer.cc",
         "src/stack_dec/MiraChrF.cc", "src/stack_dec/thot_calc_bleu.cc", "src/stack_dec/thot_scorer.cc", "utils/stack_dec/thot_calc_wer.py"]
mech = [("clipped n-gram matches", "src/stack_dec/bleu.cc"), ("background statistics", "src/stack_dec/MiraBleu.h"), ("greedy matching of the longest runs", "src/stack_dec/MiraGtm.cc")]
technique = "runtime monitoring under ASan/UBSan: scores compared with their definitions over n-gram multisets; tools compared with the same"
note = "Words are separated by blanks; chrF counts bytes, as the code does. A corpus without n-grams of some length scores 0 in thot_calc_bleu and leaves that length out in thot_scorer."
