title = "Phrase extraction yields exactly the consistent phrase pairs, correctly counted"
statement = """For every word alignment and extraction options (maximum length, monotone, source length limit, spurious words), the phrase pairs
extracted are exactly those consistent with the alignment (no word of the pair is aligned outside it, unaligned neighbours may be included), each
with its weight; with BRF, each with its relative frequency among the segmentations of the sentence pair into such pairs. The model built from an
alignment file counts every pair by weight and repetitions, without those filtered out, in one go, in steps, with the command-line tool or in
parallel pieces; the printed table, loaded again, is the same model, with log p(t|s) and log p(s|t) the ratios of its counts."""
over = ["inputs", "configurations", "histories"]
quant = "all alignments, options and divisions of the corpus"
tests = "The tests run the training tools on a toy corpus and check that the files exist; no extracted pair or count is compared."
files = ["src/phrase_models/PhraseExtractionTable.cc", "src/phrase_models/PhraseExtractUtils.cc", "src/phrase_models/WbaIncrPhraseModel.cc",
         "src/phrase_models/_wbaIncrPhraseModel.cc", "src/phrase_models/thot_gen_phr_model.cc", "src/phrase_models/_incrPhraseModel.cc",
         "src/phrase_models/SegLenTable.cc", "utils/phrase_models/thot_gen_phr_model_mr.sh", "utils/phrase_models/thot_pbs_gen_phr_model.sh",
         "utils/phrase_models/thot_merge_counts.sh"]
mech = [("consistent pairs and segmentations", "src/phrase_models/PhraseExtractionTable.cc"), ("filters and weights", "src/phrase_models/PhraseExtractUtils.cc"),
        ("counts and model files", "src/phrase_models/_wbaIncrPhraseModel.cc"), ("parallel estimation", "utils/phrase_models/thot_gen_phr_model_mr.sh")]
technique = "runtime monitoring: extraction compared with an independent enumeration of consistent pairs and segmentations, under ASan+UBSan"
note = """The whole target sentence goes only with the whole source sentence, as in the code. Sentences up to 7 words in BRF comparisons and 103
otherwise; pairs with more segmentations than the enumerator's limit are left out of BRF comparisons."""
