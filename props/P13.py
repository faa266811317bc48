title = "Translations obey the constraints annotated in the source sentence"
statement = """A sentence annotated in the XML or JSON notation is read as the sentence without annotations plus the imposed translations, with
malformed annotations left as ordinary words (XML) or ignored (JSON), and never anything else.
Every translation the decoder returns for it - the best one, the following ones, and those in the word graph - translates each annotated
source phrase as one unit by the imposed words, even if they are unknown to the models or the phrase is longer than the length limit,
and is the best of the translations that do so.
The constraints end with the sentence: later requests, with or without a reference or prefix, are answered as if they had never been given.
The constraint checker accepts exactly the translations that satisfy the constraints."""
over = ["inputs", "histories"]
quant = "all annotated sentences and malformed annotations, models, weights, search parameters, and sequences of constrained and unconstrained requests"
tests = """TranslationMetadataTest and JsonTranslationMetadataTest parse a few fixed sentences; no test decodes a constrained sentence."""
files = ["src/stack_dec/TranslationMetadata.h", "src/stack_dec/JsonTranslationMetadata.h", "src/stack_dec/_pbTransModel.h",
         "src/stack_dec/thot_get_srcsents_from_metadata.cc", "src/stack_dec/thot_check_constraints.cc"]
mech = [("TranslationMetadata::obtainTransConstraints", "src/stack_dec/TranslationMetadata.h"),
        ("JsonTranslationMetadata::obtainTransConstraints", "src/stack_dec/JsonTranslationMetadata.h"),
        ("_pbTransModel::getTransForHypUncovGap", "src/stack_dec/_pbTransModel.h"), ("check_constraints", "src/stack_dec/thot_check_constraints.cc")]
technique = "runtime monitoring: independent reader of the notations and exhaustive constrained search as oracles on generated requests, under ASan+UBSan"
note = """Held on thousands of generated sentences per run. JSON annotations are assumed to be listed in the order of the sentence (after one that
does not occur, the rest is ignored). Sentences of at most 7 words for the exhaustive comparison, some longer ones without it."""
