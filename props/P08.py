title = "Phrase-based decoding is sound, scored as defined, optimal when unpruned"
statement = """For every set of models (language, phrase-based, dictionaries as custom or per-sentence features), weights, input sentence and search parameters, the hypothesis returned by the decoder (freely, with a
reference, with a coverage reference, with a prefix, or as next translation) covers every source word exactly once with phrase pairs allowed by
the tables and limits (A, U, E, W), has the text these pairs give (the reference, or starting with the prefix), and its feature components and
score are those of the log-linear definition. Without pruning it is a best derivation; pruned search never exceeds the best; the answer does not
depend on earlier requests, or on using a clone of the model."""
over = ["inputs", "configurations", "histories"]
quant = "all models, weights, sentences, references or prefixes and search parameters"
tests = """The translation tests run one configuration on toy models and look at exit status; the unit tests of the decoder classes do not
compare any score or hypothesis with the definition."""
files = ["src/stack_dec/_pbTransModel.h", "src/stack_dec/PbTransModel.h", "src/stack_dec/_stackDecoder.h", "src/stack_dec/_stackDecoderRec.h",
         "src/stack_dec/multi_stack_decoder_rec.h", "src/stack_dec/_smtMultiStack.h", "src/stack_dec/SmtMultiStackRec.h",
         "src/stack_dec/LangModelFeat.cc", "src/stack_dec/DirectPhraseModelFeat.cc", "src/stack_dec/InversePhraseModelFeat.cc",
         "src/stack_dec/SrcPosJumpFeat.cc", "src/stack_dec/SrcPhraseLenFeat.cc", "src/stack_dec/TrgPhraseLenFeat.cc", "src/stack_dec/WordPenaltyFeat.cc",
         "src/stack_dec/PhrHypNumcovJumps01EqClassF.cc", "src/stack_dec/StdFeatureHandler.cc"]
mech = [("hypothesis expansion and scoring", "src/stack_dec/_pbTransModel.h"), ("stack search", "src/stack_dec/_stackDecoder.h"),
        ("recombination", "src/stack_dec/SmtMultiStackRec.h"), ("feature loading", "src/stack_dec/StdFeatureHandler.cc")]
technique = "runtime monitoring: every returned hypothesis rescored from the feature definitions and compared with exhaustive search, under ASan+UBSan"
note = """Sentences up to 5 (7) words and tables of up to 14 pairs, so that the exhaustive search is exact; some long sentences without it. Optimality is not asserted
where the option limit W falls between equal scores; what an empty reference means is left open."""
