title = "N-gram language models give the defined, normalised probabilities"
statement = """For every training history (from n-gram count files in any line order, or sentence by sentence online, with any counts and
interpolation weights), the language model's n-gram, sentence and perplexity figures equal the interpolated relative-frequency definition;
the probabilities after a context never add up to more than one, and add up to exactly one when the context was seen.
Word-by-word states, whole sentences, saving and reloading, the map-reduce counting tool and the LevelDB model all give the same answers,
also after further online training with new words, and tuning the weights never makes the tuning corpus less likely."""
over = ["histories", "inputs", "configurations"]
quant = "all corpora, n-gram orders, weights and buckets, and all interleavings of training, querying, saving and reloading"
tests = """Unit tests check the LevelDB n-gram table on a few entries and a tiny LM for a few probabilities; no test sums distributions,
compares batch counting with online training, the two backends, or the state interface, or retrains a reloaded model."""
files = ["src/incr_models/_incrJelMerNgramLM.h", "src/incr_models/_incrNgramLM.h", "src/incr_models/LevelDbNgramTable.cc",
         "src/incr_models/IncrJelMerLevelDbNgramLM.cc", "src/incr_models/vecx_x_incr_cptable.h", "src/incr_models/vecx_x_incr_enc.h",
         "src/nlp_common/BaseNgramLM.h", "src/nlp_common/BaseIncrNgramLM.h", "utils/incr_models/thot_get_ngram_counts.sh"]
mech = [("Jelinek-Mercer interpolation", "src/incr_models/_incrJelMerNgramLM.h"), ("online n-gram training", "src/nlp_common/BaseIncrNgramLM.h"),
        ("LevelDB n-gram store", "src/incr_models/LevelDbNgramTable.cc"), ("counting tools", "utils/incr_models")]
technique = "runtime monitoring: independent reference model compared with the running code under ASan+UBSan; normalisation and round-trip monitors"
note = """Held on the generated corpora (orders 1-4, up to 10 words; a few up to order 8 and with hundreds of words); the reference computes counts and interpolation independently. KenLM and RNN
back ends are not installed and not covered."""
