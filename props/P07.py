title = "Word alignment models are trained by EM, normalised, and scored exactly"
statement = """For every parallel corpus, weighting and training schedule (whole corpus, in chunks by map-reduce, by several processes, pair by pair online, with bounded
memory), IBM 1, IBM 2 and HMM word models hold finite, normalised lexical and alignment distributions equal to those of the EM recursion they
define; IBM training never makes the corpus less likely. The probability of a sentence pair equals the sum over alignments (also when
accumulated a few source words at a time), the returned alignment is a most likely one, and saving, reloading, pruning, the LevelDB table and
continued training preserve the model."""
over = ["histories", "inputs", "configurations"]
quant = "all parallel corpora, weights, model classes and orders of training, saving and reloading"
tests = """Only the pipeline smoke test trains an HMM model, once, on the toy corpus and looks at exit codes; no parameter, score or alignment of
any model is checked, nor incremental, reloaded or map-reduce training."""
files = ["src/sw_models/IncrIbm1AligModel.cc", "src/sw_models/IncrIbm2AligModel.cc", "src/sw_models/SmoothedIncrIbm1AligModel.cc",
         "src/sw_models/SmoothedIncrIbm2AligModel.cc", "src/sw_models/_incrHmmAligModel.cc", "src/sw_models/_incrHmmP0AligModel.cc",
         "src/sw_models/anjiMatrix.cc", "src/sw_models/anjm1ip_anjiMatrix.cc", "src/sw_models/IncrLexTable.cc", "src/sw_models/IncrLexLevelDbTable.cc",
         "src/sw_models/WeightedIncrNormSlm.cc", "src/sw_models/thot_gen_sw_model.cc", "utils/sw_models/thot_gen_batch_sw_model_mr.sh",
         "utils/sw_models/thot_pbs_gen_batch_sw_model.sh", "utils/sw_models/thot_pbs_gen_best_sw_alig.sh"]
mech = [("EM training", "src/sw_models/_incrHmmAligModel.cc"), ("EM training (IBM)", "src/sw_models/IncrIbm1AligModel.cc"),
        ("expected-value memory", "src/sw_models/anjiMatrix.cc"), ("map-reduce tools", "src/sw_models/thot_merge_bin_ilextable.cc")]
technique = "runtime monitoring: reference EM, forward and Viterbi recomputation compared with the running models under ASan+UBSan; normalisation monitors"
note = """Corpora are small (up to 8 pairs, sentences up to 7 words; a few much longer), so brute-force references are exact; tolerance 0.5% because the models store
log counts as floats. Text parameter files and Viterbi training are compile-time variants that this build does not enable."""
