title = "Word graphs hold derivations with their scores; best, n-best, prune are exact"
statement = """For every word graph, weights and threshold: the best path is a maximum-score path from the initial to a final state avoiding the
excluded arcs, and the n-best list holds the n best distinct paths in order; pruning removes no arc on a path within the threshold of the best and
keeps every other path's score; dropping useless states and ordering topologically keep the set of complete paths; printing and loading, and the
command-line tool, give the same graph. The graph the decoder outputs contains its translation as best path, each path is a derivation with the
score and feature components of the model, and an unpruned search's graph holds all derivations."""
over = ["inputs", "configurations", "histories"]
quant = "all word graphs, weights, thresholds and exclusions; all decoder requests"
tests = """The unit tests build two small graphs and look at n-best size and one pruning; the word graphs that the decoder writes are not compared
with anything."""
files = ["src/error_correction/WordGraph.cc", "src/error_correction/WordGraph.h", "src/error_correction/thot_wg_proc.cc",
         "src/stack_dec/_stackDecoderRec.h", "src/stack_dec/_pbTransModel.h", "src/stack_dec/LangModelFeat.cc", "src/stack_dec/PbTransModel.h",
         "src/nlp_common/NbestTransTable.h"]
mech = [("best path and n-best list", "src/error_correction/WordGraph.cc"), ("graph produced by the decoder", "src/stack_dec/_stackDecoderRec.h"),
        ("command-line tool", "src/error_correction/thot_wg_proc.cc")]
technique = "runtime monitoring: graphs and every operation on them compared with path enumeration and the feature definitions, under ASan+UBSan"
note = """Graphs have few enough paths to be enumerated (some large ones are compared by dynamic programming). Graphs of the decoder in which a state was expanded twice (better score found later) are
left out of the completeness comparison only."""
