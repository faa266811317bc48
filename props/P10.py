title = "Interactive predictions extend the typed prefix and depend only on it"
statement = """In computer-assisted translation, for every source sentence, sequence of user actions (typing, accepting, correcting, deleting, rejecting
a word, resetting) and search configuration, the prediction returned begins with exactly the characters the user has typed; it depends on the source
sentence, the current prefix and the rejected words, not on how or in how many steps the prefix was entered, on prefixes tried before, on earlier
sentences or on other users; a rejected word does not come next; and no sequence of requests, with online training among them, crashes the
system."""
over = ["inputs", "histories", "configurations"]
quant = "all sources, action sequences, users and configurations"
tests = """The tests enter one prefix of one toy sentence in a tool and look at the exit status; none compares predictions for the same prefix reached
in different ways."""
files = ["src/stack_dec/ThotDecoder.cc", "src/stack_dec/WgUncoupledAssistedTrans.h", "src/stack_dec/_phraseBasedTransModel.h",
         "src/error_correction/WgProcessorForAnlp.h", "src/error_correction/PfsmEcmForWg.cc", "src/error_correction/NonPbEcModelForNbUcat.cc",
         "src/error_correction/WordGraph.cc", "src/error_correction/PrefAlignInfo.h"]
mech = [("sessions and prefixes per user", "src/stack_dec/ThotDecoder.cc"), ("prediction from the word graph", "src/stack_dec/WgUncoupledAssistedTrans.h"),
        ("prefix matching", "src/error_correction/WgProcessorForAnlp.h")]
technique = "runtime monitoring: every prediction compared with the typed prefix and with the same prefix entered at once, in fresh sessions and by other users, under ASan+UBSan"
note = """That the prediction is the best of its word graph is not claimed: the code scores a state by the last arc that enters it. That a new session predicts the same is asserted for scores without ties, wide option limits, translatable words and untrained models: among equal
scores the decoder may choose by the order in which words became known."""
