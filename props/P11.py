title = "Error-correction models score and apply minimum-cost edits"
statement = """The edit distance between any two strings or word sequences is the minimum cost over all edit scripts under the configured costs,
and the operations reported with it form a script of exactly that cost which turns the one into the other.
Given a user prefix, the distance is the minimum over all ways to match the prefix with the beginning of the sentence, the last word of
the prefix counting as unfinished unless a blank follows it; the empty prefix costs nothing.
The corrected sentence begins with the prefix, followed by the words of the sentence that the minimum-cost script leaves.
Scores built word by word and prefix chunk by prefix chunk, as on a word graph, equal those computed from scratch."""
over = ["inputs", "histories"]
quant = "all word sequences, prefixes (complete or not), valid error-model weights, and all ways of growing or shrinking the prefix in steps"
tests = """No unit test exercises the edit distances or the error-correction models. Tool tests only check that assisted translation runs."""
files = ["src/error_correction/_editDist.h", "src/error_correction/EditDistForStr.cc", "src/error_correction/EditDistForVecString.cc",
         "src/error_correction/PfsmEcm.cc", "src/error_correction/PfsmEcmForWg.cc", "src/error_correction/_editDistBasedEcm.cc",
         "src/error_correction/NonPbEcModelForNbUcat.cc"]
mech = [("EditDistForVecString", "src/error_correction/EditDistForVecString.cc"), ("PfsmEcm", "src/error_correction/PfsmEcm.cc"),
        ("PfsmEcmForWg", "src/error_correction/PfsmEcmForWg.cc"), ("NonPbEcModelForNbUcat", "src/error_correction/NonPbEcModelForNbUcat.cc")]
technique = "runtime monitoring: reference dynamic-programming oracle and replay of the reported edit scripts on generated inputs, under ASan+UBSan"
note = """Held on the tens of thousands of generated pairs per run. Assumes non-empty words, at most one blank after the prefix, and weights that
define a probability distribution. Ties between scripts of equal cost may fall either way."""
