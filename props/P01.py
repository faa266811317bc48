title = "Every phrase-table backend behaves as one table of joint counts"
statement = """For any history of additions, count increments, overwrites, queries and clears, every phrase-table backend (in-memory,
trie, LevelDB, Berkeley DB) answers each query - source, target and joint counts, relative-frequency probabilities, the entries listed
for a source or target phrase, their order, n-best cut, size and iteration - as one reference table holding those counts would.
Looking something up never changes the table, and unknown phrases have zero counts.
The disk-backed tables still hold every completed update after being closed and reopened, or after the process is killed between operations."""
over = ["histories", "inputs", "crash_points"]
quant = "all operation histories over any phrases and counts, and every point between two operations at which the process may stop"
tests = """The unit tests drive each backend with one short fixed history of a few phrases and check a handful of counts; no test interleaves
updates with queries, uses shared prefixes, repeated words or large word ids across backends, or kills and reopens a table."""
files = ["src/phrase_models/StlPhraseTable.cc", "src/phrase_models/HatTriePhraseTable.cc", "src/phrase_models/LevelDbPhraseTable.cc",
         "src/phrase_models/FastBdbPhraseTable.cc", "src/phrase_models/BasePhraseTable.h"]
mech = [("StlPhraseTable", "src/phrase_models/StlPhraseTable.cc"), ("HatTriePhraseTable", "src/phrase_models/HatTriePhraseTable.cc"),
        ("LevelDbPhraseTable", "src/phrase_models/LevelDbPhraseTable.cc"), ("FastBdbPhraseTable", "src/phrase_models/FastBdbPhraseTable.cc")]
technique = "runtime monitoring: reference-model oracle over random operation histories, SIGKILL crash points, under ASan+UBSan"
note = """Held on the histories run: thousands of random histories per backend compared with a reference model after every step or batch, LevelDB
and BDB also across reopen and SIGKILL. Assumes the reference model; power loss and torn writes below LevelDB are out of scope."""
