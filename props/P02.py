title = "Models converted to on-disk databases answer exactly as the text model"
statement = """A phrase table converted with thot_gen_leveldb_ttable or thot_gen_fbdb_ttable (whether or not it was filtered or has fractional counts,
whether or not a single-word vocabulary exists, and also over an earlier conversion) gives every count, direct and inverse probability,
translation option, n-best list and segmentation probability that the text table gives; unseen pairs get the smoothed probability.
So does a dictionary converted with thot_dict_to_leveldb.
Opening, closing, reopening, loading through a descriptor, or loading another model into the same object changes no answer and no file content."""
over = ["inputs", "histories"]
quant = "all well-formed phrase tables (phrases up to ten words for Berkeley DB), dictionaries, segmentation tables, and all sequences of conversions, loads and reopenings"
tests = """Unit tests put a few integer counts in a LevelDB table and reopen it once; no test converts a table, compares formats or loads two models."""
files = ["src/phrase_models/LevelDbPhraseTable.cc", "src/phrase_models/LevelDbPhraseModel.cc", "src/phrase_models/FastBdbPhraseTable.cc",
         "src/phrase_models/FastBdbPhraseModel.cc", "src/phrase_models/thot_ttable_to_leveldb.cc", "src/phrase_models/thot_ttable_to_fbdb.cc",
         "utils/phrase_models/thot_gen_leveldb_ttable.sh", "utils/phrase_models/thot_gen_fbdb_ttable.sh", "src/stack_dec/LevelDbDict.cc"]
mech = [("LevelDbPhraseModel", "src/phrase_models/LevelDbPhraseModel.cc"), ("FastBdbPhraseModel", "src/phrase_models/FastBdbPhraseModel.cc"),
        ("_incrPhraseModel", "src/phrase_models/_incrPhraseModel.cc"), ("LevelDbDict", "src/stack_dec/LevelDbDict.cc")]
technique = "runtime monitoring: the real conversion tools and model classes run on generated tables and load histories, every query checked against the generated table, under ASan+UBSan"
note = """Held on hundreds of converted tables per run. Phrase tables list each pair once. Counts under about 1e-5 are outside the property
(the LevelDB table treats them as zero). Source phrases as keys (getTransFor_s_) are documented as unimplemented on disk."""
