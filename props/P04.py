title = "Phrase-table tools keep every count: merge, cut, sort, filter, n-best"
statement = """For every phrase table, whatever its words look like (numbers, prefixes of each other, separators) and however small or large its counts:
merging the tables of pieces of a corpus gives each pair the sum of its counts and each source phrase the sum of its totals; cutting keeps exactly
the source phrases above the cutoff; flipping exchanges the sides and twice is the identity; sorting keeps the entries and puts each phrase's
options in decreasing count; filtering for a corpus keeps exactly the entries whose target phrase occurs in it; n-best keeps the n highest counts
of each target phrase, unchanged, and reports the remaining count; the parallel versions write the same."""
over = ["inputs", "configurations"]
quant = "all phrase tables, corpora and options"
tests = "The tests run the filter once on a toy model; no test compares a table with what it should be."
files = ["utils/phrase_models/thot_merge_counts.sh", "utils/phrase_models/thot_cut_ttable.sh", "utils/phrase_models/thot_flip_phr.sh",
         "utils/phrase_models/thot_sort_ttable.sh", "utils/phrase_models/thot_get_nbest_for_trg.sh", "utils/phrase_models/thot_filter_ttable.sh",
         "utils/phrase_models/thot_filter_ttable_given_corpus.sh", "utils/phrase_models/thot_merge_seglen_counts.sh",
         "utils/phrase_models/thot_pbs_filter_ttable.sh", "utils/phrase_models/thot_pbs_get_nbest_for_trg.sh"]
mech = [("adding up counts", "utils/phrase_models/thot_merge_counts.sh"), ("options of a target phrase", "utils/phrase_models/thot_get_nbest_for_trg.sh"),
        ("relevance for a corpus", "utils/phrase_models/thot_filter_ttable_given_corpus.sh")]
technique = "runtime monitoring: the tools' output on hostile tables compared with an executable model (conservation of counts, exactly-once entries)"
note = "Well-formed tables only (three fields, non-empty phrases); the word ||| never appears inside a phrase."
