title = "Simulated users, list tools and corpus statistics report what the data say"
statement = """For every system, corpus and n-best list: the simulated user accepts the longest right prefix and types the next character until the
reference is reached, and the suggestions, key strokes, mouse actions and rates printed are those of that dialogue; sentence by sentence clients get
what the server gives the same requests; tools that rescore, extend, reduce, merge, segment, filter or export lists and graphs change nothing else;
repetition rates, unseen fractions, perplexities and confidence intervals are those of the data; a serialized log keeps every line, request by request."""
over = ["inputs", "histories"]
quant = "all systems, reference translations, n-best lists, corpora and logs"
tests = "None of these tools is run by the test suite."
files = ["utils/stack_dec/thot_cat_using_client.sh", "utils/stack_dec/thot_smt_using_client.sh", "utils/stack_dec/thot_get_sys_trans.sh", "utils/stack_dec/thot_conf_interv_cat.sh",
         "utils/stack_dec/thot_conf_interv_smt.sh", "utils/stack_dec/thot_serialize_server_log.py", "utils/stack_dec/thot_get_nblist_segm_info.py", "utils/stack_dec/thot_filter_nblist.sh",
         "utils/stack_dec/thot_dhs_nbl_rescore.sh", "utils/error_correction/thot_rescore_nbest.sh", "utils/error_correction/thot_augment_nblist.sh",
         "utils/error_correction/thot_remove_nbl_component.sh", "utils/error_correction/thot_merge_nbest_list.sh", "utils/error_correction/thot_obtain_best_trans_from_nbl.sh",
         "utils/error_correction/thot_export_wordgraph.sh", "utils/incr_models/thot_repetition_rate.sh", "utils/incr_models/thot_corpus_represent.sh",
         "utils/nlp_common/thot_obtain_info_from_verbose_ppl.sh", "src/stack_dec/thot_client.cc"]
mech = [("the simulated user", "utils/stack_dec/thot_cat_using_client.sh"), ("n-best lists", "utils/error_correction/thot_rescore_nbest.sh"),
        ("intervals", "utils/stack_dec/thot_conf_interv_smt.sh"), ("n-gram statistics", "utils/incr_models/thot_repetition_rate.sh")]
technique = "the installed tools (servers, clients and decoder built with ASan+UBSan) on random systems, lists, corpora and logs; monitors repeat the dialogue on a second server and recompute every figure"
note = "The bootstrap samples are random: mean, deviation and bounds are compared with those of 3000 own samples, within six standard errors; times are not checked."
