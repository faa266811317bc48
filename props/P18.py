title = "Systems trained, tuned, prepared and run by tools are what their parts define"
statement = """The tools that build and run a translation system (thot_lm_train, thot_tm_train, thot_smt_tune, thot_prepare_sys_for_test, thot_decoder, thot_auto_smt)
give what their parts give when run by hand: the models of a corpus are those that the single programs compute with the options given, whatever the number of
processes; a prepared system translates the text it was prepared for as the one it was made from, with the same scores; a tuned system has the models,
settings and weights that were tuned and translates the development corpus no worse than the initial one;
the parallel decoder gives one translation and one word graph per sentence, in order, the same as a single decoder; the whole pipeline gives the composition
of its steps. Tools leave the systems, corpora and other files they were given as they were, leave no temporary files behind,
and when a program they run fails they end with an error or give the results they would give without it."""
over = ["inputs", "schedules", "faults"]
quant = "all corpora, options and databases of the tools, numbers of processes, ways to write a configuration, and failures of a program at any of its calls"
tests = """The tests check that the tools end without error on one toy corpus."""
files = ["utils/exper/thot_lm_train.sh", "utils/exper/thot_tm_train.sh", "utils/exper/thot_smt_tune.sh", "utils/exper/thot_prepare_sys_for_test.sh",
         "utils/stack_dec/thot_decoder.sh", "utils/exper/thot_auto_smt.sh", "utils/phrase_models/thot_pbs_gen_batch_phr_model.sh",
         "utils/phrase_models/thot_pbs_filter_ttable.sh", "utils/sw_models/thot_pbs_gen_batch_sw_model.sh", "utils/incr_models/thot_pbs_get_ngram_counts.sh"]
mech = [("create_tm_files", "utils/exper/thot_smt_tune.sh"), ("filter_ttables", "utils/exper/thot_prepare_sys_for_test.sh"), ("move_wgs", "utils/stack_dec/thot_decoder.sh"),
        ("pipe_fail", "utils/nlp_common/thot_general_lib.sh"), ("sync", "utils/nlp_common/thot_simple_sched_lib.sh")]
technique = "runtime monitoring: the installed tools run on toy language pairs under ASan+UBSan, compared with step-by-step recomputation, with faults injected into the programs they call"
note = """Held on every generated case but for the findings listed. Toy pairs of at most some tens of sentences; one machine (no PBS cluster).
Programs fail by exit status, signal, or after part of their output."""
