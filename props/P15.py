title = "Tuned weights are the best ones found, and never worse than the given ones"
statement = """Every optimiser returns weights it evaluated and that are the best of those it evaluated, so tuning never makes the criterion worse
on the development data, and weights that are fixed or excluded keep their value.
The simplex search and its program are deterministic, stop within their limits, report a target function that fails, and, resumed from the
recorded values of an interrupted run, end like the uninterrupted one.
The log-linear weights computed from n-best lists by k-best batch MIRA are those the algorithm defines for the chosen metric and
parameters (lists without entries are skipped; if no weights improve the metric the given ones are kept), malformed lists are rejected.
Each iteration of log-linear tuning decodes with the current weights, takes the best entry of each n-best list by these weights, accumulates
the entries of all iterations, and the result is the weights of the iteration with the best translation quality.
The interpolation weights of language and phrase models are written to the descriptor that was read, stay between 0 and 1, and change
nothing else; loaded again they give the value of the criterion with which they were found."""
over = ["inputs", "histories"]
quant = "all n-best lists, references, metrics, initial and fixed weights, target functions, points of interruption, development corpora and models"
tests = """KbMiraLlWuTest and the Mira scorer tests update one small n-best list and score a few fixed sentences; the tools, the simplex search and
the tuning loop are not tested."""
files = ["src/stack_dec/KbMiraLlWu.cc", "src/stack_dec/thot_ll_weight_upd_nblist.cc", "src/downhill_simplex/step_by_step_dhs.c",
         "src/stack_dec/WeightUpdateUtils.cc", "src/incr_models/thot_lm_weight_upd.cc", "utils/stack_dec/thot_ll_weight_upd.sh",
         "utils/downhill_simplex/thot_dhs_min.sh"]
mech = [("KbMiraLlWu::updateClosedCorpus", "src/stack_dec/KbMiraLlWu.cc"), ("step_by_step_simplex", "src/downhill_simplex/step_by_step_dhs.c"),
        ("thot_dhs_min", "utils/downhill_simplex/thot_dhs_min.sh"), ("thot_ll_weight_upd", "utils/stack_dec/thot_ll_weight_upd.sh"),
        ("thot_lm_weight_upd", "src/incr_models/thot_lm_weight_upd.cc")]
technique = "runtime monitoring: independent implementation of MIRA and recorded target-function evaluations and tuning traces as oracles, under ASan+UBSan"
note = """Held on every generated tuning run. The simplex search is not required to find the optimum except on smooth convex functions of few
variables with a small tolerance. Toy systems of at most a dozen sentences."""
