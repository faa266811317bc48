"""Word graphs."""


def run(ctx):
    ctx.rule = ("random word graphs (unreachable states, repeated arcs, several final states, score components) and graphs written by the "
                "decoder for random models, weights and sentences; distinct by graph and operation")
    exe = ctx.build("wg")
    P = ctx.prefix(progs=["thot_wg_proc"], scripts=False)
    ctx.workers(exe, 900 * ctx.pick(1, 20), n=8, timeout=ctx.pick(250, 2500), env={"VERIF_PREFIX": P})
    ctx.require(best_paths=20000, nbest_lists=20000, prunings=5000, pruned_again=2000, useful_graphs=5000, tool_runs=500, decoder_graphs=2000, decoder_paths=50000,
                exhaustive_graphs=1500, decoder_rescorings=500, distinct=5000, large_graphs=20, large_graphs_compared=8, nbest_of_large_graphs=18)
