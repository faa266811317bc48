"""Interactive (computer-assisted) prediction."""


def run(ctx):
    ctx.rule = ("random translation systems, users, sentences and sequences of start, add-string, set-prefix, reject, reset, translate and train "
                "requests; distinct by source, typed prefix and prediction")
    exe = ctx.build("cat")
    P = ctx.prefix(progs=[], scripts=False)
    ctx.workers(exe, 90 * ctx.pick(1, 25), n=8, timeout=ctx.pick(300, 2500), env={"VERIF_PREFIX": P})
    ctx.require(completions=1000, history_checked=800, increments_checked=1500, prefix_respected=3000, rejections=100, same_for_users=100, trained=100,
                distinct=2000, long_sentences=8, stored_predictions=250, stored_word_graphs=50)
