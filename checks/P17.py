"""Online learning."""


def run(ctx):
    ctx.rule = ("random translation systems, sentence pairs, learning steps and interlacing parameters, translations, prints and reloads in between; "
                "distinct by the sentence pair and its place in the history")
    exe = ctx.build("ol")
    P = ctx.prefix(progs=[], scripts=False)
    ctx.workers(exe, ctx.pick(45, 1200), n=8, timeout=ctx.pick(300, 2500), env={"VERIF_PREFIX": P})
    ctx.require(trained=1000, refused=150, samples_revisited=400, verified=700, reloaded=400, phrase_counts_compared=8000, lexical_compared=20000,
                lm_counts_compared=10000, answers_compared=1500, distinct=1000, long_sentences=15)
