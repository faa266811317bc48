"""Phrase extraction."""


def run(ctx):
    ctx.rule = ("random sentence pairs up to 7 words (and some of 97 to 103) with random alignments (sparse, dense, functions, link counts above one, empty "
                "sentences) and random extraction options; distinct by alignment and options")
    exe = ctx.build("wa")
    P = ctx.prefix(progs=["thot_gen_phr_model"], scripts=True)
    ctx.workers(exe, 900 * ctx.pick(1, 20), n=8, timeout=ctx.pick(400, 3000), env={"VERIF_PREFIX": P})
    ctx.require(phrase_pairs=100000, segmented_pairs=4000, sentence_pairs=6000, table_entries=30000, tool_estimations=300, parallel_estimations=80,
                long_sentences=100, model_entries=50000, two_steps=2000, distinct=8000)
