"""Phrase-based decoder."""


def run(ctx):
    ctx.rule = ("random translation systems (1-2 language models, 1-2 phrase tables with word models, length and distortion models), search "
                "parameters, weights and sentences; distinct by configuration, request and best score")
    exe = ctx.build("dec")
    P = ctx.prefix(progs=["thot_dict_to_leveldb"], scripts=False)
    ctx.workers(exe, 450 * ctx.pick(1, 30), n=8, timeout=ctx.pick(250, 2500), env={"VERIF_PREFIX": P})
    ctx.require(hypotheses_checked=4000, optimum_free=800, optimum_ref=300, optimum_ver=300, optimum_prefix=300, next_translations=1500,
                repeats=1000, clones=500, distinct=1500, hypotheses_printed=500,
                requests_with_custom_features=600, requests_with_sentence_features=300, sentence_weights=250, leveldb_dictionaries_by_tool=30, long_sentences=60)
