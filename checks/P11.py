"""Edit distances and error-correction models against reference dynamic programming."""


def run(ctx):
    ctx.rule = ("random word sequences, user prefixes related or unrelated to them, complete or cut inside a word, and error models; "
                "a case is distinct by its two sequences and non-trivial because every one has a non-empty prefix")
    exe = ctx.build("ec")
    ctx.workers(exe, 5000 * ctx.pick(1, 20), n=8, timeout=ctx.pick(200, 3000))
    ctx.require(evaluations=20000, distinct=5000, corrections=20000, incremental_cells=100000, nbest_corrections=10000, char_pairs=3000, long_sentences=60, long_strings=25)
