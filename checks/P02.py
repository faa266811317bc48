"""On-disk phrase models and dictionaries against the text they were converted from."""


def run(ctx):
    ctx.rule = ("random phrase tables, filtered or not, with their segmentation tables, converted by the tools and loaded in random orders; "
                "a case is distinct by the numbers of entries, source and target phrases and non-trivial when both models of the case were compared")
    exe = ctx.build("pm")
    P = ctx.prefix(progs=["thot_ttable_to_leveldb", "thot_ttable_to_fbdb", "thot_dict_to_leveldb"], scripts=True)
    T = ctx.pick(1, 20)
    env = {"VERIF_PREFIX": P}
    ctx.workers(exe, 80 * T, n=8, mode="ldb", timeout=ctx.pick(250, 3000), env=env)
    ctx.workers(exe, 80 * T, n=8, mode="fbdb", timeout=ctx.pick(250, 3000), env=env)
    ctx.workers(exe, 15 * T, n=8, mode="dict", timeout=ctx.pick(250, 3000), env=env)
    ctx.require(evaluations=50000, distinct=300, loads=1000, second_loads=400, reopened=200, reconversions=100, nbest_queries=20000, dict_queries=3000, large_tables=6)
