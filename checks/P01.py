"""Phrase tables against a reference table of counts."""


def run(ctx):
    ctx.rule = ("random histories of add/increase/set/query/clear/reopen/kill operations over small phrase alphabets; a history "
                "is distinct by the hash of its operations and non-trivial when the table held at least two entries")
    exe = ctx.build("pt")
    T = ctx.pick(1, 12)
    ctx.workers(exe, 250 * T, n=4, mode="mem", timeout=ctx.pick(200, 1500))
    ctx.workers(exe, 120 * T, n=8, mode="ldb", timeout=ctx.pick(200, 1500))
    ctx.workers(exe, 120 * T, n=4, mode="bdb", timeout=ctx.pick(200, 1500))
    ctx.require(evaluations=1000, distinct=500, large_tables=18)
