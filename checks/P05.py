"""Word alignments."""
from tools import cases

SW, TW = ["casa", "la", "verde", "\u00f1u", ".", "({x"], ["house", "the", "green", "\u00e9", "."]


def entry(r):
    s, t = [r.choice(SW) for _ in range(r.randint(1, 6))], [r.choice(TW) for _ in range(r.randint(1, 6))]
    links = {(i, j) for i in range(len(s)) for j in range(len(t)) if r.random() < .3}
    nul = [j for j in range(len(t)) if not any(l[1] == j for l in links)]
    x = "NULL ({ %s}) " % "".join("%d " % (j + 1) for j in nul)
    for i, w in enumerate(s):
        x += "%s ({ %s}) " % (w, "".join("%d " % (j + 1) for j in range(len(t)) if (i, j) in links))
    return s, t, links, "# %s\n%s\n%s\n" % (r.choice(["1", "2.5", "Sentence pair (1) \u00f1"]), " ".join(t), x)


def convert(c):
    r = c.r
    E = [entry(r) for _ in range(r.randint(1, 5))]
    f = c.write("a.A3", "".join(e[3] for e in E))
    c.note("".join(e[3] for e in E))
    o = c.tool("thot_conv_giza_alig_file", "-g", f, "-f", "2").out.decode().split("\n")[:-1]
    if len(o) != len(E):
        c.fail("moses:lines", "%d lines for %d alignments" % (len(o), len(E)))
    for l, (s, t, k, _) in zip(o, E):
        g = [tuple(map(int, x.split("-"))) for x in l.split()]
        if len(g) != len(set(g)) or set(g) != k:
            c.fail("moses:links", "%s / %s: %r" % (s, t, l))
        c.ctx.count("converted_links", len(g))
    o = c.tool("thot_conv_giza_alig_file", "-g", f, "-f", "1").out.decode().split("\n")
    p = 0
    for s, t, k, x in E:
        if o[p] != x.split("\n")[0] or o[p + 1] != "trg: " + " ".join(t) or o[p + 2].split() != ["src:"] + s:
            c.fail("human:head", "%r" % o[p:p + 3])
        for n, j in enumerate(reversed(range(len(t)))):
            w = o[p + 3 + n].split()
            if w[-1] != t[j] or [int(v) for v in w[:len(s)]] != [int((i, j) in k) for i in range(len(s))]:
                c.fail("human:row", "row of %s: %r" % (t[j], o[p + 3 + n]))
        p += 4 + len(t)
        while p < len(o) and not o[p].startswith("#") and p + 1 < len(o):
            p += 1
    c.ctx.count("conversions")
    c.ctx.distinct(("conv", tuple(e[3] for e in E)))


def full(c):
    r = c.r
    E = [entry(r) for _ in range(r.randint(1, 5))]
    s = c.write("s", "".join(" ".join(e[0]) + "\n" for e in E))
    t = c.write("t", "".join(" ".join(e[1]) + "\n" for e in E))
    o = c.tool("thot_gen_exhaustive_giza_alig", "-s", s, "-t", t).out.decode().split("\n")
    for n, (a, b, _, _) in enumerate(E):
        w = ["NULL", "({", "})"]
        for x in a:
            w += [x, "({"] + [str(j + 1) for j in range(len(b))] + ["})"]
        if o[3 * n] != "# 1" or o[3 * n + 1].split() != b or o[3 * n + 2].split() != w:
            c.fail("exhaustive", "%r" % o[3 * n:3 * n + 3])
    c.ctx.count("full_alignments")


def run(ctx):
    ctx.rule = ("random matrices up to 6x6 (sparse, diagonal, functions, counts above one) under one to three operations, alignment files with headers, "
                "repetitions, mismatching and missing entries; distinct by operands and operation")
    exe = ctx.build("wa")
    P = ctx.prefix(progs=["thot_alig_op"], scripts=True)
    ctx.workers(exe, 3000 * ctx.pick(1, 20), n=8, mode="alig", timeout=ctx.pick(300, 3000), env={"VERIF_PREFIX": P})
    cases(ctx, "convert", convert, 60 * ctx.pick(1, 10), P)
    cases(ctx, "full", full, 16 * ctx.pick(1, 10), P)
    ctx.require(**{"op-" + k: 1500 for k in ("and", "or", "sum", "sym1", "sym2", "grd", "transpose", "xor")}, sequential_files=4000, exhaustive_files=2000,
                entries_read=40000, tool_runs=1500, parallel_runs=300, conversions=50, mismatches=1000, large_matrices=60, long_files=60, long_sentences=60)
