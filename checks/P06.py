"""n-gram language models."""
from collections import Counter
import tools

WORDS = ["a", "b", "1", "01", "1.0", "la", "casa", "\u00f1and\u00fa", ",", "||", "%", "x'y", "<unk>", "0", "-1", "ab", "\\", "*"]


def ref_counts(sents, n):
    ng, h = Counter(), Counter()
    for s in sents:
        p = ["<s>"] + s + ["</s>"]
        for e in range(len(p)):
            for k in range(1, n + 1):
                if k <= e + 1:
                    g = tuple(p[e + 1 - k:e + 1])
                    ng[g] += 1
                    h[g[:-1]] += 1
    return ng, h


def parse(c, text, what):
    got = {}
    for l in text.splitlines():
        f = l.split(" ")
        if len(f) < 3:
            c.fail("ngrams:%s:format" % what, "bad line %r" % l)
        g = tuple(f[:-2])
        if g in got:
            c.fail("ngrams:%s:dup" % what, "n-gram %r listed twice" % (g,))
        got[g] = (float(f[-2]), float(f[-1]))
    return got


def counts_case(c):
    r = c.r
    ws = r.sample(WORDS, r.randint(1, 6))
    sents = [[r.choice(ws) for _ in range(r.randint(1, 7))] for _ in range(r.randint(1, 9))]
    n = r.randint(1, 4)
    c.note("order", n, "corpus", sents)
    f = c.write("corpus", "".join(" ".join(s) + "\n" for s in sents))
    ng, h = ref_counts(sents, n)

    def check(text, what):
        got = parse(c, text, what)
        for g, v in ng.items():
            if g not in got:
                c.fail("ngrams:%s:missing" % what, "n-gram %r missing" % (g,))
            if got[g] != (h[g[:-1]], v):
                c.fail("ngrams:%s:count" % what, "n-gram %r has counts %r, expected %r" % (g, got[g], (h[g[:-1]], v)))
        if len(got) != len(ng):
            c.fail("ngrams:%s:extra" % what, "n-grams that are not in the corpus: %r" % [g for g in got if g not in ng][:5])
        c.ctx.count("ngram_files")

    one = c.tool("thot_get_ngram_counts", "-c", f, "-n", n).text()
    check(one, "single")
    mr = c.tool("thot_get_ngram_counts_mr", "-c", f, "-n", n, "-f", r.randint(1, 4), "-tdir", c.d).text()
    check(mr, "mr")
    # the model trained from the tool's file assigns the reference probability
    pre = c.write("lm", mr if r.random() < .5 else one)
    w = [r.randint(50, 950) / 1000 for _ in range(n)]
    c.write("lm.weights", "%d 1 0 %s\n" % (n, " ".join(map(str, w))))
    V = len({x for g in ng for x in g} | {"<unk>", "<s>", "</s>", "<sp_sym1>"})
    known = {x for g in ng for x in g}
    import math

    def p(hist, t):
        if hist and len(hist) >= n:
            hist = hist[-(n - 1):] if n > 1 else ()
        def rec(hh):
            cc, cg = h.get(hh, 0), ng.get(hh + (t,), 0)
            low = 1.0 / V if not hh else rec(hh[1:])
            wt = w[len(hh)]
            return wt * (cg / cc if cc and cg else 0) + (1 - wt) * low
        return rec(hist)
    test = [[r.choice(ws + ["unseen"]) for _ in range(r.randint(1, 6))] for _ in range(r.randint(1, 5))]
    tf = c.write("test", "".join(" ".join(s) + "\n" for s in test))
    tot, nw = 0.0, 0
    for s in test:
        q = ["<s>"] + [x if x in known else "<unk>" for x in s] + ["</s>"]
        for i in range(1, len(q)):
            tot += math.log10(p(tuple(q[max(0, i - n + 1):i]), q[i]))
        nw += len(s)
    o = c.tool("thot_ilm_perp", "-c", tf, "-lm", pre, "-n", n).text()
    d = dict(l[2:].rsplit(": ", 1) for l in o.splitlines() if l.startswith("* "))
    lp, pp = float(d["Total log10 prob"]), float(d["Perplexity"])
    ep = 10 ** (-tot / (nw + len(test)))
    if int(d["Number of sentences"]) != len(test) or int(d["Number of words"]) != nw or abs(lp - tot) > 1e-3 * (1 + abs(tot)) or abs(pp - ep) > 1e-3 * ep:
        c.fail("ngrams:perp", "thot_ilm_perp says %r; expected log10 %g perplexity %g words %d" % (d, tot, ep, nw))
    c.ctx.distinct(("counts", n, sents))


def run(ctx):
    ctx.rule = ("random corpora over a few words (numbers, punctuation, non-ASCII), orders 1-4, bucketed weights, fractional and large counts; "
                "distinct by corpus and order, non-trivial when probabilities were compared")
    exe = ctx.build("lm")
    P = ctx.prefix(progs=["thot_ngram_to_leveldb", "thot_ilm_perp"], factories=True)
    T = ctx.pick(1, 12)
    env = {"VERIF_PREFIX": P}
    ctx.workers(exe, 150 * T, n=8, mode="mem", timeout=ctx.pick(200, 2000), env=env)
    ctx.workers(exe, 70 * T, n=8, mode="ldb", timeout=ctx.pick(200, 2000), env=env)
    tools.cases(ctx, "counts", counts_case, ctx.pick(48, 600), P)
    ctx.require(probabilities=50000, distinct=300, leveldb_opens=100, ngram_files=60, high_orders=12, large_vocabularies=10)
