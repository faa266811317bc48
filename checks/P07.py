"""Word alignment models."""
import math, os, re, struct
import tools

SRC = ["a", "b", "c", "1", "\u00f1", ",", "<x>", "x_y", "%"]
TRG = ["A", "B", "C", "2", "\u00e7", ".", "<y>", "z'", "&"]


def vocab(c, n):
    d = {}
    for l in c.read(n).splitlines():
        f = l.split()
        d[f[1]] = int(f[0])
    return d


def lex(c, n):
    b = open(c.path(n), "rb").read()
    d = {}
    for i in range(0, len(b), 16):
        s, t, a, q = struct.unpack_from("=IIff", b, i)
        if (s, t) in d:
            c.fail("lexfile:dup", "entry (%d,%d) twice in %s" % (s, t, n))
        d[(s, t)] = (a, q)
    return d


def alig(c, n):
    b = open(c.path(n), "rb").read()
    d = {}
    for i in range(0, len(b), 20):
        p, sl, k, a, q = struct.unpack_from("=IIIff", b, i)
        d[(p, sl, k)] = (a, q)
    return d


def probs(c, pre):
    sv, tv = vocab(c, pre + ".svcb"), vocab(c, pre + ".tvcb")
    si, ti = {v: k for k, v in sv.items()}, {v: k for k, v in tv.items()}
    if len(si) != len(sv) or len(ti) != len(tv):
        c.fail("vocab:dup", "two words share a code in %s" % pre)
    lx = {(si[s], ti[t]): math.exp(a - b) for (s, t), (a, b) in lex(c, pre + ".hmm_lexnd").items()}
    al = {k: math.exp(a - b) for k, (a, b) in alig(c, pre + ".hmm_alignd").items()}
    return sv, tv, lx, al


def close(x, y, rel=4e-3, ab=2e-5):
    return abs(x - y) <= max(ab, rel * max(abs(x), abs(y)))


def compare(c, what, x, y):
    for name, a, b in (("lex", x[2], y[2]), ("alig", x[3], y[3])):
        for k in set(a) | set(b):
            u, v = a.get(k, 0), b.get(k, 0)
            if not close(u, v):
                c.fail("mr:" + name, "%s: parameter %r is %g in the single-process model and %g in the other" % (what, k, u, v))
            c.ctx.count("tool_parameters")


def hmm_lp(model, V, s, t, lf, af, p0, al3=None):
    """log p(t|s) without the sentence length term, by the forward recursion; also the best path."""
    sv, tv, lx, al = model
    n = len(s)

    def w(x, voc):
        return x if x in voc else "UNKNOWN_WORD"
    S = [w(x, sv) for x in s]
    T = [w(x, tv) for x in t]

    def pts(i, j):
        a = S[i - 1] if i <= n else "NULL"
        return (1 - lf) * lx.get((a, T[j]), 0) + lf / V

    def ap(p, i):
        if i > n and p and i - n != (p - n if p > n else p):
            return 0
        if i > n:
            u = p0 / n if p == 0 else p0
        else:
            u = al.get((p - n if p > n else p, n, i), 0) * (1 - p0)
        return (1 - af) * u + af / (2 * n if p == 0 else n + 1)
    N = 2 * n
    A = [ap(0, i) * pts(i, 0) for i in range(1, N + 1)]
    B = list(A)
    for j in range(1, len(T)):
        A = [sum(A[q - 1] * ap(q, i) for q in range(1, N + 1)) * pts(i, j) for i in range(1, N + 1)]
        B = [max(B[q - 1] * ap(q, i) for q in range(1, N + 1)) * pts(i, j) for i in range(1, N + 1)]
    if al3 is None:
        return math.log(sum(A)), math.log(max(B))
    # the best path with the given alignment
    ok = lambda i, j: (i > n) if al3[j] == 0 else i == al3[j]
    C = [ap(0, i) * pts(i, 0) * ok(i, 0) for i in range(1, N + 1)]
    for j in range(1, len(T)):
        C = [max(C[q - 1] * ap(q, i) for q in range(1, N + 1)) * pts(i, j) * ok(i, j) for i in range(1, N + 1)]
    return math.log(max(B)), math.log(max(max(C), 1e-300))


def slen_lp(c, f, slen, tlen):
    L = c.read(f).splitlines()
    h = L[1].split()
    ns, ss, ts = float(h[1]), float(h[4]), float(h[7])
    m = sd = None
    for l in L[2:]:
        g = l.split()
        if len(g) == 5 and int(g[0]) == slen and int(g[1]) >= 2:
            k, sw, m, sk = float(g[1]), float(g[2]), float(g[3]), float(g[4])
            sd = math.sqrt(sk * k / ((k - 1) * sw))
    if m is None:
        m = slen + (ts / ns - ss / ns if ns else 0)
        sd = m * .25
    if sd == 0:
        p = 1.0 if m - .5 < tlen + .5 - .5 <= m + .5 else 0.0
        if abs(tlen - m) == .5:
            return None
    else:
        cdf = lambda x: .5 * (1 + math.erf((x - m) / (sd * math.sqrt(2))))
        p = cdf(tlen + .5) - cdf(tlen - .5)
    return math.log(max(p, 1e-7))


def tool_case(c):
    r = c.r
    S, T = r.sample(SRC, r.randint(2, 6)), r.sample(TRG, r.randint(2, 6))
    n = r.randint(1, 9)
    ss = [[r.choice(S) for _ in range(r.randint(1, 5))] for _ in range(n)]
    ts = [[T[(S.index(x) * 2) % len(T)] if r.random() < .7 else r.choice(T) for x in s] + ([r.choice(T)] if r.random() < .3 else []) for s in ss]
    c.note("\n".join(" ".join(a) + " ||| " + " ".join(b) for a, b in zip(ss, ts)))
    c.write("s", "".join(" ".join(x) + "\n" for x in ss))
    c.write("t", "".join(" ".join(x) + "\n" for x in ts))
    it = r.randint(1, 4)
    opt, (lf, af, p0) = [], (0.1, 0.3, 0.1)
    if r.random() < .5:
        lf, af, p0 = r.choice([.05, .2, .6]), r.choice([.05, .2, .6]), r.choice([.05, .3])
        opt = ["-lf", lf, "-af", af, "-np", p0]
    o = c.tool("thot_gen_sw_model", "-s", "s", "-t", "t", "-eb", "-n", it, *opt, "-o", "one")
    one = probs(c, "one")
    for k, v in (("one.lsifactor", lf), ("one.asifactor", af), ("one.hmm_p0", p0)):
        if abs(float(c.read(k)) - v) > 1e-6:
            c.fail("option", "%s is %s after training with %s" % (k, c.read(k), v))
    # every source word's translations form a distribution
    tot = {}
    for (s, t), p in one[2].items():
        tot[s] = tot.get(s, 0) + p
    for s in {"NULL"} | {x for y in ss for x in y}:
        if not close(tot.get(s, 0), 1):
            c.fail("dist", "translations of %r add up to %g" % (s, tot.get(s, 0)))
    # map-reduce training: same model whatever the chunk size
    def ll(out, last=True):
        return [(float(a), float(b)) for a, b in re.findall(r"log-likelihood= (\S+) , norm-ll= (\S+)", out.err)]

    def likelihood(model, f, slm):
        known, tot = set(model[1]), 0
        for a, b in zip(ss, ts):
            sl = slen_lp(c, slm, len(a), len(b))
            if sl is None:
                return None
            tot += sl + hmm_lp(model, len(known), a, b, lf, af, p0)[0]
        return tot

    def check_ll(out, model, f, iters):
        v = ll(out)
        if len(v) != iters:
            c.fail("ll:lines", "%d log-likelihoods reported for %d iterations" % (len(v), iters))
        e = likelihood(model, f, f + ".slmodel")
        if e is not None:
            c.ctx.count("tool_likelihoods")
            if abs(v[-1][0] - e) > 5e-3 * (1 + abs(e)) or abs(v[-1][1] - e / n) > 5e-3 * (1 + abs(e / n)):
                c.fail("ll:value", "%s: log-likelihood %r reported, by definition %g (%g per sentence)" % (f, v[-1], e, e / n))
    check_ll(o, one, "one", it)
    # the other ways to train: the same model when they process the same pairs in the same steps
    k = r.randint(1, n + 2)
    rr = r.randint(1, n + 2)
    ways = {"conv": [], "mball": ["-mb", n + r.randint(0, 3)], "incr": ["-i"], "mb1": ["-mb", 1], "mbk": ["-mb", k]}
    if r.random() < .5:
        ways["incr_r"] = ["-i", "-r", rr]
        ways["inter"] = ["-i", "-r", rr, "-in"]
    res = {}
    for w, a in ways.items():
        i2 = 1 if w in ("inter", "incr_r") else it
        out = c.tool("thot_gen_sw_model", "-s", "s", "-t", "t", "-n", i2, *a, *opt, *(["-nl"] if w == "mb1" else []), "-o", w)
        res[w] = probs(c, w)
        if w == "mb1":
            if ll(out):
                c.fail("ll:nl", "log-likelihood reported in spite of -nl")
        else:
            check_ll(out, res[w], w, 1 if w == "inter" else i2)
        c.ctx.count("training_modes")
    compare(c, "-n %d, efficient or not" % it, one, res["conv"])
    compare(c, "-n %d and one mini-batch" % it, res["conv"], res["mball"])
    compare(c, "-i and -mb 1", res["incr"], res["mb1"])
    if "inter" in res:
        compare(c, "one interlaced and one plain incremental iteration", res["incr_r"], res["inter"])
    # training continues from saved models
    if it > 1:
        c.tool("thot_gen_sw_model", "-s", "s", "-t", "t", "-eb", "-n", it - 1, *opt, "-o", "part")
        c.tool("thot_gen_sw_model", "-s", "s", "-t", "t", "-l", "part", "-eb", "-n", 1, "-o", "rest")
        compare(c, "%d iterations, the last one after reloading" % it, one, probs(c, "rest"))
        c.ctx.count("training_continued")
    cs = r.choice([1, 2, 3, n, n + 3])
    c.tool("thot_gen_batch_sw_model_mr", "-s", "s", "-t", "t", "-n", it, "-c", cs, *opt, "-tdir", c.d, "-o", "mr")
    mr = probs(c, "mr")
    compare(c, "%d iterations, chunks of %d" % (it, cs), one, mr)
    c.ctx.count("mapreduce_models")
    # several processes: the same model, and its best alignments
    pr = r.randint(1, min(n, 4))
    os.mkdir(c.path("tmp"))
    os.mkdir(c.path("sd"))
    D = ["-tdir", c.path("tmp"), "-sdir", c.path("sd")]
    shu = ["-shu"] if r.random() < .4 else []
    c.tool("thot_pbs_gen_batch_sw_model", "-pr", pr, "-s", c.path("s"), "-t", c.path("t"), "-n", it, *opt, *shu, "-lc", cs, *D, "-o", c.path("pbs"))
    compare(c, "%d iterations, %d processes" % (it, pr), one, probs(c, "pbs"))
    for k, v in (("pbs.lsifactor", lf), ("pbs.asifactor", af), ("pbs.hmm_p0", p0)):
        if abs(float(c.read(k)) - v) > 1e-6:
            c.fail("option", "%s is %s after training with %s" % (k, c.read(k), v))
    c.tool("thot_pbs_gen_best_sw_alig", "-pr", pr, "-sw", c.path("pbs"), "-s", c.path("s"), "-t", c.path("t"), *shu, *D, "-o", c.path("pbs"))
    al3 = [x.split("\n") for x in re.split(r"(?m)^#.*\n", c.read("pbs.bestal"))[1:]]
    got = [(re.sub(r"\(\{[\d ]*\}\)", "", x[1]).split()[1:], x[0].split()) for x in al3]
    if sorted(got) != sorted(zip(ss, ts)) or (not shu and got != list(zip(ss, ts))):
        c.fail("bestal:pairs", "the alignments are of %r" % got)
    for (a, b), x in zip(got, al3):
        g = [[int(y) for y in z.split()] for z in re.findall(r"\(\{([\d ]*)\}\)", x[1])]
        if len(g) != len(a) + 1 or sorted(sum(g, [])) != list(range(1, len(b) + 1)):
            c.fail("bestal:form", "alignment %r of %r and %r" % (x, a, b))
        ali = [next(i for i, y in enumerate(g) if j in y) for j in range(1, len(b) + 1)]
        u, v = hmm_lp(probs(c, "pbs"), len(probs(c, "pbs")[1]), a, b, lf, af, p0, ali)
        if v < u - 5e-3 * (1 + abs(u)):
            c.fail("bestal:best", "the alignment %r of %r and %r has log-probability %g, the best one %g" % (ali, a, b, v, u))
        c.ctx.count("best_alignments")
    if os.listdir(c.path("tmp")) or os.listdir(c.path("sd")):
        c.fail("pbs:left", "left behind: %s" % (os.listdir(c.path("tmp")) + os.listdir(c.path("sd"))))
    c.ctx.count("process_models")
    for f in ("one", "mr"):
        for a, b in list(zip(ss, ts))[:2]:
            u, v = slen_lp(c, f + ".slmodel", len(a), len(b)), None
    # pruning keeps the n most likely translations above the cut-off, renormalised
    npr, cpr = r.randint(1, 3), r.choice([0, 0.05, 0.3])
    c.tool("thot_gen_batch_sw_model_mr", "-s", "s", "-t", "t", "-n", it, "-c", cs, "-npr", npr, "-cpr", cpr, *opt, "-tdir", c.d, "-o", "pr")
    pr = probs(c, "pr")
    by = {}
    for (s, t), p in mr[2].items():
        by.setdefault(s, []).append((p, t))
    for s, l in by.items():
        kept = {t: p for (x, t), p in pr[2].items() if x == s}
        l.sort(reverse=True)
        want = [p for p, t in l if p >= cpr][:npr]
        near = any(abs(p - cpr) < 1e-3 for p, t in l)
        if not near and len(kept) != len(want):
            c.fail("prune:size", "%d translations of %r kept, %d expected (n %d c %g: %r)" % (len(kept), s, len(want), npr, cpr, l))
        if kept and not near:
            if not close(sum(kept.values()), 1):
                c.fail("prune:dist", "pruned translations of %r add up to %g" % (s, sum(kept.values())))
            z = sum(want)
            for p, t in l:
                if t in kept and not close(kept[t], p / z):
                    c.fail("prune:prob", "p(%s|%s) is %g after pruning, expected %g" % (t, s, kept[t], p / z))
                if t in kept and p < want[-1] - 1e-4:
                    c.fail("prune:order", "%r kept for %r although better ones were cut" % (t, s))
    c.ctx.count("pruned_models")
    # the scoring tool
    f = r.choice(["one", "mr", "pr"])
    model = probs(c, f)
    pairs = list(zip(ss, ts))[:2] + [([r.choice(S + ["unseen"]) for _ in range(r.randint(1, 4))], [r.choice(T + ["unseen"]) for _ in range(r.randint(1, 4))]) for _ in range(2)]
    c.write("pairs", "".join("%s ||| %s\n" % (" ".join(a), " ".join(b)) for a, b in pairs))
    for mx in ([], ["-max"]):
        out = c.tool("thot_calc_swm_lgprob", "-sw", f, "-P", "pairs", *mx).text()
        vals = [float(l.rsplit("|||", 1)[1]) for l in out.splitlines() if l.count("|||") == 2]
        if mx and not vals:
            vals = [float(x) for x in re.findall(r"(-?[\d.]+(?:e[+-]?\d+)?)\s*$", "\n".join(l for l in out.splitlines() if l.startswith("#")), re.M)]
        if len(vals) != len(pairs):
            c.note(out)
            c.fail("lgprob:lines", "%d scores for %d pairs" % (len(vals), len(pairs)))
        known = set(model[1])       # the models give every new word of a query a code
        for (a, b), v in zip(pairs, vals):
            known |= set(b)
            sl = slen_lp(c, f + ".slmodel", len(a), len(b))
            if sl is None:
                continue
            e = sl + hmm_lp(model, len(known), a, b, lf, af, p0)[1 if mx else 0]
            if abs(e - v) > 5e-3 * (1 + abs(e)):
                c.fail("lgprob:value" + (":max" if mx else ""), "%s: %r ||| %r scores %g, by definition %g (length %g)" % (f, a, b, v, e, sl))
            c.ctx.count("tool_scores")
    c.ctx.distinct(("tools", ss, ts, it, cs))


def run(ctx):
    ctx.rule = ("random parallel corpora (1-7 pairs, unknown and odd words, fractional and repeated weights), model class, training schedule "
                "(batch, all, incremental with retraining and bounded memory), smoothing factors; distinct by model, corpus and schedule")
    exe = ctx.build("swm")
    P = ctx.prefix(progs=["thot_gen_sw_model", "thot_calc_swm_lgprob", "thot_sort_bin_ilextable", "thot_sort_bin_ihmmatable", "thot_merge_bin_ilextable",
                          "thot_merge_bin_ihmmatable", "thot_filter_bin_ilextable", "thot_gen_bin_lex_filter_info", "thot_prune_bin_ilextable", "thot_server"], scripts=True)
    T = ctx.pick(1, 15)
    ctx.workers(exe, 1000 * T, n=8, timeout=ctx.pick(200, 2000))
    tools.cases(ctx, "tools", tool_case, ctx.pick(32, 400), P)
    ctx.require(parameters_compared=200000, alignments_checked=10000, leveldb_models=300, mapreduce_models=20, process_models=20, distinct=2000, tool_scores=100, training_modes=20, tool_likelihoods=20, training_continued=5, large_corpora=35, long_corpora=45)
