"""Evaluation metrics: classes and tools against their definitions."""
import collections, math, re
from tools import cases

WORDS = ["a", "b", "c", "d", "la", "The", "the", ".", "\u00e9", "\u4f60", "x_y", "0", "00", "|||", "%s", "-1"]


def grams(s, n):
    return collections.Counter(tuple(s[i:i + n]) for i in range(len(s) - n + 1))


def lev(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a):
        q = [i + 1]
        for j, y in enumerate(b):
            q.append(min(p[j + 1] + 1, q[j] + 1, p[j] + (x != y)))
        p = q
    return p[-1]


def close(a, b, t=2e-5):
    return abs(a - b) <= t * (1 + abs(b))


def files(c):
    r = c.r
    ws = r.sample(WORDS, r.randint(1, len(WORDS)))
    S, R = [], []
    big = r.choice([3, 8, 8, 20])
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        y = [r.choice(ws) for _ in range(r.randint(0, big))]
        k = r.random()
        if k < .3:
            x = list(y)
        elif k < .5:
            x = [r.choice(ws) for _ in range(r.randint(0, big))]
        else:
            x = [w for w in y if r.random() < .85]
            for _ in range(r.randint(0, 2)):
                x.insert(r.randint(0, len(x)), r.choice(ws))
        S.append(x)
        R.append(y)
    sp = lambda v: (" " * (r.random() < .05)) + (" " if r.random() < .9 else "  ").join(v)
    sl, rl = [sp(x) for x in S], [sp(x) for x in R]
    odd = r.random() < .15
    if odd:
        (sl if r.random() < .5 else rl).extend([sp([r.choice(ws)])] * r.randint(1, 3))
    end = "\n" if r.random() < .9 or not (sl[-1].strip() and rl[-1].strip()) else ""
    a, b = c.write("sys", "\n".join(sl) + end), c.write("ref", "\n".join(rl) + end)
    c.note("sys", sl, "ref", rl)
    return S, R, sl, rl, a, b, odd


def case(c):
    S, R, sl, rl, a, b, odd = files(c)
    bl = c.tool("thot_calc_bleu", "-r", b, "-t", a, ok=None)
    sc = c.tool("thot_scorer", "-r", b, "-t", a, ok=None)
    we = c.tool("thot_calc_wer", "-r", b, "-t", a, ok=None)
    sm = c.tool("thot_calc_bleu", "-r", b, "-t", a, "-sm", ok=None)
    if odd:
        for n, t in (("thot_calc_bleu", bl), ("thot_scorer", sc), ("thot_calc_wer", we)):
            if t.rc == 0 or t.rc is None or t.rc < 0:
                c.fail("lengths:" + n, "%s ended with %s on %d translations of %d references: %s" % (n, t.rc, len(sl), len(rl), t.text()[:200]))
        c.ctx.count("bad_lengths")
        return
    for n, t in (("thot_calc_bleu", bl), ("thot_scorer", sc), ("thot_calc_wer", we), ("thot_calc_bleu -sm", sm)):
        if t.rc != 0:
            c.fail("status", "%s ended with %s: %s" % (n, t.rc, t.err[-400:]))
    m, tot = [0] * 5, [0] * 5
    for x, y in zip(S, R):
        for n in range(1, 5):
            g, h = grams(x, n), grams(y, n)
            m[n] += sum(min(k, h[q]) for q, k in g.items())
            tot[n] += sum(g.values())
    ns, nr = sum(map(len, S)), sum(map(len, R))
    bp = 1.0 if ns >= nr else math.exp(1 - nr / ns) if ns else 0.0
    pr = [m[n] / tot[n] if tot[n] else 0.0 for n in range(1, 5)]
    bleu = bp * math.exp(sum(math.log(p) for p in pr) / 4) if all(pr) else 0.0
    f = re.match(r"BLEU= (\S+) , BP= (\S+) , (\S+) / (\S+) / (\S+) / (\S+)\s*$", bl.text())
    if not f:
        c.fail("bleu:print", "output %r" % bl.text())
    got = [float(x) for x in f.groups()]
    for g, w, what in zip(got, [bleu, bp] + pr, ["score", "brevity penalty"] + ["precision %d" % n for n in (1, 2, 3, 4)]):
        if not close(g, w):
            c.fail("bleu:tool", "%s %g, should be %g" % (what, g, w))
    f = re.match(r"Smoothed BLEU= (\S+)\s*$", sm.text())
    w = sum(pr[n - 1] / 2 ** (5 - n) for n in range(1, 5))
    if not f or not close(float(f.group(1)), w):
        c.fail("bleu:smoothed", "%r, should be %g" % (sm.text(), w))
    f = re.match(r"Score= (\S+)\s*$", sc.text())
    if not f:
        c.fail("scorer:print", "output %r" % sc.text())
    x = float(f.group(1))
    if not 0 <= x <= 1 + 1e-6:
        c.fail("scorer:range", "score %g" % x)
    if tot[4] and not close(x, bleu):
        c.fail("scorer", "score %g, BLEU is %g" % (x, bleu))
    ed = sum(lev(x, y) for x, y in zip(S, R))
    f = re.match(r"WER: (\S+) \( (\S+) / (\S+) \)\s*$", we.text())
    if not f or float(f.group(2)) != ed or float(f.group(3)) != nr or (nr and not close(float(f.group(1)), ed / nr)):
        c.fail("wer", "%r with %d edits of %d words" % (we.text(), ed, nr))
    if c.r.random() < .3:
        v = c.tool("thot_calc_wer", "-r", b, "-t", a, "-v", ok=None)
        ls = v.text().split("\n")
        if v.rc != 0 or len(ls) != len(S) + 2:
            c.fail("wer:verbose", "ended with %s: %s" % (v.rc, v.err[-300:]))
        for l, x, y in zip(ls, S, R):
            if y and not close(float(l.split(" ||| ")[0]), lev(x, y) / len(y)):
                c.fail("wer:verbose", "line %r, %d edits" % (l, lev(x, y)))
        c.ctx.count("verbose_runs")
    c.ctx.count("tool_corpora")
    c.ctx.count("matches", m[1])


def run(ctx):
    ctx.rule = ("random corpora of system and reference sentences over few words (copies, edits, shuffles, repetitions, empty and short sentences, odd blanks); "
                "a case is distinct by its numbers of sentences, words, edits and matches and non-trivial when it has both matches and edits")
    exe = ctx.build("me")
    P = ctx.prefix(progs=["thot_calc_bleu", "thot_scorer"], scripts=True)
    ctx.workers(exe, 600 * ctx.pick(1, 20), n=8, timeout=ctx.pick(250, 3000), env={"VERIF_PREFIX": P})
    cases(ctx, "tools", case, ctx.pick(250, 5000), P)
    ctx.require(evaluations=100000, corpora=4500, sentences=20000, identical_pairs=5000, tool_corpora=150, bad_lengths=4500, distinct=2000)
