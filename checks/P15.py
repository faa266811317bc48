"""Tuning: MIRA, downhill simplex, and the tools that set the weights of the models."""
import math, os, re, subprocess
import srv
from tools import cases

def fl(s):
    return [float(x) for x in s.split()]


# ---------------------------------------------------------------- thot_dhs_min
def dhs(c):
    r = c.r
    n = r.randint(1, 4)
    fixed = [r.random() < .3 for _ in range(n)]
    if all(fixed):
        fixed[r.randrange(n)] = False
    opt = [round(r.uniform(-1.5, 1.5), 3) for _ in range(n)]
    val = [round(r.uniform(-1, 1), 3) if f else None for f in fixed]
    iv = [round(r.uniform(-1, 1), 3) for _ in range(n)]
    fn = c.write("f.sh", "#!/bin/bash\nshift\n[ -f FAIL ] && exit 1\necho \"$@\" >> calls\necho \"$@\" | awk -v o='%s' '{n=split(o,a,\" \"); v=0; for(i=1;i<=n;++i) v+=($i-a[i])^2*(1+i/2); printf\"%%.12g\\n\",v}'\n"
                 % " ".join(map(str, opt)))
    os.chmod(fn, 0o755)
    va = ["-0" if v is None else str(v) for v in val]
    useiv = r.random() < .7
    a = ["-va", *va] + (["-iv", *map(str, iv)] if useiv else []) + ["-u", fn, "-ftol", r.choice(["0.01", "0.0001"])]
    os.makedirs(c.path("tmp"), exist_ok=True)
    f = lambda x: sum((p - q) ** 2 * (1 + (i + 1) / 2) for i, (p, q) in enumerate(zip(x, opt)))
    c.tool("thot_dhs_min", *a, "-o", "o", "-tdir", c.path("tmp"))
    got = fl(c.read("o.out"))
    calls = [fl(l) for l in c.read("calls").splitlines()]
    if len(got) != n or any(v is not None and abs(v - g) > 1e-5 for v, g in zip(val, got)):
        c.fail("dhs:fixed", "solution %s for variables %s" % (got, va))
    for x in calls:
        if len(x) != n or any(v is not None and abs(v - g) > 1e-5 for v, g in zip(val, x)):
            c.fail("dhs:fixed", "the target function is called with %s for variables %s" % (x, va))
    if useiv and any(v is None and abs(i - g) > 1e-5 for v, i, g in zip(val, iv, calls[0])):
        c.fail("dhs:start", "initial values %s, the first evaluation is at %s" % (iv, calls[0]))
    best = min(map(f, calls))
    if f(got) > best + 1e-4 * (1 + best):
        c.fail("dhs:best", "solution %s has value %g, the best evaluation %g" % (got, f(got), best))
    start = f(calls[0])
    if best > start:
        c.fail("dhs:worse", "value %g at %s, the first evaluation is %g" % (best, got, start))
    c.ctx.count("dhs_improved", best < start)
    img = c.read("o.img").splitlines()
    if len(img) != len(calls) or any(abs(float(v) - f(x)) > 1e-3 * (1 + f(x)) for v, x in zip(img, calls)):
        c.fail("dhs:log", "%d values in o.img, %d evaluations" % (len(img), len(calls)))
    # going on with the values of an interrupted run costs the evaluations that are missing and gives the same result
    k = r.randrange(len(img))
    c.write("part", "".join(x + "\n" for x in img[:k]))
    os.unlink(c.path("calls"))
    c.tool("thot_dhs_min", *a, "-o", "p", "-r", "part", "-tdir", c.path("tmp"))
    more = [fl(l) for l in c.read("calls").splitlines()]
    if c.read("p.out") != c.read("o.out") or c.read("p.img") != c.read("o.img") or more != calls[k:]:
        c.fail("dhs:resume", "resumed after %d of %d values it evaluates %d points and ends at %s instead of %s" % (k, len(img), len(more), c.read("p.out"), c.read("o.out")))
    if os.listdir(c.path("tmp")):
        c.fail("dhs:tmp", "left behind: %s" % os.listdir(c.path("tmp")))
    c.write("FAIL", "")
    if c.tool("thot_dhs_min", *a, "-o", "q", "-tdir", c.path("tmp"), ok=None).rc == 0 or os.path.exists(c.path("q.out")):
        c.fail("dhs:error", "no error when the target function fails")
    c.ctx.count("dhs_runs")
    c.ctx.count("dhs_evaluations", len(calls))
    c.ctx.distinct(("dhs", tuple(va), tuple(got)))


# ---------------------------------------------------------------- thot_lm_weight_upd
def ppl(c, lm, order, f):
    o = c.tool("thot_ilm_perp", "-c", f, "-lm", lm, "-n", order, "-jm").text()
    return float(re.search(r"Perplexity: (\S+)", o).group(1))


def lm(c):
    r = c.r
    order, nb, size = r.randint(1, 3), r.choice([1, 1, 2, 3]), r.choice([1, 2, 5])
    V = [chr(97 + i) for i in range(r.randint(2, 8))]
    zipf = lambda: V[min(int(r.expovariate(.6)), len(V) - 1)]
    text = lambda n: "".join(" ".join(zipf() for _ in range(r.randint(1, 8))) + "\n" for _ in range(n))
    c.write("train", text(r.randint(3, 60)))
    c.write("dev", text(r.randint(1, 20)))
    c.write("lm", c.tool("thot_get_ngram_counts", "-c", "train", "-n", order).out)
    w = [r.uniform(.05, .95) for _ in range(order * nb)]
    head = "%d %d %f" % (order, nb, size)
    c.write("lm.weights", head + " " + " ".join("%f" % x for x in w) + "\n")
    before = ppl(c, "lm", order, "dev")
    data = c.read("lm")
    o = c.tool("thot_lm_weight_upd", "-lm", "lm", "-c", "dev", "-v")
    if c.read("lm") != data:
        c.fail("lm:counts", "the counts change")
    l = c.read("lm.weights").split()
    if len(l) != 3 + len(w) or [float(x) for x in l[:3]] != fl(head):
        c.fail("lm:file", "weights %r, before %s %s" % (l, head, w))
    new = [float(x) for x in l[3:]]
    if any(not 0 <= x < 1.0000005 for x in new):
        c.fail("lm:range", "weights %s" % new)
    after = ppl(c, "lm", order, "dev")
    it = re.findall(r"weights= (.*?) ; perp= (\S+)", o.err)
    if not it:
        c.note(o.err[-2000:])
        c.fail("lm:trace", "nothing is evaluated")
    if any(abs(x - y) > 1e-5 for x, y in zip(fl(it[0][0]), w)) or abs(float(it[0][1]) - before) > 1e-3 * before:
        c.fail("lm:start", "starts with %s and perplexity %s, the weights are %s and the perplexity %g" % (it[0] + (w, before)))
    best = min(float(p) for _, p in it)
    if after > best * (1 + 2e-4) + 1e-3:
        c.fail("lm:best", "perplexity %g with the new weights, %g with the old ones, %g was reached" % (after, before, best))
    if after > before * (1 + 2e-4) + 1e-3:
        c.fail("lm:worse", "perplexity %g, before %g" % (after, before))
    c.ctx.count("lm_updates")
    c.ctx.count("lm_evaluations", len(it))
    if after < before * .999:
        c.ctx.count("lm_improved")
    c.ctx.distinct(("lm", tuple(l), before))


# ---------------------------------------------------------------- thot_li_weight_upd
def li(c):
    r = c.r
    sv, tv, ss, ts = srv.toy(c, r)
    l0 = fl(c.read("tm.lambda"))
    k = r.sample(range(len(ss)), r.randint(2, min(6, len(ss))))
    c.write("ds", "".join(" ".join(ss[i]) + "\n" for i in k))
    c.write("dt", "".join(" ".join(ts[i]) + "\n" for i in k))
    keep = {f: open(c.path(f), "rb").read() for f in os.listdir(c.d) if f != "tm.lambda"}
    o = c.tool("thot_li_weight_upd", "-tm", c.path("tm"), "-t", "ds", "-r", "dt", "-v")
    it = [(fl(a), float(b)) for a, b in re.findall(r"weights= (\S+ \S+) ; perp= (\S+)", o.err)]
    l1 = fl(c.read("tm.lambda"))
    if len(it) < 3 or len(l1) != 2 or any(not 0 <= x < 1.0000005 for x in l1):
        c.note(o.err[-3000:])
        c.fail("li:weights", "weights %s after %d evaluations" % (l1, len(it)))
    if any(abs(x - y) > 1e-4 for x, y in zip(it[0][0], l0)):
        c.fail("li:start", "starts with %s, the weights are %s" % (it[0], l0))
    best = min(v for _, v in it)
    near = [v for x, v in it if max(abs(p - q) for p, q in zip(x, l1)) < 2e-5 * (1 + max(l1))]
    if not near or min(near) > best + 1e-4 * abs(best):
        c.fail("li:best", "weights %s have value %s, the best value was %g" % (l1, near, best))
    for f, b in keep.items():
        if open(c.path(f), "rb").read() != b:
            c.fail("li:file", "%s changes" % f)
    # started from its result it finds nothing worse, and does it again alike
    c.write("tm.lambda", " ".join("%g" % x for x in l0) + "\n")
    c.tool("thot_li_weight_upd", "-tm", c.path("tm"), "-t", "ds", "-r", "dt")
    if fl(c.read("tm.lambda")) != l1:
        c.fail("li:repeat", "weights %s, the first time %s" % (c.read("tm.lambda"), l1))
    o = c.tool("thot_li_weight_upd", "-tm", c.path("tm"), "-t", "ds", "-r", "dt", "-v")
    it2 = [float(b) for a, b in re.findall(r"weights= (\S+ \S+) ; perp= (\S+)", o.err)]
    if abs(it2[0] - best) > 1e-3 * abs(best) + 1e-4:
        c.fail("li:reload", "the weights reach %g when they are loaded, %g when they were found" % (it2[0], best))
    c.ctx.count("li_updates")
    c.ctx.count("li_evaluations", len(it))
    if best < it[0][1]:
        c.ctx.count("li_improved")
    c.ctx.distinct(("li", tuple(l1)))


# ---------------------------------------------------------------- thot_ll_weight_upd
def nbl(t):
    """Header names and entries (scores, rest of the line) of an n-best list."""
    l = t.splitlines()
    names = [x.split()[-2] for x in l[0].split(" , ")]
    e = []
    for x in l[1:]:
        a, b = x.split(" ||| ", 1)
        e.append((tuple(float(y) for y in b.split(" ||| ")[0].split()), b))
    return names, e


def trans(b):
    return b.rsplit("||| ", 1)[-1] if "||| " in b else ""


def ll(c):
    r = c.r
    sv, tv, ss, ts = srv.toy(c, r, nsent=r.choice([6, 12]))
    m = r.randint(1, 4)
    k = [r.randrange(len(ss)) for _ in range(m)]
    c.write("ds", "".join(" ".join(ss[i]) + "\n" for i in k))
    c.write("dt", "".join(" ".join(x if r.random() < .7 else x[::-1]) + "\n" for x in (ts[i] for i in k)))
    cfg = srv.cfg(c, r)
    os.makedirs(c.path("tmp"))
    os.makedirs(c.path("sd"))
    w0 = c.tool("thot_server", "-c", cfg, "-w").text().splitlines()[0]
    names = [x.split()[-1][:-1] if x.split()[-1].endswith(":") else x for x in re.findall(r"(\S+:) \S+", w0)]
    vals = re.findall(r"\S+: (-?[\d.e+-]+)", w0)
    N = len(vals)
    va = [r.random() < .8 for _ in range(N)] if r.random() < .5 else None
    it = r.randint(1, 4)
    a = ["-c", cfg, "-t", "ds", "-r", "dt", "-n", r.choice([5, 20]), "-i", it, "-tdir", c.path("tmp"), "-sdir", c.path("sd"), "-debug"]
    if va:
        a += ["-va", *("1" if x else "0" for x in va)]
    if r.random() < .3:
        a += ["-pr", 2]
        if m < 2:
            a[-1] = 1
    o = c.tool("thot_ll_weight_upd", *a, timeout=300)
    c.note(o.err[-6000:])
    D = os.path.join(c.path("tmp"), os.listdir(c.path("tmp"))[0])
    rd = lambda *p: open(os.path.join(D, *p), encoding="utf-8", errors="replace").read()
    W = [[x for x in re.findall(r"\S+: (\S+)", l)] for l in re.findall(r"current weights: (.*)", o.err)]
    Q = [float(x) for x in re.findall(r"Current translation quality: (\S+)", o.err)]
    if len(W) != len(Q) or not 1 <= len(Q) <= it or any(len(w) != N for w in W):
        c.fail("ll:trace", "%d iterations of at most %d with weights %s and qualities %s" % (len(W), it, W, Q))
    if any((va and not va[i] and float(W[0][i]) != 0) or ((not va or va[i]) and abs(float(W[0][i]) - float(vals[i])) > 1e-5) for i in range(N)):
        c.fail("ll:start", "starts with %s, the system has %s and -va is %s" % (W[0], vals, va))
    if va and any(float(w[i]) != 0 for w in W for i in range(N) if not va[i]):
        c.fail("ll:excluded", "weights %s with -va %s" % (W, va))
    cum = [set() for _ in range(m)]
    for j, (w, q) in enumerate(zip(W, Q), 1):
        fw = [float(x) for x in w]
        out = []
        for i in range(m):
            f = os.path.join(D, "nblist", "%d_%06d.nbl" % (j, i + 1))
            if not os.path.exists(f):
                c.fail("ll:lists", "no n-best list of sentence %d in iteration %d: %s" % (i + 1, j, sorted(os.listdir(os.path.join(D, "nblist")))))
            _, e = nbl(open(f, encoding="utf-8").read())
            cum[i] |= {b for _, b in e}
            sc = [sum(x * y for x, y in zip(s, fw)) for s, _ in e]
            out.append((e, sc))
        best = rd("%d_best_trans" % j).splitlines()
        if len(best) != m:
            c.fail("ll:best", "%d best translations of %d sentences" % (len(best), m))
        for i, (e, sc) in enumerate(out):
            ok = {trans(b).strip() for (s, b), x in zip(e, sc) if x >= max(sc) - 1e-4 * (1 + abs(max(sc)))} if e else {""}
            if best[i].strip() not in ok:
                c.fail("ll:best", "iteration %d, sentence %d: %r is taken for the best of the n-best list, %r is" % (j, i + 1, best[i], ok))
        c.write("bt", "".join(x + "\n" for x in best))
        qq = float(c.tool("thot_scorer", "-r", "dt", "-t", "bt").text().split()[1])
        if abs(qq - q) > 1e-5:
            c.fail("ll:quality", "iteration %d: quality %g, the best translations score %g" % (j, q, qq))
        # the translations of the iteration are those of these weights
        if j in (1, len(W)):
            c.tool("thot_decoder", "-c", cfg, "-t", "ds", "-o", "dec", "-sdir", c.path("sd"), "-tmw", *w)
            if c.read("dec") != rd("trans", "%d_thot_decoder_out" % j):
                c.fail("ll:decode", "iteration %d: the translations with weights %s are %r, in the iteration %r" % (j, w, c.read("dec"), rd("trans", "%d_thot_decoder_out" % j)))
        if j < len(W):
            # the new weights are those of all the lists so far
            for i in range(m):
                c.write("cur%d" % i, open(os.path.join(D, "nblist", "1_%06d.nbl" % (i + 1))).read().splitlines()[0] + "\n" + "".join("- ||| " + b + "\n" for b in sorted(cum[i], key=lambda b: ("- ||| " + b).encode())))
                if j == 1:
                    c.write("cur%d" % i, open(os.path.join(D, "nblist", "1_%06d.nbl" % (i + 1))).read())
            c.write("curl", "".join(c.path("cur%d" % i) + "\n" for i in range(m)))
            u = c.tool("thot_ll_weight_upd_nblist", "-w", *w, *(["-va", *("1" if x else "0" for x in va)] if va else []), "-nb", "curl", "-r", "dt").text().split()[2:]
            if u != W[j]:
                c.fail("ll:update", "iteration %d updates %s to %s, the n-best lists so far give %s" % (j, w, W[j], u))
    b = max(range(len(Q)), key=lambda j: (Q[j], -j))
    if o.text().split() != W[b]:
        c.fail("ll:result", "result %r, the weights of the best of the qualities %s are %s" % (o.text(), Q, W[b]))
    if len(Q) < it:
        top, run_ = Q[0], 1
        for x in Q[1:]:
            top, run_ = (x, 1) if x > top else (top, run_ + 1)
        if run_ < 4:
            c.fail("ll:stop", "stops after the qualities %s" % Q)
    if os.listdir(c.path("sd")):
        c.fail("ll:tmp", "left behind: %s" % os.listdir(c.path("sd")))
    # what is missing is reported, and nothing is made anywhere
    bad = list(map(str, a))
    k = r.randrange(4)
    if k == 0:
        bad[bad.index("-tdir") + 1] = c.path("nodir")
    elif k == 1:
        bad[bad.index("-sdir") + 1] = c.path("nodir")
    else:
        bad[bad.index("-r" if k == 2 else "-c") + 1] = c.path("nofile")
    if c.tool("thot_ll_weight_upd", *bad, ok=None, timeout=300).rc == 0 or os.path.exists(c.path("nodir")):
        c.fail("ll:missing", "no error with %s" % " ".join(bad))
    c.ctx.count("ll_errors")
    c.ctx.count("ll_runs")
    c.ctx.count("ll_iterations", len(Q))
    c.ctx.count("ll_entries", sum(len(x) for x in cum))
    c.ctx.distinct(("ll", tuple(map(tuple, W)), tuple(Q)))


def run(ctx):
    ctx.rule = "random n-best lists, target functions, corpora and toy systems; distinct by the weights found"
    exe = ctx.build("tune")
    P = ctx.prefix(progs=["thot_ll_weight_upd_nblist", "thot_lm_weight_upd", "thot_li_weight_upd", "thot_ilm_perp", "thot_gen_sw_model", "thot_dhs_step_by_step_min",
                          "thot_ms_dec", "thot_server", "thot_wg_proc", "thot_scorer"], scripts=True)
    n = ctx.pick(1, 15)
    E = {"VERIF_PREFIX": P}
    ctx.workers(exe, 100 * n, n=8, timeout=ctx.pick(250, 3000), env=E)
    ctx.workers(exe, 40 * n, n=8, mode="simplex", timeout=ctx.pick(250, 3000), env=E)
    ctx.workers(exe, 60 * n, n=8, mode="tool", timeout=ctx.pick(250, 3000), env=E)
    cases(ctx, "dhs", dhs, 12 * n, P)
    cases(ctx, "lm", lm, 40 * n, P)
    cases(ctx, "li", li, 24 * n, P)
    cases(ctx, "ll", ll, 8 * n, P)
    ctx.require(mira_updates=5000, mira_corpora=300, mira_sentences=30, empty_lists=40, scorer_0=50, scorer_1=50, scorer_2=50, scorer_3=50, moved=100,
                tool_updates=200, excluded=50, bad_inputs=50, simplex_runs=200, convex_runs=40, convex_solved=40, improved=100,
                dhs_runs=10, dhs_evaluations=200, lm_updates=30, lm_evaluations=500, lm_improved=10, li_updates=20, li_evaluations=300,
                ll_runs=8, ll_iterations=10, ll_entries=100, ll_errors=8)
