"""Simulated users, n-best list tools and corpus statistics report what the data say."""
import collections, math, os, random, re, threading
import srv, tools
from tools import cases

U = {"LC_ALL": "C.UTF-8"}


# ---------------------------------------------------------------- the user that thot_cat_using_client simulates
def user(port, uid, s, r, of):
    """Accept the longest right prefix of the suggestion, type the next character, until the reference is a prefix of the suggestion."""
    h = srv.request(port, srv.START_CAT, uid, s)[0]
    seen, prev, ks, ma = [(h, "")], "", 0, 0
    while not of and not h.startswith(r):
        if ks > 190:
            return None
        n = 0
        while n < min(len(h), len(r)) and h[n] == r[n]:
            n += 1
        new = r[:n + 1]
        ma += len(new) - len(prev) > 1
        ks += 1
        h = srv.request(port, srv.ADD_STR, uid, new[len(prev):])[0]
        seen.append((h, new))
        prev = new
    return seen, ks, ma


def cat_case(c):
    r = c.r
    odd = r.random() < .5
    sv = r.sample(["a", "b", "c", "d", "e", "1", "\u00f1", ",", "x_y", "AB", "(", "%"] + ["&", "\\", "[", "a\\tb", "$", "*", "'"] * odd, r.randint(4, 7))
    tv = r.sample(["A", "B", "C", "Ab", "Abc", "2", "\u00e7", ".", "Bd", "a", "Cd"] + ["&", "\\", "/", "[x]", "A\\n", "^", "$1", "*", "?", "\"", "z'"] * odd, r.randint(4, 7))
    sv, tv, ss, ts = srv.toy(c, r, sv=sv, tv=tv)
    f = srv.cfg(c, r)
    S, R = [], []
    for _ in range(r.randint(1, 3)):
        i = r.randrange(len(ss))
        s = list(ss[i])[:4] if r.random() < .8 else [r.choice(sv) for _ in range(r.randint(1, 4))]
        t = list(ts[i])[:4] if r.random() < .5 else [r.choice(tv) for _ in range(r.randint(1, 4))]
        if r.random() < .4:
            t[r.randrange(len(t))] = r.choice(["new", "Zz\u00e1", "A"])
        S.append(" ".join(s))
        R.append(" ".join(t))
    c.write("t", "".join(x + "\n" for x in S))
    c.write("r", "".join(x + "\n" for x in R))
    of, tr, uid = r.random() < .2, r.random() < .3, r.choice([None, 3])
    c.note("S", S, "R", R, "of", of, "tr", tr)
    smt = r.random() < .25
    v = [srv.Server(c, c.P, f) for _ in range(2)] if not smt else [srv.Server(c, c.P, f), srv.Server(c, c.P, f)]
    try:
        a, b = v
        u = uid or 0
        if smt:
            want = []
            train = r.random() < .6
            o = c.tool("thot_smt_using_client", "-i", "127.0.0.1", "-p", a.port, *(["-uid", uid] if uid else []), "-t", "t", *(["-r", "r"] if train else []), env=U).text()
            for s, t in zip(S, R):
                want.append(srv.request(b.port, srv.TRANSLATE, u, s)[0])
                if train:
                    srv.request(b.port, srv.OL_TRAIN, u, s, t)
            if o != "".join(x + "\n" for x in want):
                c.fail("smt", "the translations are %r, asked one by one %r" % (o, want))
            c.ctx.count("smt_sentences", len(S))
            c.ctx.distinct(("smt", o))
            return
        o = c.tool("thot_cat_using_client", "-i", "127.0.0.1", "-p", a.port, *(["-uid", uid] if uid else []), "-t", "t", "-r", "r", *(["-of"] if of else []), *(["-tr"] if tr else []),
                   env=U, timeout=300)
        for x in re.findall(r"(?:^|\n)[^\n]*(?:fatal|syntax error|integer expression|unterminated|unknown option)[^\n]*", o.err):
            if "division by zero" not in x:
                c.fail("cat:error", "reports %r" % x.strip())
        text = o.text()
        KS = MA = CH = 0
        hyps = []
        parts = re.split(r'<TestSample number="(\d+)" InitializationTime="[\d.]+">\n', text)
        if [int(x) for x in parts[1::2]] != list(range(1, len(S) + 1)):
            c.fail("cat:sentences", "reports on the sentences %s of %d" % (parts[1::2], len(S)))
        for i, (s, t, x) in enumerate(zip(S, R, parts[2::2])):
            w = user(b.port, u, s, t, of)
            if w is None:
                c.fail("cat:end", "sentence %d: more than 190 key strokes for %r" % (i + 1, t))
            seen, ks, ma = w
            m = re.match(r"<source>            (.*) </source>\n<reference>         (.*) </reference>\n((?:<hyp time=\"[\d.]*\">.*</hyp>\n)+)(.*)</TestSample>\n\n([^\n]*)\n([^\n]*)\n", x, re.S)
            if not m or m.group(1) != s or m.group(2) != t:
                c.fail("cat:print", "sentence %d: %r" % (i + 1, x[:300]))
            got = re.findall(r"<hyp time=\"[\d.]*\">  (.*) </hyp>", m.group(3))
            want = [h[:max(0, len(p) - 1)] + "^" + h[max(0, len(p) - 1):] for h, p in seen]
            if got != want:
                c.fail("cat:hyps", "sentence %d (%r, reference %r): the suggestions are %r, to the same user the server gives %r" % (i + 1, s, t, got, want))
            hyps.append(seen[0][0])
            if tr:
                srv.request(b.port, srv.OL_TRAIN, u, s, t)
                cov = srv.request(b.port, srv.VERIFY_COV, u, s, t)[0]
                again = srv.request(b.port, srv.START_CAT, u, s)[0]
                q = re.match(r"<train time=\"[\d.]+\">\n<hcov time=\"[\d.]+\"> (.*) </hcov>\n<retrans> (.*) </retrans>\n$", m.group(4))
                if not q or q.group(1).rstrip() != cov.rstrip() or q.group(2).rstrip() != again.rstrip():
                    c.fail("cat:train", "sentence %d: after training prints %r, the server gives %r and %r" % (i + 1, m.group(4), cov, again))
                c.ctx.count("cat_trainings")
            elif m.group(4):
                c.fail("cat:more", "sentence %d: also prints %r" % (i + 1, m.group(4)))
            if not of:
                KS += ks
                MA += ma
                CH += len(t)
                n = i + 1
                p = "<!--(PARTIAL) Sent: %d ; Chars: %d ; key strokes: %d ; mouse actions: %d ; KS+MA: %d -->" % (n, len(t), ks, ma + 1, ks + ma + 1)
                q = "<!--(ACUM)    Sent: %d ; Chars: %d ; key strokes: %d ; mouse actions: %d ; KSMR: %.2f -->" % (n, CH, KS, MA + n, 100. * (KS + MA + n) / CH)
                if m.group(5) != p or m.group(6) != q:
                    c.fail("cat:counts", "sentence %d: prints %r and %r, the user's effort is %r and %r" % (n, m.group(5), m.group(6), p, q))
            c.ctx.count("cat_suggestions", len(seen))
        if not of:
            n = len(S)
            for w in ("KSMR (KS+MA+MAacc/CHARS): %.2f (%d+%d+%d/%d)\n" % (100. * (KS + MA + n) / CH, KS, MA, n, CH), "KSR (KS/CHARS): %.2f (%d/%d)\n" % (100. * KS / CH, KS, CH)):
                if w not in text:
                    c.fail("cat:total", "%r is missing in %r" % (w, text[-700:]))
        # the first suggestions
        c.write("res", o.out)
        g = c.tool("thot_get_sys_trans", "res", env=U).text()
        if g.split("\n") != [" ".join(x.split()) for x in hyps] + [""]:
            c.fail("cat:first", "the first suggestions are %r, thot_get_sys_trans gives %r" % (hyps, g))
        if not of and r.random() < .6:
            interval(c, "cat", "res", [(ks_, ma_, ch_) for ch_, ks_, ma_ in re.findall(r"PARTIAL\) Sent: \d+ ; Chars: (\d+) ; key strokes: (\d+) ; mouse actions: \d+ ; KS\+MA: (\d+)", text)])
        # the models as the training left them
        if tr and r.random() < .7:
            c.write("none", "")
            for x, sv_ in (("a", a), ("b", b)):
                if x == "a":
                    c.tool("thot_smt_using_client", "-i", "127.0.0.1", "-p", sv_.port, "-t", "none", "-pm", "x", env=U)
                else:
                    srv.request(sv_.port, srv.PRINT_MODELS, u)
                v_ = {n: c.read(n) for n in ("lm", "tm.ttable")}
                if x == "a":
                    first = v_
                    for n in v_:
                        os.unlink(c.path(n))
                elif {n: sorted(v_[n].splitlines()) for n in v_} != {n: sorted(first[n].splitlines()) for n in first}:
                    c.fail("cat:models", "the models printed with -pm are not those of the same history")
            c.ctx.count("cat_models")
        c.ctx.distinct(("cat", text.count("\n"), tuple(hyps)))
        c.ctx.count("cat_users")
    finally:
        for x in v:
            x.kill()


# ---------------------------------------------------------------- confidence intervals
def parse_interval(c, t, what):
    o = {}
    for k, p in (("mean", r"^Mean: (\S+)$"), ("sd", r"^stDev: (\S+)$"), ("95", r"^conf\.int\.95 = \[ (\S+) , (\S+) \] (\S+) \+- (\S+)$"), ("90", r"^conf\.int\.90 = \[ (\S+) , (\S+) \] (\S+) \+- (\S+)$")):
        m = re.findall(p, t, re.M)
        if len(m) != 1:
            c.fail(what + ":print", "no %s in %r" % (k, t[-600:]))
        o[k] = [float(x) for x in m[0]] if isinstance(m[0], tuple) else float(m[0])
    for k in ("95", "90"):
        l, u, ce, ra = o[k]
        if not (l <= u and abs(ce - (l + u) / 2) < 2e-6 and abs(ra - (u - l) / 2) < 2e-6):
            c.fail(what + ":interval", "conf.int.%s is [%g,%g] %g +- %g" % (k, l, u, ce, ra))
    if o["95"][0] > o["90"][0] or o["95"][1] < o["90"][1]:
        c.fail(what + ":nested", "the 95%% interval %s does not contain the 90%% interval %s" % (o["95"], o["90"]))
    return o


def check_interval(c, what, o, N, lo, hi, draw):
    """o: what is printed; draw(): one value of the measure on a random subset; [lo,hi]: its range."""
    for x in (o["mean"], *o["95"][:2], *o["90"][:2]):
        if not lo - 2e-6 <= x <= hi + 2e-6:
            c.fail(what + ":range", "%g is not between %g and %g: %s" % (x, lo, hi, o))
    if N == 2:
        l, u = o["95"][:2]
        if abs(o["mean"] - (l + u) / 2) > 3e-6 or abs(o["sd"] - (u - l) / math.sqrt(2)) > 1e-5 or o["90"][:2] != o["95"][:2]:
            c.fail(what + ":two", "of two subsets: %s" % o)
        return
    X = sorted(draw() for _ in range(3000))
    m = sum(X) / len(X)
    sd = math.sqrt(sum((x - m) ** 2 for x in X) / len(X))
    tol = 6 * sd * math.sqrt(1. / N + 1. / len(X)) + 1e-4 * (1 + abs(m))
    if abs(o["mean"] - m) > tol:
        c.fail(what + ":mean", "mean %g of %d subsets, it should be %g +- %g" % (o["mean"], N, m, tol))
    F = lambda y: sum(1 for x in X if x <= y + 1e-4) / float(len(X))
    G = lambda y: sum(1 for x in X if x < y - 1e-4) / float(len(X))
    for k, q in (("95", .025), ("90", .05)):
        rk = int(q * N + 1)
        p = rk / (N + 1.)
        d = 6 * math.sqrt(p * (1 - p) / N) + .01 + 2. / N
        l, u = o[k][:2]
        if F(l) < p - d or G(l) > p + d or 1 - G(u) < p - d or 1 - F(u) > p + d:
            c.fail(what + ":quantile", "conf.int.%s of %d subsets is [%g,%g]: %.3f are below, %.3f are above" % (k, N, l, u, G(l), 1 - F(u)))
    if sd > 1e-6 and N >= 20 and not .3 * sd < o["sd"] < 3 * sd:
        c.fail(what + ":sd", "standard deviation %g, it should be near %g" % (o["sd"], sd))


def interval(c, kind, f, V, f2=None):
    r = c.r
    N = r.choice([2, 2, 30, 60, 200] if kind == "cat" else [2, 2, 20, 40])
    Sz = r.choice([1, len(V), len(V), 2 * len(V)])
    seed = r.randint(1, 30000)
    if kind == "cat":
        V = [tuple(map(int, x)) for x in V]
        meas = r.choice([None, "KSR", "KSMR"])
        j = 0 if meas == "KSR" else 1
        a = ["thot_conf_interv_cat", seed, f, Sz, N] + ([meas] if meas else [])
        val = lambda L: 100. * sum(x[j] for x in L) / sum(x[2] for x in L)
        lo, hi = min(val([x]) for x in V), max(val([x]) for x in V)
        std = ["%f" % (100. * sum(x[k] for x in V) / sum(x[2] for x in V)) for k in (1, 0)]
    else:
        a = ["thot_conf_interv_smt", seed, f, f2, Sz, N]
        val = lambda L: round(bleu(L), 6)
        lo, hi = 0, 1
        std = None
    t = c.tool(*a, timeout=300).text()
    if c.tool(*a, timeout=300).text() != t:
        c.fail(kind + "int:seed", "two runs with one seed differ")
    o = parse_interval(c, t, kind + "int")
    h = t.split("\n")
    if h[0] != "Random seed: %d" % seed or h[2] != "Standard evaluation:" or (std and h[3:5] != std) or (not std and abs(float(h[3].split()[1]) - bleu(V)) > 2e-5):
        c.fail(kind + "int:standard", "prints %r, the standard evaluation is %r" % (h[:6], std or bleu(V)))
    rr = random.Random("%s/%s" % (c.i, seed))
    check_interval(c, kind + "int", o, N, lo, hi, lambda: val([rr.choice(V) for _ in range(Sz)]))
    if left(c):
        c.fail(kind + "int:tmp", "left behind: %s" % left(c))
    c.ctx.count(kind + "_intervals")
    c.ctx.distinct((kind, t))


def left(c):
    return [x for x in os.listdir(c.d) if re.match(r"tmp\.|tmpfile|thot_", x)]


def bleu(L):
    """BLEU of pairs (reference, translation)."""
    ok, tot = [0] * 4, [0] * 4
    rl = sl = 0
    for a, b in L:
        rl += len(a)
        sl += len(b)
        for n in range(1, 5):
            A = collections.Counter(tuple(a[i:i + n]) for i in range(len(a) - n + 1))
            B = collections.Counter(tuple(b[i:i + n]) for i in range(len(b) - n + 1))
            ok[n - 1] += sum(min(A[x], B[x]) for x in B)
            tot[n - 1] += sum(B.values())
    if not all(ok):
        return 0.
    return (1 if sl >= rl else math.exp(1 - rl / float(sl))) * math.exp(sum(math.log(x / float(y)) for x, y in zip(ok, tot)) / 4)


def smtint_case(c):
    r = c.r
    W = ["a", "b", "c", "d", "e"]
    n = r.randint(2, 12)
    R = [[r.choice(W) for _ in range(r.randint(4, 9))] for _ in range(n)]
    T = [[x if r.random() < .85 else r.choice(W) for x in y] if r.random() < .8 else list(y) for y in R]
    if r.random() < .15:
        T = R
    c.write("r", "".join(" ".join(x) + "\n" for x in R))
    c.write("t", "".join(" ".join(x) + "\n" for x in T))
    interval(c, "smt", "r", list(zip(R, T)), "t")


def catint_case(c):
    """CAT results of many sentences, as thot_cat_using_client prints them."""
    r = c.r
    V, t = [], []
    for i in range(r.randint(2, 25)):
        ch = r.randint(1, 80)
        ks = r.randint(0, ch)
        ma = 1 + (r.randint(0, ks) if ks else 0)
        V.append((ks, ks + ma, ch))
        t.append("<TestSample number=\"%d\">\n<!--(PARTIAL) Sent: %d ; Chars: %d ; key strokes: %d ; mouse actions: %d ; KS+MA: %d -->\n" % (i + 1, i + 1, ch, ks, ma, ks + ma))
        t.append("<!--(ACUM)    Sent: %d ; Chars: 1 ; key strokes: 2 ; mouse actions: 3 ; KSMR: 4.00 -->\n\n" % (i + 1))
    c.write("res", "".join(t))
    interval(c, "cat", "res", V)


# ---------------------------------------------------------------- n-best lists
def num(x):
    return "%.6g" % x


def nbl_case(c):
    r = c.r
    m = r.randint(1, 5)
    names = r.sample(["w0", "w1", "w10", "lm", "nlm", "lm1", "lm11", "tm", "wp", "swlen", "slen", "pts", "xpts", "pst"], m)
    w = [float(num(r.choice([0, 1, -1, r.uniform(-2, 2), r.uniform(0, 1e-4)]))) for _ in range(m)]
    W = ["a", "b", "c", "<x>", "1", "\"", "\\", "|", "||", "&", "%d", "\u00f1"]
    seg = r.random() < .5
    scale = r.choice([1, 1, 1, 1e-6, 1e5])
    def entry():
        f = [float(num(r.choice([0, -1, r.uniform(-20, 0) * scale, r.uniform(-5, 5) * scale]))) for _ in range(m)]
        t = " ".join(r.choice(W) for _ in range(r.randint(1, 6)))
        g = " ".join("%d->%d" % (i, i + 1) for i in range(r.randint(1, 3))) if seg else None
        return f, g, t
    def line(e, first=None, wts=w):
        f, g, t = e
        return " ||| ".join([first or num(sum(a * b for a, b in zip(f, wts))), " ".join(map(num, f))] + ([g] if seg else []) + [t])
    E = [entry() for _ in range(r.choice([1, 2, 5, 30]))]
    E.sort(key=lambda e: -sum(a * b for a, b in zip(e[0], w)))
    head = "# " + " , ".join("%sw %s" % (n, num(x)) for n, x in zip(names, w))
    f = c.write("l", head + "\n" + "".join(line(e) + "\n" for e in E))
    # other weights
    v = [float(num(r.choice([0, 1, -1, r.uniform(-2, 2)]))) for _ in range(m)]
    wv = " ".join(map(num, v))
    o = c.tool("thot_rescore_nbest", wv, stdin=c.read("l")).text().split("\n")
    if o[0] != "# " + wv or len(o) != len(E) + 2 or o[-1]:
        c.fail("rescore:lines", "%d lines of %d entries, header %r" % (len(o) - 1, len(E), o[0]))
    sc = []
    for e, l in zip(E, o[1:]):
        x, rest = l.split(" ||| ", 1)
        s = sum(a * b for a, b in zip(e[0], v))
        if abs(float(x) - s) > 1e-5 * sum(abs(a * b) for a, b in zip(e[0], v)) + 1e-12 or rest != line(e).split(" ||| ", 1)[1]:
            c.fail("rescore:entry", "%r becomes %r, its score with %s is %g" % (line(e), l, wv, s))
        sc.append(float(x))
    best = c.tool("thot_obtain_best_trans_from_nbl", "l", wv).text()
    ok = [e[2] for e, s in zip(E, sc) if s == max(sc)]
    if best[:-1] not in ok or best[-1] != "\n":
        c.fail("best", "the best translation with weights %s is %r, it should be %s" % (wv, best, ok))
    c.ctx.count("nbl_best")
    # one more component, and back
    add = [float("%.6f" % r.uniform(-5, 5)) for _ in E]
    c.write("scr", "".join("%g\n" % x for x in add))
    nm = r.choice([x for x in ["rnn", "rnnlm", "lm", "zz", "w", "pts0"] if x not in names])
    g = c.tool("thot_augment_nblist", "-n", "l", "-a", nm + "w", "-s", "scr").text()
    G = g.split("\n")
    if G[0] != head + " , %sw 1" % nm or len(G) != len(E) + 2:
        c.fail("augment:lines", "%d lines of %d entries, header %r" % (len(G) - 1, len(E), G[0]))
    for e, a, l in zip(E, add, G[1:]):
        x = l.split(" ||| ")
        s = sum(p * q for p, q in zip(e[0], w)) + float("%g" % a)
        if abs(float(x[0]) - s) > 2e-6 + 1e-5 * abs(s) or x[1] != " ".join(map(num, e[0])) + " %g" % a or x[2:] != line(e).split(" ||| ")[2:]:
            c.fail("augment:entry", "%r with %g becomes %r" % (line(e), a, l))
    full = list(zip(names + [nm], w + [1.], range(m + 1)))
    k = r.randrange(m + 1)
    d = c.tool("thot_remove_nbl_component", "-c", full[k][0], stdin=g).text().split("\n")
    if d[0] != "#" + " ,".join(" %sw %s" % (n, num(x)) for n, x, i in full if i != k) or len(d) != len(E) + 2:
        c.fail("remove:lines", "without %s: %d lines of %d entries, header %r" % (full[k][0], len(d) - 1, len(E), d[0]))
    for e, a, l in zip(E, add, d[1:]):
        ff = e[0] + [float("%g" % a)]
        x = l.split(" ||| ")
        s = sum(p * q for j, (p, q) in enumerate(zip(ff, w + [1.])) if j != k)
        y = [float(z) for z in x[1].split()]
        want = [p for j, p in enumerate(ff) if j != k]
        if abs(float(x[0]) - s) > 2e-6 + 1e-5 * abs(s) or len(y) != len(want) or any(abs(p - q) > 1e-6 for p, q in zip(y, want)) or x[2:] != line(e).split(" ||| ")[2:]:
            c.fail("remove:entry", "%r without component %d of %s becomes %r" % (line(e), k, full, l))
    # the sentences
    if not seg:
        t = c.tool("/usr/bin/env", "bash", "-c", "%s l" % c.bin("thot_extract_sents_from_nbl")).text()
        if t != "".join(e[2] + "\n" for e in E):
            c.fail("sents", "the sentences are %r, in the list %r" % (t, [e[2] for e in E]))
    # union
    E2 = [r.choice(E) if r.random() < .5 else entry() for _ in range(r.randint(1, 8))]
    w2 = [x * 2 for x in w]
    c.write("l2", "# " + " , ".join("%sw %s" % (n, num(x)) for n, x in zip(names, w2)) + "\n" + "".join(line(e, None, w2) + "\n" for e in E2))
    u = c.tool("thot_merge_nbest_list", "l", "l2").text().split("\n")
    want = sorted({line(e, "-") for e in E + E2}, key=lambda x: x.encode())
    if u[0] != "# " + " , ".join("%sw -" % n for n in names) or u[1:] != want + [""]:
        c.fail("merge", "the union of the lists is %r, it should be %r" % (u, want))
    c.write("l3", "# " + " , ".join("%sw 1" % (n + "x") for n in names) + "\n" + "".join(line(e) + "\n" for e in E2))
    x = c.tool("thot_merge_nbest_list", "l", r.choice(["l3", "missing"]), ok=None)
    if x.rc == 0 or x.out:
        c.fail("merge:error", "two lists that cannot be merged give status %s and %r" % (x.rc, x.text()[:300]))
    c.ctx.count("nbl_entries", len(E))
    c.ctx.distinct(("nbl", best, len(E), seg, tuple(v)))
    # the target function of many lists
    if r.random() < .5:
        os.mkdir(c.path("nbl"))
        os.mkdir(c.path("sd"))
        T, ref = [], []
        for i in range(r.randint(1, 4)):
            X = [entry() for _ in range(r.randint(1, 6))]
            c.write("nbl/%06d.nbl" % i, head + "\n" + "".join(line(e) + "\n" for e in X))
            T.append(c.tool("thot_obtain_best_trans_from_nbl", "nbl/%06d.nbl" % i, wv).text()[:-1])
            ref.append(r.choice(X)[2])
        c.write("ref", "".join(x + "\n" for x in ref))
        nn = [r.randint(0, 1) for _ in range(m)] if r.random() < .6 else None
        pf = r.choice([None, 7])
        o = c.tool("thot_dhs_nbl_rescore", "sd", *map(num, v), env={"NBL_DIR": "nbl", "REF": "ref", **({"NON_NEG_CONST": " ".join(map(str, nn))} if nn else {}),
                                                                  **({"NNC_PEN_FACTOR": str(pf)} if pf else {})}).text()
        c.write("tt", "".join(x + "\n" for x in T))
        s = 1 - float(c.tool("thot_scorer", "-r", "ref", "-t", "tt").text().split()[1])
        pen = sum(-x * (pf or 1000) for x, y in zip(v, nn or []) if y and x < 0)
        if abs(float(o) - s - pen) > 1e-5 * (1 + abs(pen)):
            c.fail("trgfunc", "the target function of %s (non-negative: %s) is %s, the translations %r have %g, the penalty is %g" % (wv, nn, o, T, s, pen))
        if os.listdir(c.path("sd")):
            c.fail("trgfunc:tmp", "left behind: %s" % os.listdir(c.path("sd")))
        c.ctx.count("nbl_functions")
        # weights tuned on the lists
        def quality(x):
            T = [c.tool("thot_obtain_best_trans_from_nbl", "nbl/%06d.nbl" % i, " ".join(x)).text()[:-1] for i in range(len(ref))]
            c.write("tt", "".join(x + "\n" for x in T))
            return 1 - float(c.tool("thot_scorer", "-r", "ref", "-t", "tt").text().split()[1])
        dhs = m < 4 and r.random() < .5
        c.tool("thot_nblist_tune", "-n", "nbl", "-t", "ref", "-o", "tuned", "-tdir", "sd", *(["-dhs"] if dhs else []))
        o = c.read("tuned/llweights_tune.out").strip()
        x = o.split(": ")[-1].split()
        if len(x) != m or not all(math.isfinite(float(y)) for y in x):
            c.fail("tune:weights", "tuning %d weights gives %r" % (m, o))
        if dhs:
            neg = [n for n, y in zip(names, x) if float(y) < 0 and n + "w" not in ("wpw", "tseglenw")]
            a, b = quality(x), quality(["1"] * m)
            if a > b + 1e-6 or neg and a + 1000 * max(-float(y) for n, y in zip(names, x) if n in neg) > b + 1e-6:
                c.fail("tune:worse", "tuning from 1 ends with %s: %g, it was %g" % (x, a, b))
        else:
            s = float(c.read("tuned/llweights_tune.scr"))
            if abs(s - quality(x)) > 1e-5:
                c.fail("tune:score", "the weights %s have %g, the score given is %g" % (x, quality(x), s))
            d = c.tool("thot_ll_weight_upd_nblist", "-w", *map(num, w), "-va", *["1"] * m, "-nb", "tuned/nbl_filenames.txt", "-r", "ref").text().strip()
            if d != o or c.read("tuned/nbl_filenames.txt").split("\n") != ["nbl/%06d.nbl" % i for i in range(len(ref))] + [""]:
                c.fail("tune:update", "the weights are %r, updating the ones of the lists gives %r" % (o, d))
        if os.listdir(c.path("sd")):
            c.fail("tune:tmp", "left behind: %s" % os.listdir(c.path("sd")))
        c.ctx.count("nbl_tunings")


def wg_case(c):
    """n-best lists of real word graphs: segmentation and constraints; the graph exported."""
    r = c.r
    q = r.random() < .4
    sv, tv, ss, ts = srv.toy(c, r, tv=r.sample(["A", "B", "C", "Ab", "2", "\u00e7", ".", "a"], r.randint(3, 6)) + (["\"", "\\"] if q else []))
    T = []
    plain = []
    for _ in range(r.randint(1, 3)):
        s = [r.choice(sv) for _ in range(r.randint(1, 6))]
        plain.append(list(s))
        if r.random() < .6:
            i = r.randrange(len(s))
            j = min(len(s), i + r.randint(1, 2))
            s[i:j] = ["<phr_pair_annot>", "<src_segm>", *s[i:j], "</src_segm>", "<trg_segm>", r.choice(tv), *([r.choice(["A", "Q"])] if r.random() < .4 else []), "</trg_segm>", "</phr_pair_annot>"]
        T.append(s)
    c.write("t", "".join(" ".join(x) + "\n" for x in T))
    c.tool("thot_ms_dec", "-tm", "tm", "-lm", "lm", "-t", "t", "-W", r.choice([2, 10, 100]), "-S", 50, "-nomon", r.choice([0, 1, 3]), "-wg", "g")
    for i in range(1, len(T) + 1):
        p = "g_%06d" % i
        text = c.read(p + ".wg").splitlines()
        arcs = [l.split(" ||| ") for l in text[2 if text[0].startswith("#") else 1:]]
        x = c.tool("thot_export_wordgraph", p + ".wg", 0).text().split("\n")
        body = x[4:-2]
        want = []
        for l in text[2 if text[0].startswith("#") else 1:]:
            f = l.split()
            want.append((f[0], f[1], " ".join("/" if z == "|||" else z for z in f[2:])))
        got = []
        for l in body:
            m = re.match(r'^(\d+) -> (\d+) \[ label = "((?:[^"\\]|\\.)*)" \];$', l)
            if not m:
                c.fail("export:syntax", "not an edge of a graph: %r" % l)
            got.append((m.group(1), m.group(2), re.sub(r"\\(.)", r"\1", m.group(3))))
        if x[:2] != ["digraph word_graph {", "rankdir=LR;"] or x[-2:] != ["}", ""] or x[2] != "node [shape = doublecircle]; %s;" % text[1 if text[0].startswith("#") else 0] or got != want:
            c.fail("export", "exports %d edges of %d arcs; the first that differs: %s" % (len(got), len(want), next(((a, b) for a, b in zip(got, want) if a != b), x[:4])))
        c.ctx.count("exported_arcs", len(got))
        c.tool("thot_wg_proc", "-w", p + ".wg", "-n", 20, "-o", "x")
        L = c.read("x.nbl").splitlines()
        E = [l.split(" ||| ") for l in L[1:]]
        if not E or any(len(e) != 4 or not e[3].strip() for e in E):
            continue
        idx = {}
        for l in c.read(p + ".idx").splitlines()[2:]:
            f = l.split()
            idx[f[0]] = f[1]
        I = c.tool("thot_get_nblist_segm_info", "-n", "x.nbl", "-p", p).text().splitlines()
        if I[0] != L[0] or len(I) != len(L):
            c.fail("segm:lines", "%d lines of %d" % (len(I), len(L)))
        by = {}
        for l in arcs:
            by.setdefault("->".join(l[0].split()[:2]), []).append(l[-1].split())
        al = []
        for l, e, o in zip(L[1:], E, I[1:]):
            if not o.startswith(l + " ||| "):
                c.fail("segm:entry", "%r becomes %r" % (l, o))
            info = o[len(l) + 5:]
            seg, cuts = info.split(" | ")
            seg = [tuple(map(int, y)) for y in re.findall(r"\( (\d+) , (\d+) \)", seg)]
            cuts = [int(y) for y in cuts.split()]
            st = e[2].split()
            w = e[3].split()
            if len(seg) != len(st) or len(cuts) != len(st) or cuts[-1] != len(w):
                c.fail("segm:cuts", "%r has the cuts %s and %d words" % (l, cuts, len(w)))
            for j, s in enumerate(st):
                if w[(cuts[j - 1] if j else 0):cuts[j]] not in by[s]:
                    c.fail("segm:phrase", "%r: segment %d of cuts %s is not a phrase of the arc %s: %s" % (l, j, cuts, s, by[s]))
                a, b = [idx[y] for y in s.split("->")]
                n = max(len(a), len(b))
                new = {k for k in range(n) if (b[::-1] + "0" * n)[k] == "1" and (a[::-1] + "0" * n)[k] == "0"}
                if seg[j] != (min(new), max(new)):
                    c.fail("segm:source", "%r: arc %s covers %s, printed is %s" % (l, s, sorted(new), seg[j]))
            al.append(info)
            c.ctx.count("segmentations")
        # the entries that satisfy the constraints of the sentence, or others
        if r.random() < .6:
            s = plain[i - 1]
            a = r.randrange(len(s))
            b = min(len(s), a + r.randint(1, 2))
            y = r.choice(E)[3].split()
            k = r.randrange(len(y))
            T[i - 1] = s[:a] + ["<phr_pair_annot>", "<src_segm>", *s[a:b], "</src_segm>", "<trg_segm>", *y[k:k + r.randint(1, 2)], "</trg_segm>", "</phr_pair_annot>"] + s[b:]
            q = c.read(p + ".idx").split("\n", 1)
            h = q[0].split()
            c.write("h.idx", " ".join(h[:3] + T[i - 1]) + "\n" + q[1])
            c.write("h.wg", c.read(p + ".wg"))
            c.note(q[0], T[i - 1])
            p = "h"
        c.write("s1", " ".join(T[i - 1]) + "\n")
        c.write("tr", "".join(e[3] + "\n" for e in E))
        c.write("al", "".join(a + "\n" for a in al))
        k = c.tool("thot_check_constraints", "-s", "s1", "-t", "tr", "-a", "al").text().splitlines()
        if len(k) != len(E):
            c.fail("filter:checks", "%d results for %d translations" % (len(k), len(E)))
        o = c.tool("thot_filter_nblist", "-n", "x.nbl", "-p", p).text().splitlines()
        keep = [l for l, y in zip(L[1:], k) if y != "CONSTRAINTS NOT SATISFIED"]
        if o != L[:1] + keep:
            c.fail("filter", "%d of %d entries kept, %d satisfy the constraints" % (len(o) - 1, len(E), len(keep)))
        c.ctx.count("filtered", len(E) - len(keep))
        c.ctx.count("kept", len(keep))
        c.ctx.distinct(("wg", len(arcs), len(E), L[1]))


# ---------------------------------------------------------------- statistics of corpora
def grams(C, n):
    o = collections.Counter()
    for l in C:
        x = ["<s>"] + l + ["</s>"]
        if n == 1:
            o.update((y,) for y in x)
        else:
            o.update(tuple(x[i:i + n]) for i in range(len(x) - n + 1))
    return o


def rates(Gs):
    return [sum(1 for v in g.values() if v > 1) / float(len(g)) if g else 0. for g in Gs]


def gm(x):
    return 0. if any(float("%f" % y) == 0 for y in x) else math.exp(sum(math.log(y) for y in x) / 4)


def unf(A, B):
    a, b = [grams(A, n) for n in (1, 2, 3, 4)], [grams(B, n) for n in (1, 2, 3, 4)]
    d = [collections.Counter({k: v for k, v in x.items() if k not in y}) for x, y in zip(a, b)]
    return a, d, [sum(y.values()) / float(sum(x.values())) if x else 0. for x, y in zip(a, d)]


def corpus(c, n, W, lo=0):
    r = c.r
    o = []
    for _ in range(n):
        o.append(list(r.choice(o)) if o and r.random() < .3 else [r.choice(W) for _ in range(r.randint(lo, 8))])
    return o


def stats_case(c):
    r = c.r
    W = r.sample(["a", "b", "c", "d", "e", "f", "&", "\u00f1", "1", "(", "corpus", "train", "*", "x\\"], r.randint(2, 12))
    A = corpus(c, r.choice([1, 2, 5, 20]), W, r.choice([0, 1, 3]))
    B = corpus(c, r.choice([1, 2, 5, 20]), W + r.choice([[], ["zz"]]), 1)
    fa = c.write("A", "".join(" ".join(x) + "\n" for x in A))
    fb = c.write("B", "".join(" ".join(x) + "\n" for x in B))
    o = c.tool("thot_repetition_rate", "-c", "A", "-t", "B")
    a, d, fr = unf(A, B)
    def line(nm, g):
        j = lambda v: "/".join(v)
        return "%s ; statistics for n-grams (n=1...4): Totals: %s ; Distinct: %s ; Singletons: %s ; Rates: " % (
            nm, j("%d" % sum(x.values()) for x in g), j("%d" % len(x) for x in g), j("%d" % sum(1 for v in x.values() if v == 1) for x in g))
    L = o.text().split("\n")
    def approx(text, pre, want, tol=2e-6):
        v = [float(x) for x in text[len(pre):].split("/")]
        return text.startswith(pre) and len(v) == len(want) and all(abs(x - y) <= tol for x, y in zip(v, want))
    exp = [(line("A", a), rates(a), 2e-6), ("* RR(A)= ", [gm(rates(a))], 1.1e-3), ("* UNF(A,B)= ", [gm(fr)] + fr, None), (line("A , B", d), rates(d), 2e-6), ("* RRR(A,B)= ", [gm(rates(d))], 1.1e-3)]
    if len(L) != 6:
        c.fail("rr:lines", "prints %r" % L)
    for t, (pre, want, tol) in zip(L, exp):
        if tol is None:
            m = re.match(r"^\* UNF\(A,B\)= (\S+) ; (\S+)$", t)
            g = m and [float(x) for x in m.group(2).split("/")]
            if not m or abs(float(m.group(1)) - want[0]) > 1.1e-3 or len(g) != 4 or any(abs(x - y) > 2e-6 for x, y in zip(g, want[1:])):
                c.fail("rr:unf", "prints %r, the fractions are %s" % (t, want))
        elif not approx(t, pre, want, tol):
            c.fail("rr:stat", "prints %r, it should be %r %s" % (t, pre, want))
    if "fatal" in o.err:
        c.fail("rr:error", "reports %r" % o.err[-300:])
    if left(c):
        c.fail("rr:tmp", "left behind: %s" % left(c))
    c.ctx.count("repetition_rates")
    c.ctx.distinct(("rr", tuple(L)))
    # representativeness
    if r.random() < .5:
        Pn = corpus(c, r.randint(6, 25), W, 1)
        Sm = corpus(c, r.randint(1, 5), W + ["q"], 1)
        c.write("P", "".join(" ".join(x) + "\n" for x in Pn))
        c.write("S", "".join(" ".join(x) + "\n" for x in Sm))
        Ad = corpus(c, r.randint(5, 10), W + ["y"], 1) if r.random() < .5 else None
        if Ad:
            c.write("D", "".join(" ".join(x) + "\n" for x in Ad))
        o = c.tool("thot_corpus_represent", "-p", "P", "-s", "S", *(["-a", "D"] if Ad else []))
        sh = lambda f: [l.split() for l in c.tool("thot_shuffle", 31415, c.d, f).text().splitlines()]
        Q = sh("P")
        n = len(Sm)
        rows = [("Input Sample", Sm), ("Representative Sample", Q[:n])] + ([("Additional Sample", sh("D")[:n])] if Ad else [])
        got = re.findall(r"\* (.*)\n - Length in words        : (.*)\n - Unseen n-gram fraction : (.*)\n\n", o.text())
        if len(got) != len(rows):
            c.fail("represent:print", "prints %r" % o.text())
        for (nm, l, u), (wn, X) in zip(got, rows):
            w = gm(unf(X, Q[n:])[2])
            if nm != wn or l != str(sum(map(len, X))) or abs(float(u) - w) > 1.1e-3:
                c.fail("represent", "%s: %s words, unseen fraction %s; it has %d words and %.3f" % (nm, l, u, sum(map(len, X)), w))
        if left(c):
            c.fail("represent:tmp", "left behind: %s" % left(c))
        c.ctx.count("representations")
    # perplexity from the verbose output
    order = r.randint(1, 3)
    c.write("lm", c.tool("thot_get_ngram_counts", "-c", "B", "-n", order, *(["-unk"] if r.random() < .5 else [])).out)
    c.write("lm.weights", "%d 1 1000 %s\n" % (order, " ".join("%g" % r.uniform(.1, .9) for _ in range(order))))
    A2 = [[x for x in l if x not in ("P(",)] for l in A]
    o = c.tool("thot_ilm_perp", "-c", "A", "-lm", "lm", "-n", order, "-v1")
    c.write("v", o.err + o.text())
    g = dict(re.findall(r"^(.*?): (.*)$", c.tool("thot_obtain_info_from_verbose_ppl", "v").text(), re.M))
    q = dict(re.findall(r"^\* (.*?): (.*)$", o.text(), re.M))
    pr = [(m[0], float(m[1])) for m in re.findall(r"^   P\( (\S+) \|.*\) = (\S+) \S+$", o.err, re.M)]
    oov = [p for w, p in pr if w == "<unk>"]
    lp = sum(math.log10(p) for w, p in pr)
    lo = sum(math.log10(p) for p in oov)
    n = len(pr)
    ns = sum(1 for x in A if x)
    if int(q["Number of sentences"]) != ns or int(q["Number of words"]) != n - ns or n - ns != sum(map(len, A)) or abs(float(q["Total log10 prob"]) - lp) > 1e-3 * (1 + n):
        c.fail("ppl:verbose", "the sums %r are not those of the %d probabilities in %d sentences (%g)" % (q, n, ns, lp))
    want = {"Sentences": ns, "Words": n - ns, "OOV words": len(oov)}
    for k, v in want.items():
        if int(g[k]) != v:
            c.fail("ppl:count", "%s: %s, there are %d" % (k, g[k], v))
    e = lambda l, m: 10 ** (-l / m)
    if abs(float(g["log10prob"]) - lp) > .051 + 1e-3 * n or abs(float(g["log10prob of OOV words"]) - lo) > .051 + 1e-3 * n:
        c.fail("ppl:log", "log10prob %s and %s, they are %g and %g" % (g["log10prob"], g["log10prob of OOV words"], lp, lo))
    for k, l, m, t in (("Perplexity", lp, n, .07), ("Perplexity without OOV words", lp - lo, n - len(oov), .14)):
        if n and not e(l + t + 1e-3 * n, m) - .06 <= float(g[k]) <= e(l - t - 1e-3 * n, m) + .06:
            c.fail("ppl:" + k.replace(" ", "-"), "%s: %s, it is %g" % (k, g[k], e(l, m)))
    # the target functions of language models, and a parallel run
    if n:
        os.mkdir(c.path("td"))
        w = c.read("lm.weights").split()[3:]
        bad = r.random() < .3
        if bad:
            w[r.randrange(order)] = r.choice(["-0.1", "-1e-3", "1", "1.5"] if (jm := r.random() < .6) else ["-0.1", "-2"])
        else:
            jm = r.random() < .6
        pw = r.choice([None, 0, 1])
        env = {"LM": "lm", "TEST": "A", "ORDER": str(order), **({"NUMBUCK": "1", "BUCKSIZE": "1000"} if jm else {}), **({"PPL_WITH_OOVW": str(pw)} if pw is not None else {})}
        x = c.tool("thot_dhs_trgfunc_jmlm" if jm else "thot_dhs_trgfunc_interplm", "td", *([] if jm else [order, 1, 1000]), *w, env=env).text().strip()
        want = "999999" if bad else g["Perplexity without OOV words" if pw == 0 else "Perplexity"]
        if x != want:
            c.fail("ppl:function", "the target function of %s gives %r, it should be %s (%s)" % (w, x, want, env))
        if bad:
            c.tool("thot_pbs_ilm_perp", "-lm", "lm", "-c", "A", "-n", order, "-jm", "-v1", "-o", "td/verbose_ppl", "-tdir", "td", "-sdir", "td")
        cut = lambda s: re.sub(r"\* Retrieving time.*", "", s)
        if cut(c.read("td/verbose_ppl")) != cut(o.text()) or re.findall(r"^   P.*", c.read("td/verbose_ppl.ilmp_err"), re.M) != re.findall(r"^   P.*", o.err, re.M):
            c.fail("ppl:parallel", "thot_pbs_ilm_perp gives %r, thot_ilm_perp %r" % (c.read("td/verbose_ppl"), o.text()))
        if any(x.startswith("thot_") for x in os.listdir(c.path("td"))):
            c.fail("ppl:tmp", "left behind: %s" % os.listdir(c.path("td")))
        c.ctx.count("lm_functions")
    c.ctx.count("perplexities")
    c.ctx.count("oov_words", len(oov))
    # parallel corpora in one file
    k = min(len(A), len(B))
    c.write("A1", "".join(" ".join(x) + "\n" for x in A[:k]))
    c.write("B1", "".join(" ".join(x) + "\n" for x in B[:k]))
    o = c.tool("thot_format_corpus_csl", "A1", "B1").text()
    if o != "".join("%s ||| %s\n" % (" ".join(x), " ".join(y)) for x, y in zip(A, B)):
        c.fail("csl", "the pairs are %r" % o)


# ---------------------------------------------------------------- the log of concurrent requests
def log_case(c):
    r = c.r
    real = r.random() < .4
    if real:
        sv, tv, ss, ts = srv.toy(c, r)
        s = srv.Server(c, c.P, srv.cfg(c, r), args=["-v"])
        try:
            def go(u, q):
                for op, x in q:
                    srv.request(s.port, op, u, *x)
            th = []
            for u in range(r.randint(1, 4)):
                q = [(srv.START_CAT, (" ".join(r.choice(ss)),))]
                for _ in range(r.randint(1, 5)):
                    q.append(r.choice([(srv.RESET_PREF, ()), (srv.TRANSLATE, (" ".join(r.choice(ss)),)), (srv.ADD_STR, (r.choice(tv)[0],))]))
                th.append(threading.Thread(target=go, args=(u, q)))
            for t in th:
                t.start()
            for t in th:
                t.join()
        finally:
            v, rc = s.stop()
        text = s.text()
        text = re.sub(r"(?m)^(?!0x).*(?:SUMMARY|AddressSanitizer).*\n", "", text)
    else:
        T = ["0x7f%010x" % r.randrange(1 << 40) for _ in range(r.randint(1, 4))]
        P = {t: [] for t in T}
        for t in T:
            for k in range(r.randint(1, 4)):
                q = ["-" * 52, "Processing new request...", "Origin: 127.0.0.1"] + ["text %d %s" % (k, r.choice(["x", "\t", "0x12\t", "Elapsed time", "-" * 20])) for _ in range(r.randint(0, 4))]
                q.append("Elapsed time: %s secs" % r.choice(["0.5", "12.25", "0.000124", "3e-05", "5.1e-05", "1", "0", "1.2e-04"]))
                P[t] += [t + "\t" + x + "\n" for x in q]
        out = ["Listening\n"] * r.randint(0, 2)
        while any(P.values()):
            t = r.choice([t for t in T if P[t]])
            for _ in range(r.randint(1, 6)):
                if P[t]:
                    out.append(P[t].pop(0))
            if r.random() < .2:
                out.append("a line of no thread %d\n" % len(out))
        text = "".join(out)
    c.write("log", text)
    c.note(text[-3000:])
    o = c.tool("thot_serialize_server_log", "log").text()
    I, O = text.split("\n"), [l[1:] if l.startswith(" ") else l for l in o.split("\n")]
    norm = lambda L: collections.Counter(x.strip() for x in L if x.strip())
    if norm(I) != norm(O):
        c.fail("log:lines", "lines lost or more: %s" % list(((norm(I) - norm(O)) + (norm(O) - norm(I))).items())[:4])
    tid = lambda l: (re.match(r"(0x[0-9a-f]+)\t", l) or [None, None])[1]
    def requests(L):
        # (thread, lines) in order of start; lines of one thread are of its last request
        cur, o = {}, []
        for l in L:
            l = l.strip(" ")
            t = tid(l)
            if t is None:
                continue
            if re.search(r"\t-{52}$", l.rstrip()):
                cur[t] = [l]
                o.append((t, cur[t]))
            elif t in cur:
                cur[t].append(l)
        return o
    a, b = requests(I), requests(O)
    if a != b:
        c.fail("log:order", "the requests in order of start are %s, in the serial log %s" % ([x[0] for x in a], [x[0] for x in b]))
    # contiguous
    last, done = None, set()
    seq = []
    for l in O:
        l = l.strip(" ")
        t = tid(l)
        if t is None:
            continue
        if re.search(r"\t-{52}$", l.rstrip()):
            seq.append([t])
        elif seq and seq[-1][0] != t:
            c.fail("log:mixed", "line %r inside a request of thread %s" % (l, seq[-1][0]))
    c.ctx.count("logged_requests", len(a))
    c.ctx.count("real_logs", int(real))
    c.ctx.distinct(("log", len(I), tuple(x[0] for x in a) if not real else len(a)))


def run(ctx):
    ctx.rule = "random systems with simulated users, n-best lists, corpora and logs; distinct by what the tools print"
    P = ctx.prefix(progs=["thot_server", "thot_client", "thot_gen_sw_model", "thot_scorer", "thot_ms_dec", "thot_wg_proc", "thot_check_constraints", "thot_ilm_perp"], scripts=True)
    n = ctx.pick(1, 12)
    cases(ctx, "cat", cat_case, 32 * n, P)
    cases(ctx, "catint", catint_case, 20 * n, P)
    cases(ctx, "smtint", smtint_case, 12 * n, P)
    cases(ctx, "nbl", nbl_case, 40 * n, P)
    cases(ctx, "wg", wg_case, 24 * n, P)
    cases(ctx, "stats", stats_case, 24 * n, P)
    cases(ctx, "log", log_case, 40 * n, P)
    ctx.require(cat_users=10, cat_suggestions=60, cat_trainings=4, smt_sentences=4, cat_intervals=15, smt_intervals=8, nbl_best=20, nbl_entries=100, nbl_functions=8, exported_arcs=100,
                segmentations=50, kept=30, filtered=3, repetition_rates=15, representations=5, perplexities=15, logged_requests=60, real_logs=5)
