"""Corpus preparation: tokenizing, lowercasing, categorizing and their inverses, cleaning, shuffling, partitions."""
import collections, itertools, math, os, re
from tools import cases

# ---------------------------------------------------------------- text with known structure
WS = [" "] * 12 + ["  ", "\t", " \t ", "\xa0", "\u2003"]
ODD = ["\r", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u2029"]
LET = "abcdexyzABXéñßÀıστ"
PUN = list(",.;:!?()[]\"'%$/<>=_*") + ["...", "¿", "«", "€", "—", ":)", "Mr.", "a.m.", "e.g.", "1st", "U.S.", "<3", "||", "|||", "中", "文"]
DIG = "0123456789"


def word(r):
    k = r.random()
    if k < .45:
        return "".join(r.choice(LET) for _ in range(r.choice([1, 2, 3, 4, 7]) if r.random() > .005 else 90))
    if k < .6:
        return "".join(r.choice(DIG) for _ in range(r.choice([1, 1, 2, 4]))) + (r.choice([".", ","]) + r.choice(DIG) if r.random() < .3 else "")
    if k < .7:
        return "".join(r.choice(LET[:11] + DIG) for _ in range(r.choice([2, 3, 5])))
    if k < .8:
        return r.choice(["-3", "+5", "1e5", "3.14", "x-y", "a_b", "don't", "Bob's", "1.5kg", "nan", "12am", "Foo-bar-baz", "R&D", "<number>", "<digit>", "<phr_pair_annot>", "</src_segm>", "<b>", "&lt;"])
    return r.choice(PUN)


def glued(r):
    return "".join(word(r) for _ in range(r.choice([1, 1, 1, 2, 3])))


def plain(r, odd=True):
    n = r.choice([0, 1, 2, 3, 5, 9]) if r.random() > .01 else r.choice([40, 200])
    s = r.choice(WS) if r.random() < .1 else ""
    for i in range(n):
        s += glued(r)
        if i < n - 1:
            s += r.choice(ODD) if odd and r.random() < .04 else r.choice(WS)
    return s + (r.choice([" ", "\r", "\t"]) if r.random() < .08 else "")


def clean(s):
    """No annotation arises by accident from the words."""
    return s if not re.search(r"</?(phr_pair_annot|src_segm|trg_segm|length_limit|forbidden_words)>", s) else re.sub(r"[<>]", "", s)


def annotated(r):
    """Pieces of a line: text, or an annotation."""
    o = []
    for _ in range(r.choice([1, 1, 2, 3])):
        o.append(("t", clean(plain(r))))
        k = r.random()
        w = lambda: clean(" ".join(glued(r) for _ in range(r.choice([1, 1, 2, 3])))).replace("<", "").replace(">", "") or "w"
        if k < .3:
            o.append(("p", w(), w()))
        elif k < .4:
            o.append(("l", str(r.randint(0, 30))))
        elif k < .5:
            o.append(("f", w()))
    o.append(("t", clean(plain(r))))
    m = []
    for q in o:  # neighbouring text is one text
        if q[0] == "t" and m and m[-1][0] == "t":
            m[-1] = ("t", clean(m[-1][1] + q[1]))
        else:
            m.append(q)
    return m


def tags(p, r=None):
    sp = lambda: r.choice(["", " ", "  "]) if r else " "
    if p[0] == "p":
        return ["<phr_pair_annot>", sp(), "<src_segm>", sp(), p[1], sp(), "</src_segm>", sp(), "<trg_segm>", sp(), p[2], sp(), "</trg_segm>", sp(), "</phr_pair_annot>"]
    if p[0] == "l":
        return ["<length_limit>", sp(), p[1], sp(), "</length_limit>"]
    if p[0] == "f":
        return ["<forbidden_words>", sp(), p[1], sp(), "</forbidden_words>"]
    return [p[1]]


def render(pieces, r):
    return "".join("".join(tags(p, r)) for p in pieces)


def text(r, n=None):
    """Lines as lists of pieces, and the text."""
    L = [annotated(r) if r.random() < .5 else [("t", clean(plain(r)))] for _ in range((r.choice([0, 1, 3, 8, 20]) if r.random() > .02 else 150) if n is None else n)]
    return L, [render(p, r) for p in L]


def lines(c, res, n, what):
    t = res.out.decode("utf-8", "replace")
    l = t.split("\n")
    if l[-1] != "" or len(l) - 1 != n:
        c.note(repr(t[:3000]))
        c.fail(what + ":lines", "%d lines of output for %d lines" % (len(l) - 1, n))
    return l[:-1]


def filt(c, tool, raw, nl=True):
    """Run a filter with -f or from the standard input."""
    body = "".join(x + "\n" for x in raw)
    if not nl and raw and raw[-1]:
        body = body[:-1]
    if c.r.random() < .5:
        f = c.write("in", body)
        return c.tool(tool, "-f", f)
    return c.tool(tool, stdin=body)


# ---------------------------------------------------------------- filters
def isnum(w):
    try:
        float(w)
        return True
    except ValueError:
        return False


def cat(w):
    if w.isdigit():
        return "<number>" if len(w) > 1 else "<digit>"
    if isnum(w):
        return "<number>"
    if re.match("[a-zA-Z0-9]", w) and re.search(r"\d", w):
        return "<alfanum>"
    return w


CATS = ["<common_word>", "<number>", "<digit>", "<alfanum>"]


def filters(c):
    r = c.r
    L, raw = text(r)
    c.note("\n".join(map(repr, raw)))
    nl = r.random() < .8
    solid = lambda s: "".join(s.split())
    # tokenizing
    out = lines(c, filt(c, "thot_tokenize", raw, nl), len(raw), "tokenize")
    for x, y, p in zip(raw, out, L):
        if solid(x) != solid(y):
            c.fail("tokenize:text", "%r becomes %r" % (x, y))
        t = y.split(" ") if y else []
        if any(not k or k != k.strip() or len(k.split()) != 1 for k in t):
            c.fail("tokenize:blanks", "%r becomes %r" % (x, y))
        want = [g for q in p if q[0] != "t" for g in tags(q) if g.startswith("<")]
        if [g for g in t if g in set(want)] != want:
            c.fail("tokenize:annotation", "%r becomes %r: annotations %s" % (x, y, want))
        for q in p:
            if q[0] == "t":
                for w in q[1].split():
                    if re.fullmatch("[abcdexyzABXéñßÀ]{1,}", w) and w not in t and w + "," not in t:
                        c.fail("tokenize:word", "the word %r of %r is not a token of %r" % (w, x, y))
        for k in t:
            if k not in want and re.search(r"[a-zA-Z]", k) and re.search(r"[,;?!\[\]\"]", k) and not re.search(r"\d[,.]\d", k):
                c.fail("tokenize:punctuation", "token %r in %r" % (k, y))
    c.ctx.count("tokenized_lines", len(raw))
    c.ctx.count("odd_line_breaks", sum(any(o in x for o in ODD) for x in raw))
    c.ctx.count("annotated_lines", sum(len(p) > 1 for p in L))
    # lowercasing
    out = lines(c, filt(c, "thot_lowercase", raw, nl), len(raw), "lowercase")
    for x, y, p in zip(raw, out, L):
        want = [w for q in p for g in tags(q) for w in (g.split() if q[0] != "t" and g.startswith("<") else g.lower().split())]
        if y.split() != want:
            c.fail("lowercase:words", "%r becomes %r, its words are %s" % (x, y, want))
    # removing annotations leaves the sentence that is translated
    out = lines(c, filt(c, "thot_remove_xml_annotations", raw, nl), len(raw), "remove_xml")
    for x, y, p in zip(raw, out, L):
        want = [w for q in p if q[0] in "tp" for w in q[1].split()]
        if y.split() != want:
            c.fail("remove_xml:words", "%r becomes %r, its words are %s" % (x, y, want))
    # categorizing
    out = lines(c, filt(c, "thot_categorize", raw, nl), len(raw), "categorize")
    for x, y, p in zip(raw, out, L):
        want = []
        for q in p:
            if q[0] == "t":
                want += [cat(w) for w in q[1].split()]
            elif q[0] == "p":
                s, t = q[1].split(), q[2].split()
                a, b = [cat(w) for w in s], [cat(w) for w in t]
                if any(a.count(k) != b.count(k) for k in CATS):
                    a, b = s, t
                want += ["<phr_pair_annot>", "<src_segm>"] + a + ["</src_segm>", "<trg_segm>"] + b + ["</trg_segm>", "</phr_pair_annot>"]
            else:
                want += [w for g in tags(q) for w in g.split()]
        if y.split() != want:
            c.fail("categorize:words", "%r becomes %r, expected %s" % (x, y, want))
        c.ctx.count("categorized_words", sum(w in CATS for w in want))
    c.ctx.distinct(("filters", tuple(out)))


def decateg(c):
    """Categories of the translation are replaced by the words of the aligned source segment."""
    r = c.r
    S, T, I, W = [], [], [], []
    for _ in range(r.choice([1, 5, 15])):
        n = r.randint(1, 7)
        src = [r.choice(["12", "3", "7", "a1", "b22", "x", "y", "1.5", "99"]) for _ in range(n)]
        cuts = sorted(r.sample(range(1, n), r.randint(0, n - 1))) + [n]
        segs = list(zip([0] + cuts, cuts))
        r.shuffle(segs)
        trg, want, tc = [], [], []
        for a, b in segs:
            t = [cat(w) for w in src[a:b]]
            if r.random() < .4:
                r.shuffle(t)
            for k in range(r.choice([0, 0, 1])):
                t.insert(r.randint(0, len(t)), r.choice(["u", "v", "<number>", "<digit>"]))
            if r.random() < .3 and len(t) > 1:
                t.pop(r.randrange(len(t)))
            pool = collections.defaultdict(list)
            for w in src[a:b]:
                pool[cat(w)].append(w)
            for w in t:
                want.append(pool[w].pop(0) if w in CATS and pool[w] else w)
            trg += t
            tc.append(len(trg))
        info = "x y | Source Segmentation: " + " ".join("( %d , %d )" % (a + 1, b) for a, b in segs) + " | Target Segmentation: " + " ".join(map(str, tc)) + " | Other"
        extra = r.random()
        if extra < .1:          # no information: the translation stays
            info, want = r.choice(["", "x | y", "| Source Segmentation: ( 1 , 1 )"]), trg
        elif extra < .2:        # words beyond the segmentation stay
            trg, want = trg + ["<number>", "z"], want + ["<number>", "z"]
        S.append(" ".join(src)); T.append(" ".join(trg)); I.append(info); W.append(" ".join(want))
    for f, l in (("s", S), ("t", T), ("i", I)):
        c.write(f, "".join(x + "\n" for x in l))
    out = lines(c, c.tool("thot_decategorize", "-s", "s", "-t", "t", "-i", "i"), len(S), "decategorize")
    for s, t, i, o, w in zip(S, T, I, out, W):
        if o != w:
            c.fail("decategorize:words", "source %r, translation %r (%s): %r instead of %r" % (s, t, i, o, w))
    c.ctx.count("decategorized", len(S))
    c.ctx.distinct(("decat", tuple(out)))


# ---------------------------------------------------------------- detokenizing and recasing
def trans(w):
    if w.isdigit():
        return "<number>" if len(w) > 1 else "<digit>"
    if isnum(w):
        return "<number>"
    if re.match("[a-zA-Z0-9]", w) and re.search(r"\d", w):
        return "<alfanum>"
    return "<common_word>" if len(w) > 5 else w


class LM:
    def __init__(self, t, ip):
        self.c, self.ip, self.n = collections.Counter(), ip, 0
        for l in t.split("\n"):
            w = l.split()
            if len(w) >= 1:
                self.c[tuple(w[:-1])] += int(w[-1])
                if len(w) == 2:
                    self.c[()] += int(w[-1])
                self.n = max(self.n, len(w) - 1)

    def p(self, g):
        if not g:
            return 1 / self.c[()]
        h = self.c[g[:-1]]
        return self.ip * (self.c[g] / h if h else 0) + (1 - self.ip) * self.p(g[1:])

    def sent(self, w):
        w = ["<bos>"] + w + ["<eos>"]
        lp = 0
        for i in range(1, len(w)):
            lp += math.log(self.p(tuple(w[max(0, i - self.n + 1):i + 1])))
        return lp


def tmload(t):
    m = collections.defaultdict(collections.Counter)
    for l in t.split("\n"):
        if l.split():
            s, o = l.split(" ||| ", 1) if " ||| " in l else (None, None)
            if s is None:
                continue
            o, n = o.rsplit(" ", 1)
            m[s][o] += int(n)
    return m


EPS = 0.000001


def deriv(tok, tm, limit):
    """Every (cuts, options) that covers the words, monotonically; None if there are too many."""
    n, out = len(tok), []
    part = {0: [((), (), 0.0)]}
    for i in range(n):
        for cuts, opts, lp in part.get(i, ()):
            for j in range(i + 1, min(n, i + 7) + 1):
                s = " ".join(tok[i:j])
                o = dict(tm[s]) if s in tm else {}
                tot = sum(o.values())
                for k, x in o.items():
                    part.setdefault(j, []).append((cuts + (j,), opts + (k,), lp + math.log((1 - EPS) * x / tot)))
                if not o and j == i + 1:
                    part.setdefault(j, []).append((cuts + (j,), opts + (s,), lp + math.log(EPS)))
        if sum(map(len, part.values())) > limit:
            return None
    return part.get(n, [])


def best(D, lm, w):
    sc = []
    for cuts, opts, lp in D:
        ws = " ".join(opts).split()
        sc.append(w[0] * lp - w[1] * len(opts) - w[2] * len(ws) + w[3] * lm.sent(ws))
    return sc


def smalltext(r, n, case=False):
    V = ["a", "b", "the", "said", "Paris" if case else "cd", "5", "42", "internationally", "x1"] + ([] if not case else ["The", "Said", "THE", "paris", "B", "İz"])
    o = []
    for _ in range(n):
        ws = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            w = r.choice(V)
            if not case:
                k = r.random()
                w = w + r.choice([",", ".", "!", "?)"]) if k < .25 else r.choice(["(", "\""]) + w if k < .35 else w + "-" + r.choice(V) if k < .4 else w + "'s" if k < .45 else w
            ws.append(w)
        o.append(" ".join(ws))
    return o


def detok(c):
    r = c.r
    raw = [x for x in smalltext(r, r.choice([1, 4, 12, 30]))] + ["a b ."]
    new = smalltext(r, r.choice([1, 4, 8])) + r.sample(raw, min(len(raw), 3)) + r.choice([[], [""], ["zz yy ."]])
    c.write("raw", "".join(x + "\n" for x in raw))
    c.write("new", "".join(x + "\n" for x in new))
    tok = [l for l in lines(c, c.tool("thot_tokenize", "-f", "new"), len(new), "tokenize")]
    c.write("tok", "".join(x + "\n" for x in tok))
    n = r.randint(1, 4)
    a = ["-t", "rawtok"] if r.random() < .4 else []
    if a:
        c.write("rawtok", c.tool("thot_tokenize", "-f", "raw").out)
    c.tool("thot_train_detok_model", "-r", "raw", "-n", n, "-o", "m", *a)
    # what the models count
    rt = lines(c, c.tool("thot_tokenize", "-f", "raw"), len(raw), "tokenize")
    tm, lmc = collections.defaultdict(collections.Counter), collections.Counter()
    for x, t in zip(raw, rt):
        t, ws = t.split(), []
        for w in x.split():
            k = 1
            while "".join(t[:k]) != w:
                k += 1
            g = [trans(q) for q in t[:k]]
            t = t[k:]
            ws.append("".join(g))
            if not any(p in CATS and q in CATS for p, q in zip(g, g[1:])):
                tm[" ".join(g)]["".join(g)] += 1
    got = tmload(c.read("m.tm"))
    if {k: dict(v) for k, v in got.items()} != {k: dict(v) for k, v in tm.items()}:
        c.fail("detok:model", "the model has %s, the corpus %s" % ({k: dict(v) for k, v in got.items()}, {k: dict(v) for k, v in tm.items()}))
    w = [r.choice([0, 1, .5, 2]) for _ in range(4)] if r.random() < .6 else [1, 0, 0, 1]
    ip = r.choice([None, 0.2, 0.9])
    out = lines(c, c.tool("thot_detok_translator", "-f", "tok", "-m", "m", "-w", " ".join(map(str, w)), *(["-i", ip] if ip else [])), len(tok), "detok")
    lm = LM(c.read("m.lm"), ip or .5)
    for t, o in zip(tok, out):
        if "".join(t.split()) != "".join(o.split()):
            c.fail("detok:text", "%r becomes %r" % (t, o))
        D = deriv([trans(q) for q in t.split()], got, 4000)
        if not D:
            continue
        cut, k = [], 0
        tt = t.split()
        for x in o.split():
            s = ""
            while s != x:
                if k >= len(tt):
                    c.fail("detok:split", "%r becomes %r" % (t, o))
                s += tt[k]
                k += 1
            cut.append(k)
        sc = best(D, lm, w)
        top = max(sc)
        mine = [s for (cu, _, _), s in zip(D, sc) if cu == tuple(cut)]
        if not mine or max(mine) < top - 1e-9 * (1 + abs(top)):
            c.fail("detok:best", "%r becomes %r with score %s, the best is %g" % (t, o, mine and max(mine), top))
        c.ctx.count("detok_optimal")
        c.ctx.count("detok_derivations", len(D))
    # in one step
    o2 = lines(c, c.tool("thot_detokenize", "-f", "tok", "-r", "raw", *a, "-tdir", c.d), len(tok), "detokenize")
    c.tool("thot_train_detok_model", "-r", "raw", "-o", "m3", *a)
    if o2 != lines(c, c.tool("thot_detok_translator", "-f", "tok", "-m", "m3", "-w", "1 0 0 1"), len(tok), "detok"):
        c.fail("detokenize:steps", "thot_detokenize gives %s" % o2)
    left = [f for f in os.listdir(c.d) if "tdir" in f]
    if left:
        c.fail("detokenize:tmp", "left behind: %s" % left)
    c.ctx.count("detok_runs")
    c.ctx.distinct(("detok", tuple(out)))


def recase(c):
    r = c.r
    big = r.random() < .15
    raw = smalltext(r, 22000 if big else r.choice([1, 4, 12, 40]), True) + ["The a", "1 1.0 1 01", "1.0 1"]
    new = smalltext(r, r.choice([1, 4, 8]), True) + [r.choice(raw) for _ in range(2)] + r.choice([[], [""], ["zz Yy"]])
    c.write("raw", "".join(x + "\n" for x in raw))
    c.write("new", "".join(x + "\n" for x in new))
    low = lines(c, c.tool("thot_lowercase", "-f", "new"), len(new), "lowercase")
    c.write("low", "".join(x + "\n" for x in low))
    n = r.randint(1, 4)
    c.tool("thot_train_rec_tm", "-r", "raw", "-o", "m")
    c.tool("thot_train_rec_lm", "-r", "raw", "-n", n, "-o", "m", timeout=300)
    c.tool("thot_train_rec_lm_mr", "-r", "raw", "-n", n, "-o", "mr", "-tdir", c.d, timeout=300)
    a, b = LM(c.read("m.lm"), .5), LM(c.read("mr.lm"), .5)
    if a.c != b.c or len(c.read("m.lm").splitlines()) != len(c.read("mr.lm").splitlines()):
        d = [(k, a.c[k], b.c[k]) for k in set(a.c) | set(b.c) if a.c[k] != b.c[k]]
        c.fail("recase:mr", "counts in one go and in pieces differ: %s" % d[:10])
    tm = tmload(c.read("m.tm"))
    want = collections.defaultdict(collections.Counter)
    for x in raw:
        for w in x.split():
            want[w.lower()][w] += 1
    if tm != want:
        c.fail("recase:model", "the model has %s, the corpus %s" % (dict(tm), dict(want)))
    # n-grams
    cnt = collections.Counter()
    for x in raw:
        w = ["<bos>"] + x.split() + ["<eos>"]
        for k in range(2, n + 1):
            for i in range(len(w) - k + 1):
                cnt[tuple(w[i:i + k])] += 1
        for y in w[1:-1]:
            cnt[(y,)] += 1
    d = [(k, cnt[k], a.c[k]) for k in cnt if (len(k) == 1 or k[-1] != "<eos>") and cnt[k] != a.c[k]]
    if d:
        c.fail("recase:lm", "counts of n-grams (corpus, model): %s" % d[:10])
    w = [r.choice([0, 1, .5]) for _ in range(4)] if r.random() < .5 else [0, 0, 0, 1]
    out = lines(c, c.tool("thot_rec_translator", "-f", "low", "-m", "m", "-w", " ".join(map(str, w))), len(low), "recase")
    for t, o in zip(low, out):
        if [x.lower() for x in o.split()] != t.split():
            c.fail("recase:text", "%r becomes %r" % (t, o))
        D = deriv(t.split(), tm, 3000)
        if not D or not t:
            continue
        sc = best(D, a, w)
        top = max(sc)
        mine = [s for (cu, op, _), s in zip(D, sc) if list(op) == o.split()]
        if not mine or max(mine) < top - 1e-9 * (1 + abs(top)):
            c.fail("recase:best", "%r becomes %r with score %s, the best is %g" % (t, o, mine and max(mine), top))
        c.ctx.count("recase_optimal")
        c.ctx.count("recased_words", sum(x != y for x, y in zip(t.split(), o.split())))
    if not big:
        o2 = lines(c, c.tool("thot_recase", "-f", "low", "-r", "raw", "-tdir", c.d), len(low), "recase")
        c.tool("thot_train_rec_lm", "-r", "raw", "-n", 3, "-o", "m")
        l3 = LM(c.read("m.lm"), .5)
        for t, o in zip(low, o2):
            D = deriv(t.split(), tm, 3000)
            if D and t:
                sc = best(D, l3, [0, 0, 0, 1])
                mine = [s for (cu, op, _), s in zip(D, sc) if list(op) == o.split()]
                if not mine or max(mine) < max(sc) - 1e-9 * (1 + abs(max(sc))):
                    c.fail("recase:script", "%r becomes %r" % (t, o))
    left = [f for f in os.listdir(c.d) if "tdir" in f or "rec_lm_mr" in f]
    if left:
        c.fail("recase:tmp", "left behind: %s" % left)
    c.ctx.count("recase_runs")
    c.ctx.count("recase_big", big)
    c.ctx.distinct(("recase", tuple(out)))


# ---------------------------------------------------------------- cleaning, extracting, shuffling, partitions
def bag(r, n):
    return ["%s%s" % (" ".join(r.choice("abcd0159") for _ in range(min(int(r.expovariate(.25)), 90))), r.choice(["", "", "", "", " ", "\r", "  x", "\u2028y"])) for _ in range(n)]


def corpus(c):
    r = c.r
    n = r.choice([1, 2, 10, 40, 200])
    s, t = bag(r, n), bag(r, n)
    if r.random() < .5:
        t = [x if r.random() < .8 else y for x, y in zip(s, t)]
    c.write("s", "".join(x + "\n" for x in s))
    c.write("t", "".join(x + "\n" for x in t))
    # cleaning
    lo, hi, d = r.choice([0, 1, 1, 2]), r.choice([3, 10, 80]), r.choice([0, 1, 2, 4])
    a = []
    if r.random() < .7:
        a = ["-i", lo, "-a", hi, "-d", d]
    else:
        lo, hi, d = 1, 80, 4
    got = [int(x) for x in c.tool("thot_clean_corpus_ln", "-s", "s", "-t", "t", *a).text().split()]
    ls, lt = [len(x.split()) for x in s], [len(x.split()) for x in t]
    df = [x - y for x, y in zip(ls, lt)]

    def lim(v):
        m = sum(v) / len(v)
        sd = math.sqrt(sum((x - m) ** 2 for x in v) / len(v))
        return m - d * sd, m + d * sd
    allv = lim(df)
    per = {k: lim([df[i] for i in range(n) if ls[i] == k]) for k in set(ls) if ls.count(k) >= 10}
    must, may = [], []
    for i in range(n):
        u, v = per.get(ls[i], allv)
        if lo <= ls[i] <= hi and lo <= lt[i] <= hi:
            if u + 1e-6 < df[i] < v - 1e-6:
                must.append(i + 1)
            if u - 1e-6 <= df[i] <= v + 1e-6:
                may.append(i + 1)
    if got != sorted(set(got)) or not set(must) <= set(got) <= set(may):
        c.fail("clean:lines", "keeps %s, must keep %s, may keep %s" % (got, must, may))
    c.write("ln", "".join("%d\n" % x for x in got))
    keep = {}
    for f, l in (("s", s), ("t", t)):
        k = lines(c, c.tool("thot_extract_sents_by_ln", "-n", "ln", "-f", f), len(got), "extract")
        v = lines(c, c.tool("thot_extract_sents_by_ln", "-n", "ln", "-f", f, "-r"), n - len(got), "extract")
        if k != [l[i - 1] for i in got] or v != [l[i] for i in range(n) if i + 1 not in got]:
            c.fail("extract:lines", "lines %s of %s: %s, and the others %s" % (got, f, k, v))
    c.ctx.count("cleaned", n - len(got))
    c.ctx.count("kept", len(got))
    # shuffling
    seed = r.randint(0, 99999)
    tag = ["%d %s" % (i, x) for i, x in enumerate(s)]
    c.write("u", "".join(x + "\n" for x in tag))
    os.makedirs(c.path("tmp"))
    os_ = lines(c, c.tool("thot_shuffle", seed, "tmp", "s"), n, "shuffle")
    ot = lines(c, c.tool("thot_shuffle", seed, "tmp", stdin=c.read("t")), n, "shuffle")
    ou = lines(c, c.tool("thot_shuffle", seed, "tmp", "u"), n, "shuffle")
    perm = [int(x.split(" ", 1)[0]) for x in ou]
    if sorted(perm) != list(range(n)) or ou != [tag[i] for i in perm] or os_ != [s[i] for i in perm] or ot != [t[i] for i in perm]:
        c.fail("shuffle:lines", "seed %d: order %s, %s, %s" % (seed, perm, os_, ot))
    c.ctx.count("shuffled", n)
    c.ctx.count("shuffle_moved", perm != list(range(n)))
    # partition
    e, m = r.randint(1, n + 1), r.randint(1, max(1, n // 2))
    res = c.tool("thot_gen_partition", "-s", "s", "-t", "t", "-e", e, "-n", m, ok=None)
    if e > n or 2 * m > e:
        if res.rc == 0:
            c.fail("partition:sizes", "%d sentences, %d excluded, test and development of %d: no error" % (n, e, m))
        c.ctx.count("partition_errors")
    else:
        if res.rc != 0:
            c.fail("partition:error", res.err[-300:])
        P = {x: list(zip(*(c.read("%s.%s" % (f, x)).split("\n")[:-1] for f in "st"))) for x in ("shuff", "train", "excluded", "dev", "test")}
        k = n - e
        sh = P["shuff"]
        if any(len(c.read("s." + x).split("\n")) != len(c.read("t." + x).split("\n")) for x in P):
            c.fail("partition:parallel", "the sides differ in length")
        if collections.Counter(sh) != collections.Counter(zip(s, t)) or P["train"] != sh[:k] or P["excluded"] != sh[k:] or P["dev"] != sh[k:k + m] or P["test"] != sh[k + m:k + 2 * m]:
            c.fail("partition:parts", "parts of %d sentences (-e %d -n %d): %s" % (n, e, m, {x: len(v) for x, v in P.items()}))
        c.ctx.count("partitions")
    # raw text
    c.write("p.train", "".join(x + "\n" for x in s))
    c.write("p.dev", "".join(x + "\n" for x in t))
    c.write("p.test", "".join(x + "\n" for x in s[:2]))
    o = c.tool("thot_gen_rtfile", "-s", "p", "-t", "p", "-tdir", "tmp").out.decode().split("\n")
    p = c.tool("thot_gen_rtfile", "-s", "p", "-t", "p", "-tdir", "tmp", "--no-lim").out.decode().split("\n")
    if p[:-1] != s + t + s[:2] or sorted(o) != sorted(p):
        c.fail("rtfile:lines", "%d and %d lines of %d" % (len(o), len(p), 2 * n + 2))
    # vocabulary
    V = set("ab01") | {"x"}
    c.write("v", "".join(x + "\n" for x in sorted(V)))
    o = lines(c, c.tool("thot_replace_oov_with_unk", "-v", "v", stdin=c.read("s")), n, "oov")
    for x, y in zip(s, o):
        x = re.split("[ \t]+", x.strip(" \t")) if x.strip(" \t") else []
        if y.split(" ") != ([w if w in V else "<unk>" for w in x] or [""]) and y.split() != [w if w in V else "<unk>" for w in x]:
            c.fail("oov:words", "%r becomes %r" % (x, y))
    o = c.tool("thot_corpus_length", "-c", "t").text()
    m_ = re.search(r"Total: (\d+)\n# Mean length: (\S+)", o)
    al = [len(x.split(" ")) if x.strip(" ") else 0 for x in (re.sub(" +", " ", y).strip(" ") for y in t)]
    if int(m_.group(1)) != n or abs(float(m_.group(2)) - sum(al) / n) > 1e-4:
        c.fail("length", "%s: %d sentences of mean length %g" % (m_.group(0), n, sum(al) / n))
    if os.listdir(c.path("tmp")):
        c.fail("corpus:tmp", "left behind: %s" % os.listdir(c.path("tmp")))
    c.ctx.distinct(("corpus", tuple(got), tuple(perm)))


def run(ctx):
    ctx.rule = "random texts with annotations, numbers, odd white space and empty lines; distinct by the output"
    P = ctx.prefix(progs=[], scripts=True)
    n = ctx.pick(1, 15)
    for nm, f, k in (("filters", filters, 60), ("decateg", decateg, 30), ("detok", detok, 30), ("recase", recase, 30), ("corpus", corpus, 30)):
        cases(ctx, nm, f, k * n, P)
    ctx.require(tokenized_lines=300, odd_line_breaks=10, annotated_lines=80, categorized_words=200, decategorized=80, detok_runs=25, detok_optimal=80,
                recase_runs=25, recase_optimal=80, recased_words=20, recase_big=1, cleaned=100, kept=100, shuffled=500, partitions=5, partition_errors=5)
