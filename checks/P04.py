"""Phrase-table tools."""
import collections, os, random
from tools import cases

WORDS = ["casa", "la", "de", "a", "a!", "z", "1", "1.0", "01", "1e0", "+1", "-0", "0", "0x1", "100", "1e2", ".", ",", "|", "||", "||||", "%s", "\\n", "\\", "*", "[", "^a",
         "\u00f1u", "\u4e2d", "{", "NULL", "nan", "inf", "-", "/", "&", "\"", "'", "<x>", "-n", "X"]


def phrase(r, ws, m=3):
    return tuple(r.choice(ws) for _ in range(r.choice([1, 1, 2, 2, 3, m]) if r.random() > .005 else 12))


def amount(r):
    k = r.random()
    if k < .45:
        return "%.8f" % (r.randint(1, 40) / 8)
    if k < .6:
        return "%.8f" % r.randint(1, 12)
    if k < .75:
        return "%.8f" % (r.random() * 10 ** -r.randint(0, 7) + 1e-8)
    if k < .85:
        return "%.8f" % (r.random() * 10 ** r.randint(1, 6))
    if k < .93:
        return "%.8f" % (r.choice([1, 2, 3, 10, 11, 100]) + r.randint(0, 3) * 1e-8)
    return "0.00000000"


def table(r, n=None):
    """{(src, trg): count}; few words, so that phrases meet."""
    ws, wt = r.sample(WORDS, r.randint(1, 8)), r.sample(WORDS, r.randint(1, 8))
    t = collections.OrderedDict()
    for _ in range(n if n is not None else r.choice([0, 1, 3, 10, 30, 60, 120]) if r.random() > .02 else 1500):
        t[phrase(r, ws), phrase(r, wt)] = amount(r)
    return t, ws, wt


def text(t):
    cs = collections.Counter()
    for (s, x), c in t.items():
        cs[s] += float(c)
    return ["%s ||| %s ||| %.8f %s" % (" ".join(s), " ".join(x), cs[s], c) for (s, x), c in t.items()]


def parse(c, out, key, sorted_ok=True):
    r = []
    for l in out.split("\n")[:-1] if out else []:
        f, p = l.split(), [[]]
        for w in f:
            if w == "|||":
                p.append([])
            else:
                p[-1].append(w)
        if len(p) != 3 or not p[0] or not p[1] or len(p[2]) != 2:
            c.fail(key + ":line", "line %r" % l)
        r.append((tuple(p[0]), tuple(p[1]), p[2][0], p[2][1]))
    if out and not out.endswith("\n"):
        c.fail(key + ":end", "no end of line")
    return r


def feed(c, lines, tool, *args, opt="-t"):
    """The table as a file or through the standard input."""
    body = "".join(x + "\n" for x in lines)
    if c.r.random() < .5:
        f = c.write("t", body)
        o = c.tool(tool, *([opt, f] if opt else [f]), *args)
    else:
        o = c.tool(tool, *args, stdin=body)
    return o.out.decode("utf-8", "replace")


def merge(c):
    """The counts of the pieces of a corpus, merged, are those of the corpus."""
    r = c.r
    base, ws, wt = table(r)
    k = r.randint(1, 5)
    if r.random() < .1:
        k = 12
    chunks, lines = [], []
    for i in range(k):
        t = collections.OrderedDict()
        for p, v in base.items():
            if r.random() < .6:
                t[p] = amount(r) if r.random() < .6 else v
        chunks.append(t)
        lines += [x + " %d" % (i + 1) for x in text(t)]
    c.note("%d chunks\n" % k, "\n".join(lines[:60]))
    c.write("counts", "".join(x + "\n" for x in lines))
    cut = r.choice([None, 0, 0, 1, 2.5, 10])
    T = c.path("tmp")
    os.mkdir(T)
    sh = "LC_ALL=C sort -t ' ' %s/counts | %s" % (c.d, c.bin("thot_merge_counts"))
    if cut is not None:
        sh += " | %s -c %s" % (c.bin("thot_cut_ttable"), cut)
    got = parse(c, c.tool(shell="set -o pipefail; " + sh).out.decode(), "merge")
    st, ss = collections.Counter(), collections.Counter()
    for t in chunks:
        for (s, x), v in t.items():
            st[s, x] += float(v)
            ss[s] += float(v)
    want = {p: v for p, v in st.items() if cut is None or ss[p[0]] > cut + 1e-6}
    edge = {p for p, v in st.items() if cut is not None and abs(ss[p[0]] - cut) <= 1e-6}
    seen = {}
    for s, x, a, b in got:
        if (s, x) in seen:
            c.fail("merge:twice", "two entries for %s ||| %s" % (" ".join(s), " ".join(x)))
        seen[s, x] = 1
        if (s, x) not in st:
            c.fail("merge:new", "entry %s ||| %s comes from nowhere" % (" ".join(s), " ".join(x)))
        if (s, x) not in want and (s, x) not in edge:
            c.fail("cut:left", "%s ||| %s is below the cutoff %s" % (" ".join(s), " ".join(x), cut))
        if abs(float(b) - st[s, x]) > 1e-7 + 1e-9 * st[s, x]:
            c.fail("merge:count", "%s ||| %s has count %s, should be %.8f" % (" ".join(s), " ".join(x), b, st[s, x]))
        if abs(float(a) - ss[s]) > 1e-6 + 1e-9 * ss[s]:
            c.fail("merge:total", "%s has count %s, should be %.8f" % (" ".join(s), a, ss[s]))
        c.ctx.count("merged_entries")
    for p in want:
        if p not in seen and p not in edge:
            c.fail("merge:lost" if cut is None else "cut:lost", "no entry for %s ||| %s" % (" ".join(p[0]), " ".join(p[1])))
    c.ctx.count("merges")
    c.ctx.distinct(("merge", tuple(lines), cut))


def flip(c):
    t, _, _ = table(c.r)
    L = text(t)
    c.note("\n".join(L[:60]))
    o = feed(c, L, "thot_flip_phr", opt=None)
    g = parse(c, o, "flip")
    w = [(tuple(x), tuple(s)) for s, x in t]
    if [(a, b) for a, b, _, _ in g] != w or [(p, q) for _, _, p, q in g] != [tuple(l.split()[-2:]) for l in L]:
        c.fail("flip:entries", "not the flipped table")
    o2 = feed(c, o.split("\n")[:-1], "thot_flip_phr", opt=None)
    if [l.split() for l in o2.split("\n")] != [l.split() for l in L] + [[]]:
        c.fail("flip:twice", "flipping twice does not give the table back")
    c.ctx.count("flips")
    c.ctx.distinct(("flip", tuple(L)))


def cut(c):
    t, _, _ = table(c.r)
    L, k = text(t), c.r.choice(["0", "1", "2", "0.5", "3.25"])
    c.note("cutoff", k, "\n".join(L[:60]))
    o = feed(c, L, "thot_cut_ttable", "-c", k).split("\n")[:-1]
    w = [l for l in L if float(l.split()[-2]) > float(k)]
    if o != w:
        c.fail("cut:lines", "%d lines are left, should be %d" % (len(o), len(w)))
    c.ctx.count("cuts")
    c.ctx.distinct(("cut", tuple(L), k))


def sort(c):
    t, _, _ = table(c.r)
    L = text(t)
    c.r.shuffle(L)
    c.note("\n".join(L[:60]))
    o = feed(c, L, "thot_sort_ttable", *(["-T", c.d] if c.r.random() < .5 else []))
    if sorted(" ".join(l.split()) for l in o.split("\n")[:-1]) != sorted(" ".join(l.split()) for l in L):
        c.fail("sort:lines", "sorting changes the entries")
    g = parse(c, o, "sort")
    done, last = set(), None
    for i, (s, x, a, b) in enumerate(g):
        if i and g[i - 1][0] == s:
            if float(g[i - 1][3]) < float(b):
                c.fail("sort:order", "%s ||| %s: count %s after %s" % (" ".join(s), " ".join(x), b, g[i - 1][3]))
        else:
            if s in done:
                c.fail("sort:group", "the entries of %s are not together" % " ".join(s))
            if last is not None and len(s) < len(last):
                c.fail("sort:length", "%s after %s" % (" ".join(s), " ".join(last)))
            done.add(s)
        last = s
    c.ctx.count("sorts")
    c.ctx.distinct(("sort", tuple(L)))


def check_nbest(c, t, lines, got, n, p, key):
    """got: the n entries of highest count of each target phrase, plus the rest of its count."""
    by, gb, rest = collections.OrderedDict(), collections.OrderedDict(), {}
    for (s, x), v in t.items():
        by.setdefault(x, []).append((s, v))
    src = {(s, x): l.split()[-2] for (s, x), l in zip(t, lines)}
    for s, x, a, b in got:
        if s == ("<UNUSED_WORD>",):
            if x in rest:
                c.fail(key + ":rest-twice", "two remainders for %s" % " ".join(x))
            rest[x] = float(b)
            continue
        if (s, x) not in t:
            c.fail(key + ":new", "entry %s ||| %s comes from nowhere" % (" ".join(s), " ".join(x)))
        if (a, b) != (src[s, x], t[s, x]):
            c.fail(key + ":counts", "%s ||| %s has counts %s %s, had %s %s" % (" ".join(s), " ".join(x), a, b, src[s, x], t[s, x]))
        if s in gb.setdefault(x, []):
            c.fail(key + ":twice", "%s ||| %s twice" % (" ".join(s), " ".join(x)))
        gb[x].append(s)
    for x, e in by.items():
        w = sorted((float(v) for _, v in e), reverse=True)
        g = sorted((float(t[s, x]) for s in gb.get(x, [])), reverse=True)
        if g != w[:n]:
            c.fail(key + ":options", "%s keeps options with counts %s, its %d best have %s" % (" ".join(x), g[:8], n, w[:n][:8]))
        rem = sum(w[n:])
        if p and rem > 0:
            if x not in rest:
                c.fail(key + ":no-rest", "the remaining count %.8f of %s is lost" % (rem, " ".join(x)))
            if abs(rest[x] - rem) > 1e-7 + 1e-9 * rem:
                c.fail(key + ":rest", "the remaining count of %s is %.8f, should be %.8f" % (" ".join(x), rest[x], rem))
            c.ctx.count("remainders")
        elif x in rest:
            c.fail(key + ":rest-unasked", "a remainder %.8f for %s" % (rest[x], " ".join(x)))
        c.ctx.count("target_phrases")
    for x in rest:
        if x not in by:
            c.fail(key + ":rest-new", "a remainder for %s" % " ".join(x))


def nbest(c):
    r = c.r
    t, _, _ = table(r)
    L, n, p = text(t), r.choice([1, 1, 2, 3, 5, 20]), r.random() < .6
    c.note("n %d%s" % (n, " -p" if p else ""), "\n".join(L[:60]))
    if r.random() < .12:
        f = c.write("t", "".join(x + "\n" for x in L))
        c.tool("thot_pbs_get_nbest_for_trg", "-t", f, "-n", n, "-o", c.path("o"), "-T", c.d, "-sdir", c.d)
        o, p = c.read("o"), True
        c.ctx.count("parallel_runs")
    else:
        o = feed(c, L, "thot_get_nbest_for_trg", "-n", n, *((["-p"] if p else []) + (["-T", c.d] if r.random() < .5 else [])))
    check_nbest(c, t, L, parse(c, o, "nbest"), n, p, "nbest")
    c.ctx.count("nbest_tables")
    c.ctx.distinct(("nbest", tuple(L), n, p))


def filt(c):
    r = c.r
    t, ws, wt = table(r)
    L = text(t)
    sents = [" ".join(r.choice(wt + ["other"]) for _ in range(r.randint(0, 7))) for _ in range(r.randint(0, 6))]
    c.note("corpus", sents, "\n".join(L[:60]))
    cf = c.write("c", "".join(x + "\n" for x in sents))
    grams = set()
    for s in sents:
        w = s.split()
        grams |= {tuple(w[i:j]) for i in range(len(w)) for j in range(i + 1, len(w) + 1)}
    keep = [(k, l) for k, l in zip(t, L) if k[1] in grams]
    mode = r.random()
    if mode < .5:
        body = "".join(x + "\n" for x in L)
        if r.random() < .5:
            o = c.tool("thot_filter_ttable_given_corpus", c.write("t", body), cf)
        else:
            o = c.tool("thot_filter_ttable_given_corpus", cf, stdin=body)
        if o.out.decode().split("\n")[:-1] != [l for _, l in keep]:
            c.fail("filter:lines", "%d entries are kept, should be %d" % (o.out.count(b"\n"), len(keep)))
        c.ctx.count("filtered_entries", len(keep))
    else:
        n = r.choice([1, 2, 3, 20])
        f = c.write("t", "".join(x + "\n" for x in L))
        if mode < .9:
            o = c.tool("thot_filter_ttable", "-t", f, "-c", cf, "-n", n, *(["-T", c.d] if r.random() < .5 else [])).out.decode()
        else:
            c.tool("thot_pbs_filter_ttable", "-t", f, "-c", cf, "-n", n, "-o", c.path("o"), "-T", c.d, "-sdir", c.d)
            o = c.read("o")
            c.ctx.count("parallel_runs")
        k = collections.OrderedDict((p, t[p]) for p, _ in keep)
        check_nbest(c, k, [l for _, l in keep], parse(c, o, "filter"), n, True, "filter-nbest")
    c.ctx.count("filters")
    c.ctx.distinct(("filter", tuple(L), tuple(sents)))


def seglen(c):
    r = c.r
    L = ["%d %d %d" % (r.randint(1, 12), r.randint(1, 5), r.randint(1, 9)) for _ in range(r.randint(1, 40))]
    c.note("\n".join(L))
    w = collections.Counter()
    for l in L:
        a, b, n = l.split()
        w[a, b] += int(n)
    body = "".join(x + "\n" for x in L)
    o = c.tool("thot_merge_seglen_counts", c.write("t", body)) if r.random() < .5 else c.tool("thot_merge_seglen_counts", stdin=body)
    if sorted(o.out.decode().split("\n")[:-1]) != sorted("%s %s %d" % (a, b, n) for (a, b), n in w.items()):
        c.fail("seglen:counts", "merged counts differ")
    c.ctx.count("seglen_merges")


def run(ctx):
    ctx.rule = "random phrase tables (words that look like numbers, prefixes of each other, separators of awk and printf; counts from 0 and 1e-8 to 1e6; empty tables); distinct by table and operation"
    P = ctx.prefix(progs=["thot_alig_op"], scripts=True)
    n = ctx.pick(4, 60)
    for nm, f, k in (("merge", merge, 220), ("flip", flip, 80), ("cut", cut, 80), ("sort", sort, 200), ("nbest", nbest, 300), ("filter", filt, 300), ("seglen", seglen, 40)):
        cases(ctx, nm, f, k * n, P)
    ctx.require(merges=800, flips=300, sorts=700, nbest_tables=1100, filters=1100, remainders=1200, merged_entries=8000, target_phrases=8000)
