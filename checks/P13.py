"""Translation constraints."""
import re
from tools import cases

POOL = ["a", "b", "c", "dd", "<", "<x>", "&lt;", "\u00f1", "|||", "1,2"]


def sentence(r):
    src = [r.choice(POOL) for _ in range(r.randint(1, 8))]
    cons, out, i = {}, "", 0
    while i < len(src):
        if r.random() < .35:
            n = min(len(src) - i, r.randint(1, 3))
            t = [r.choice(POOL) for _ in range(r.randint(1, 3))]
            g = lambda: r.choice(["", " ", "  "])
            out += g() + "<phr_pair_annot>" + g() + "<src_segm>" + g() + " ".join(src[i:i + n]) + g() + "</src_segm>" + g() + "<trg_segm>" + g() + " ".join(t) + g() + "</trg_segm>" + g() + "</phr_pair_annot>" + g()
            cons[(i + 1, i + n)] = t
            i += n
        else:
            out += " " + src[i] + " "
            i += 1
    return src, cons, out


def srcs(c):
    S = [sentence(c.r) for _ in range(c.r.randint(1, 6))]
    f = c.write("f", "".join(s[2] + "\n" for s in S))
    o = c.tool("thot_get_srcsents_from_metadata", "-f", f).text()
    c.note("".join(s[2] + "\n" for s in S))
    w = "".join(" ".join(s[0]) + "\n" for s in S)
    if o != w:
        c.fail("srcsents", "printed %r, expected %r" % (o, w))
    c.ctx.count("source_sentences", len(S))


def check(c):
    r = c.r
    src, cons, txt = sentence(r)
    f = c.write("f", txt + "\n")
    T, A, want = [], [], []
    for _ in range(r.randint(1, 8)):
        segs, i = [], 1
        while i <= len(src):
            e = min(len(src), i + r.randint(0, 2))
            for k in cons:
                if r.random() < .9:
                    e = k[1] if k[0] == i else k[0] - 1 if i < k[0] <= e else e
            segs.append((i, e))
            i = e + 1
        r.shuffle(segs)
        trans = [list(cons[s]) if s in cons and r.random() < .9 else [r.choice(POOL) for _ in range(r.randint(1, 3))] for s in segs]
        ok = all((k in segs) and trans[segs.index(k)] == t for k, t in cons.items())
        t = [w for x in trans for w in x]
        cuts, n = [], 0
        for x in trans:
            n += len(x)
            cuts.append(n)
        a = " ".join("( %d , %d )" % s for s in segs) + " | " + " ".join(map(str, cuts))
        v = "CONSTRAINTS SATISFIED" if ok else "CONSTRAINTS NOT SATISFIED"
        x = r.random()
        if x < .04:
            a, v = a.rsplit(" ", 1)[0], "ERROR: ALIGNMENT INFORMATION INCORRECT"
        elif x < .07:
            a, v = a[:a.index("|")].rstrip().rsplit(" ", r.randint(1, 4))[0], "ERROR: ALIGNMENT INFORMATION INCORRECT"
        elif x < .1:
            a, v = a.rsplit(" ", 1)[0] + " %d" % (len(t) + r.randint(1, 9)), "ERROR: ALIGNMENT INFORMATION INCORRECT"
        elif x < .12:
            t, v = [], "ERROR: TARGET SENTENCE EMPTY"
        T.append(" ".join(t)); A.append(a); want.append(v)
        if v.startswith("ERROR"):
            c.ctx.count("malformed_lines")
            break
        c.ctx.count("satisfied" if ok else "not_satisfied")
    t = c.write("t", "".join(x + "\n" for x in T))
    a = c.write("a", "".join(x + "\n" for x in A))
    c.note(txt, T, A)
    o = c.tool("thot_check_constraints", "-s", f, "-t", t, "-a", a).text().split("\n")[:-1]
    if o != want:
        c.fail("check", "printed %r, expected %r" % (o, want))


def run(ctx):
    ctx.rule = ("sentences annotated in XML and JSON (glued and spaced tags, malformed annotations, words that look like tags), random translation systems, "
                "search parameters and constraints, and requests without constraints after constrained ones; distinct by annotated sentence and best score")
    exe = ctx.build("mt")
    P = ctx.prefix(progs=["thot_get_srcsents_from_metadata", "thot_check_constraints"], scripts=False)
    ctx.workers(exe, 330 * ctx.pick(1, 30), n=8, timeout=ctx.pick(250, 2500), env={"VERIF_PREFIX": P})
    cases(ctx, "srcs", srcs, 40 * ctx.pick(1, 10), P)
    cases(ctx, "check", check, 80 * ctx.pick(1, 10), P)
    ctx.require(constraints_obeyed=3000, constraints_read=15000, optimum_constrained=1000, optimum_given=500, graph_sentences=8000, next_translations=1800,
                compared_with_fresh=900, xml_sentences=8000, xml_soups_with_constraints=300, json_sentences=3500, violating_translations=12000,
                satisfied=30, not_satisfied=30, malformed_lines=8, distinct=8000, long_sentences=100, long_sentences_translated=35)
