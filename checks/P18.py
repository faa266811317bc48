"""Training, tuning, preparation and translation with the pipeline tools."""
import copy, glob, hashlib, os, re, shutil, stat, threading
import tools
from tools import Case, cases

PROGS = ["thot_server", "thot_ms_dec", "thot_gen_sw_model", "thot_sort_bin_ilextable", "thot_sort_bin_ihmmatable", "thot_merge_bin_ilextable", "thot_merge_bin_ihmmatable",
         "thot_filter_bin_ilextable", "thot_gen_bin_lex_filter_info", "thot_prune_bin_ilextable", "thot_alig_op", "thot_gen_phr_model", "thot_ngram_to_leveldb",
         "thot_ttable_to_leveldb", "thot_ttable_to_fbdb", "thot_wg_proc", "thot_scorer", "thot_calc_bleu", "thot_ll_weight_upd_nblist", "thot_li_weight_upd", "thot_lm_weight_upd",
         "thot_ilm_perp", "thot_get_srcsents_from_metadata", "thot_get_swm_vocab", "thot_check_constraints", "thot_query_pm", "thot_gen_wigauss_slen_model"]
SV = ["la", "casa", "a", "b.", "1", "\u00f1u", ",", "x_y", "AB", "&", "(", "%", "c'", "Se", "100", "-"]
TV = ["the", "House", "an", "B", "2", "\u00e7a", ".", "z'", "Bd", "a", "Cd", "%s", "hi-fi", "100"]


class Lang:
    """A toy language pair with ambiguous words and some reordering."""
    def __init__(self, r, sv=None, tv=None):
        self.r = r
        self.sv = sv or r.sample(SV, r.randint(4, 9))
        self.tv = tv or r.sample(TV, r.randint(4, 9))
        self.d = {s: [r.choice(self.tv) for _ in range(r.randint(1, 3))] for s in self.sv}

    def sent(self, m=7):
        return [self.r.choice(self.sv) for _ in range(self.r.randint(1, m))]

    def trans(self, s):
        t = [self.r.choice(self.d[x]) for x in s]
        if self.r.random() < .3 and len(t) > 1:
            i = self.r.randrange(len(t) - 1)
            t[i], t[i + 1] = t[i + 1], t[i]
        if self.r.random() < .2:
            t.insert(self.r.randrange(len(t) + 1), self.r.choice(self.tv))
        return t

    def text(self, n, m=7):
        ss = [self.sent(m) for _ in range(n)]
        return ss, [self.trans(s) for s in ss]


def join(ss):
    return "".join(" ".join(s) + "\n" for s in ss)


def dirs(c):
    """Scratch directories for temporaries and the options that select them."""
    for d in ("tmp", "sd", "td"):
        os.makedirs(c.path(d), exist_ok=True)
    c.env = {"HOME": c.d, "TMPDIR": c.path("td")}
    return ["-tdir", c.path("tmp"), "-sdir", c.path("sd")]


def left(c, what):
    x = [d + "/" + f for d in ("tmp", "sd", "td") for f in os.listdir(c.path(d))]
    if x:
        c.fail(what + ":left", "left behind by %s: %s" % (what, x[:8]))


def tree(d):
    """Contents of a directory tree, for comparison before and after."""
    o = {}
    for a, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            if not os.path.islink(p):
                with open(p, "rb") as h:
                    o[os.path.relpath(p, d)] = hashlib.blake2b(h.read(), digest_size=8).hexdigest()
        for x in ds + fs:
            if os.path.islink(os.path.join(a, x)):
                o[os.path.relpath(os.path.join(a, x), d)] = "-> " + os.readlink(os.path.join(a, x))
    return {k: v for k, v in o.items() if not re.search(r"/(LOG|LOG\.old|LOCK|CURRENT|MANIFEST-\d+|\d+\.(log|ldb|sst|dbtmp))$", k)}


def ttable(text):
    return sorted(tuple(x.split()) for x in text.splitlines())


# ---------------------------------------------------------------- training
def lm_train(c, D, corpus, sents, n, first, opts, lms, ldb, out="lm"):
    """Runs thot_lm_train and checks everything it writes.  lms: the models trained so far."""
    r = c.r
    sub = "main" if first else "additional_%d" % len(lms)
    unk = "-unk" in opts
    x = c.tool("thot_lm_train", "-c", corpus, "-o" if first else "-a", c.path(out), "-n", n, *opts, *D, env=c.env, cwd=c.d)
    left(c, "thot_lm_train")
    lms = lms + [(sub, ldb, n, sents)]
    f = "%s/%s/trg.lm" % (out, sub)
    ref = c.tool("thot_get_ngram_counts", "-c", corpus, "-n", n, *(["-unk"] if unk else [])).text()
    if ldb:
        if not os.path.isdir(c.path(f)):
            c.fail("lm:ldb", "%s is no database" % f)
    elif sorted(ref.splitlines()) != sorted(c.read(f).splitlines()):
        c.note(ref), c.note(c.read(f))
        c.fail("lm:counts", "the counts of the trained model differ from those of its corpus")
    if sorted(c.read(f + ".wp").splitlines()) != sorted(open(c.path(corpus), encoding="utf-8").read().splitlines()):
        c.fail("lm:wp", "the word predictor file is not the corpus")
    want = sorted(l for s in lms for l in join(s[3]).splitlines())
    if sorted(c.read(out + "/lm_desc.wp").splitlines()) != want:
        c.fail("lm:desc_wp", "the global word predictor file has %d lines, the corpora have %d" % (len(c.read(out + "/lm_desc.wp").splitlines()), len(want)))
    w = c.read(f + ".weights").split()
    if [int(w[0]), int(w[1]), int(w[2])] != [n, 3, 10] or len(w) != 3 + (n * 3):
        c.note(w)
        c.fail("lm:weights", "weights %r for order %d" % (w, n))
    d = c.read(out + "/lm_desc").splitlines()
    ent = [("$(libdir)/incr_jel_mer_%sngram_lm_factory.so" % ("leveldb_" if l else ""), s + "/trg.lm", s) for s, l, _, _ in lms]
    if not d[0].startswith("thot lm descriptor") or [tuple(l.split()[:3]) for l in d[1:]] != ent:
        c.fail("lm:desc", "descriptor %r, models %r" % (d, ent))
    if c.read(out + "/lm_desc.weights").split() != ["1"] * len(lms):
        c.fail("lm:desc_weights", "weights %r of %d models" % (c.read(out + "/lm_desc.weights"), len(lms)))
    c.ctx.count("lm_trained")
    return lms


def tm_train(c, D, s, t, ss, ts, first, tms, out="tm"):
    r = c.r
    o = []
    n = len(ss)
    pr = r.choice([1, 1, 2, 3])
    if pr > 1:
        o += ["-pr", min(pr, n)]
    m = 10
    if r.random() < .5:
        m = r.randint(1, 5)
        o += ["-m", m]
    to = 20
    if r.random() < .4:
        to = r.choice([1, 2, 5, 20])
        o += ["-to", to]
    op = "sym1"
    if r.random() < .5:
        op = r.choice(["and", "or", "sum", "sym1", "sym2", "grd"])
        o += ["-ao", op]
    it = r.randint(1, 2)
    o += ["-nit", it]
    for k, v in (("-af", ".3"), ("-np", ".1"), ("-cpr", ".000001")):
        if r.random() < .25:
            o += [k, v]
    disk = r.choice(["", "", "-bdb", "-ldb"])
    if disk:
        o += [disk]
    unk = r.random() < .3
    if unk:
        o += ["-unk"]
    dic = r.random() < .15
    ext = not dic and r.random() < .2
    us, ut = (ss + [["UNKNOWN_WORD"]], ts + [["UNKNOWN_WORD"]]) if unk else (ss, ts)
    if dic:
        o += ["-dict"]
    if ext:
        g = ""
        for a, b in zip(us, ut):
            al = [[] for _ in range(len(b) + 1)]
            for j in range(1, len(a) + 1):
                al[min(j, len(b)) if r.random() < .8 else r.randint(0, len(b))].append(j)
            g += "# Sentence pair\n%s\n%s\n" % (" ".join(a), " ".join("%s ({ %s})" % (w, "".join("%d " % x for x in y)) for w, y in zip(["NULL"] + b, al)))
        o += ["-g", c.write("galig", g)]
    sub = "main" if first else "additional_%d" % len(tms)
    c.tool("thot_tm_train", "-s", s, "-t", t, "-o" if first else "-a", c.path(out), *o, *D, env=c.env, cwd=c.d, timeout=240)
    left(c, "thot_tm_train")
    tms = tms + [(sub, disk)]
    f = "%s/%s/src_trg" % (out, sub)
    P = c.path(f)
    # the models of the tools it runs: source of the model = target language
    opts = [x for k in ("-af", "-np") if k in o for x in (k, o[o.index(k) + 1])]
    for nm, (a, b) in (("swm", (ut, us)), ("invswm", (us, ut))):
        got = [(re.sub(r"\(\{[\d ]*\}\)", "", x[1]).split()[1:], x[0].split()) for x in (y.split("\n") for y in re.split(r"(?m)^#.*\n", c.read(f + "_" + nm + ".bestal"))[1:])]
        if sorted(got) != sorted(zip(a, b)) :
            c.fail("tm:bestal", "%s: alignments of %r instead of %r" % (nm, got[:5], list(zip(a, b))[:5]))
        c.write("x.s", join(a)), c.write("x.t", join(b))
        c.tool("thot_gen_sw_model", "-s", "x.s", "-t", "x.t", "-eb", "-n", it, *opts, "-o", "x_" + nm)
        for e in ("lsifactor", "asifactor", "hmm_p0"):
            u, v = c.read("x_%s.%s" % (nm, e)), c.read("%s_%s.%s" % (f, nm, e))
            if float(u) != float(v):
                c.fail("tm:options", "%s of %s is %s, with the same options thot_gen_sw_model has %s" % (e, nm, v, u))
    if dic:
        A3 = c.tool("thot_gen_exhaustive_giza_alig", "-s", c.write("x.s", join(ut)), "-t", c.write("x.t", join(us))).text()
    elif ext:
        A3 = g
    else:
        c.tool("thot_alig_op", "-g", P + "_swm.bestal", "-" + op, P + "_invswm.bestal", "-o", "x_al")
        A3 = c.read("x_al.A3.final")
    if c.read(f + ".A3.final").split() != A3.split():
        c.note(A3), c.note(c.read(f + ".A3.final"))
        c.fail("tm:A3", "the final alignments differ from those of the operation (%s)" % (["-dict"] * dic + ["-g"] * ext or [op])[0])
    c.tool("thot_gen_phr_model", "-g", P + ".A3.final", "-m", m, "-o", "x_phr")
    ref = c.tool("thot_get_nbest_for_trg", "-t", "x_phr.ttable", "-n", to, "-p", "-T", c.path("tmp")).text()
    if ttable(ref) != ttable(c.read(f + ".ttable")):
        c.note(ref), c.note(c.read(f + ".ttable"))
        c.fail("tm:ttable", "the phrase table has %d entries, computed from its alignments %d" % (len(ttable(c.read(f + ".ttable"))), len(ttable(ref))))
    for e, v in (("lambda", "0.01 0.01"), ("srcsegmlentable", "Uniform"), ("trgsegmlentable", "Geometric"), ("trgcutstable", "0.999")):
        if c.read(f + "." + e).split() != v.split():
            c.fail("tm:parameters", "%s is %r" % (e, c.read(f + "." + e)))
    d = c.read(out + "/tm_desc").splitlines()
    ent = [("$(libdir)/%s_phrase_model_factory.so" % {"": "incr", "-bdb": "fast_bdb", "-ldb": "leveldb"}[k], x + "/src_trg", x) for x, k in tms]
    if not d[0].startswith("thot tm descriptor") or [tuple(l.split()[:3]) for l in d[1:]] != ent:
        c.fail("tm:desc", "descriptor %r, models %r" % (d, ent))
    c.ctx.count("tm_trained")
    c.ctx.distinct(("tm", tuple(map(str, o)), tuple(map(tuple, ss))))
    return tms


def build(c, L=None):
    """Trains a system in c.d/sys and checks it."""
    r = c.r
    L = L or Lang(r)
    D = dirs(c)
    os.makedirs(c.path("sys"), exist_ok=True)
    lms, tms = [], []
    for k in range(r.choice([1, 1, 1, 2])):
        n = r.choice([1, 2, 5, 12, 20, 30])
        ss, ts = L.text(n)
        ss.append(list(L.sv)), ts.append([L.d[x][0] for x in L.sv])
        r.random() < .5 and (ss.append(list(L.sv)), ts.append([L.d[x][-1] for x in L.sv]))
        s, t = c.write("sys/s%d" % k, join(ss)), c.write("sys/t%d" % k, join(ts))
        o = []
        pr = r.choice([1, 1, 2, 3])
        if pr > 1:
            o += ["-pr", min(pr, len(ss))]
        if r.random() < .4:
            o += ["-f", r.choice([1, 2, 7, 1000])]
        if r.random() < .5:
            o += ["-unk"]
        ldb = r.random() < .25
        if ldb:
            o += ["-ldb"]
        lms = lm_train(c, D, t if r.random() < .7 else os.path.relpath(t, c.d), ts, r.randint(1, 4), k == 0, o, lms, ldb, out="sys/lm")
        tms = tm_train(c, D, s, t, ss, ts, k == 0, tms, out="sys/tm")
        before = tree(c.path("sys"))
    c.write("sys/c.cfg", c.tool("thot_gen_cfg_file", c.path("sys/lm/lm_desc"), c.path("sys/tm/tm_desc")).out)
    return L, lms, tms


class Sys:
    pass


LOCK, POOL = threading.Lock(), {}


def system(c, k):
    """The k-th shared system, built and checked when it is first used; cases only read it."""
    with LOCK:
        e = POOL.setdefault((id(c.ctx), k), [threading.Lock(), None])
    with e[0]:
        if e[1] is None:
            b = Case(c.ctx, "pool", k, c.P)
            try:
                S = Sys()
                S.L, S.lms, S.tms = build(b)
                S.d = b.path("sys")
                S.before = tree(S.d)
                S.k = k
                S.disk = any(x[1] for x in S.lms + S.tms)
                S.lock = threading.Lock()
                e[1] = S
            except tools.Fail:
                e[1] = False
        if e[1] is False:
            raise tools.Fail()
        return e[1]


def unchanged(c, S, what):
    a = tree(S.d)
    if a != S.before:
        x = sorted(k for k in set(a) | set(S.before) if a.get(k) != S.before.get(k))
        S.before = a
        c.fail("changed:" + what, "%s changed files of the system it was given: %s" % (what, x[:8]))


def linked(c, S):
    """Removes the links that thot_prepare_sys_for_test makes inside linked directories (a known finding)."""
    x = [y for y in glob.glob(S.d + "/?m/*/*/*") if os.path.islink(y) and os.path.basename(y) == os.path.basename(os.path.dirname(y))]
    for y in x:
        os.unlink(y)
    if x and tree(S.d) == S.before:
        c.fail("prepare:again-dir", "links inside the linked directories: %s" % x)


class use:
    """A shared system for the time of a case; databases admit one process at a time."""
    def __init__(self, c):
        self.S = system(c, c.r.randrange(c.ctx.nsys))

    def __enter__(self):
        if self.S.disk:
            self.S.lock.acquire()
        return self.S

    def __exit__(self, *a):
        if self.S.disk:
            self.S.lock.release()


def shared(fn):
    def f(c):
        with use(c) as S:
            V = copy.copy(S)
            V.L = copy.copy(S.L)
            V.L.r = c.r
            fn(c, V)
    return f


def pool_case(c):
    system(c, c.i)


# ---------------------------------------------------------------- decoding
def test_text(c, S, n=None, m=6):
    """Sentences to translate, some with annotations or unknown words."""
    r = c.r
    o = []
    for _ in range(n or r.choice([1, 2, 3, 5, 8, 11])):
        s = S.L.sent(m)
        k = r.random()
        if k < .1:
            s[r.randrange(len(s))] = r.choice(["unseen", "zz!", "UNKNOWN_WORD"])
        elif k < .2:
            i = r.randrange(len(s))
            s[i:i + 1] = ["<phr_pair_annot>", "<src_segm>", s[i], "</src_segm>", "<trg_segm>", r.choice(S.L.tv), "</trg_segm>", "</phr_pair_annot>"]
        o.append(s)
    return o


def opts(c, S):
    r = c.r
    o = []
    for k, v in (("-W", [1, 2, 10, 0.5]), ("-S", [1, 5, 20]), ("-A", [1, 2, 7]), ("-nomon", [0, 1, 2]), ("-h", [0, 4, 6])):
        if r.random() < .3:
            o += [k, r.choice(v)]
    return o


def nweights(c, cfg):
    l = c.tool("thot_server", "-c", cfg, "-w", env=c.env).text().splitlines()[0].split()
    return len([x for x in l[4::3]])


def decode(c, cfg, f, o=(), wg=None, wgp=None):
    """What thot_ms_dec translates in one process."""
    x = c.tool("thot_ms_dec", *(["-c", cfg] if isinstance(cfg, str) else ["-tm", cfg[0], "-lm", cfg[1]]), "-t", f, *o, *(["-wg", wg] if wg else []),
               *(["-wgp", wgp] if wgp is not None else []), env=c.env).text()
    return x


FULL = ["-W", 1000, "-S", 400, "-A", 10]


def hyps(c, pref, i):
    c.tool("thot_wg_proc", "-w", "%s_%06d.wg" % (pref, i), "-n", 30, "-o", "x")
    o = [l.split(" ||| ") for l in c.read("x.nbl").splitlines() if not l.startswith("#")]
    os.unlink(c.path("x.nbl"))
    return [(float(x[0]), x[-1].strip()) for x in o if len(x) >= 3]


def same(c, key, what, a, b, f, n, o=(), oa=(), ob=()):
    """Two configurations give each sentence of f the same best score, and translations with that score.

    The order of equally good hypotheses may depend on the order of the entries of the tables, so nothing is pruned."""
    u, v = [decode(c, x, f, [*FULL, *o, *y], p).splitlines() for x, y, p in ((a, oa, "u"), (b, ob, "v"))]
    if len(u) != n or len(v) != n:
        c.fail(key, "%s: %d and %d translations of %d sentences" % (what, len(u), len(v), n))
    for i in range(n):
        x, y = hyps(c, "u", i + 1), hyps(c, "v", i + 1)
        if not x or not y:
            if u[i] != v[i] or bool(x) != bool(y):
                c.fail(key, "%s: %r and %r" % (what, u[i], v[i]))
            continue
        eps = 2e-4 * (1 + abs(x[0][0]))
        if abs(x[0][0] - y[0][0]) > eps:
            c.note(x[:3]), c.note(y[:3])
            c.fail(key, "%s: sentence %d has best scores %g (%r) and %g (%r)" % (what, i + 1, x[0][0], u[i], y[0][0], v[i]))
        if u[i] != v[i] and len(x) < 30 and len(y) < 30 and not any(abs(z[0] - x[0][0]) < eps and z[1] == v[i].strip() for z in x):
            c.note(x[:3]), c.note(y[:3])
            c.fail(key, "%s: sentence %d is translated by %r and %r" % (what, i + 1, u[i], v[i]))
        c.ctx.count("compared")
    for g in glob.glob(c.path("u_*")) + glob.glob(c.path("v_*")):
        os.unlink(g)


def wgs(c, pref):
    return {os.path.basename(f)[len(os.path.basename(pref)):]: open(f, "rb").read() for f in glob.glob(glob.escape(c.path(pref)) + "_*") if os.path.isfile(f)}


@shared
def decode_case(c, S):
    r = c.r
    D = dirs(c)
    T = test_text(c, S)
    text = join(T)
    last = r.random() < .15
    f = c.write("test", text[:-1] if last else text)
    o = opts(c, S)
    cfg = S.d + "/c.cfg" if r.random() < .75 else (S.d + "/tm/tm_desc", S.d + "/lm/lm_desc")
    if isinstance(cfg, str) and r.random() < .3:
        o += ["-tmw"] + ["%.3g" % r.uniform(-.2 if r.random() < .2 else .01, 2) for _ in range(nweights(c, cfg))]
    wgp = r.choice([None, None, 0, 1, 10, 1e6])
    ref = decode(c, cfg, f, o, "ref", wgp)
    pr = r.choice([1, 2, 3, 4, len(T), len(T) + 1])
    a = ["-c", cfg] if isinstance(cfg, str) else ["-tm", cfg[0], "-lm", cfg[1]]
    wg = r.random() < .6
    v = r.choice([[], [], ["-v"], ["-v1"], ["-v2"]])
    a += ["-pr", pr, "-t", f if r.random() < .8 else "test", "-o", c.path("out"), *o, *v, *(["-wg", c.path("w")] if wg else []), *(["-wgp", wgp] if wgp is not None else []), *D[2:]]
    if pr > len(T):
        # more processes than sentences: refused, unless modules force a single process
        x = c.tool("thot_decoder", *a, env=c.env, ok=None)
        if x.rc == 0 and "only one processor" not in x.err:
            c.fail("decoder:pr", "%d processes for %d sentences: no error" % (pr, len(T)))
        if x.rc != 0:
            c.ctx.count("refused")
            left(c, "thot_decoder")
            return
    else:
        c.tool("thot_decoder", *a, env=c.env)
    left(c, "thot_decoder")
    if c.read("out") != ref:
        c.note(c.read("out")), c.note(ref)
        c.fail("decoder:translations", "%d processes translate differently from one" % pr)
    if len(ref.splitlines()) != len(T):
        c.fail("decoder:lines", "%d translations of %d sentences" % (len(ref.splitlines()), len(T)))
    if wg:
        u, w = wgs(c, "ref"), wgs(c, "w")
        if u != w:
            c.fail("decoder:wg", "the word graphs differ: %s" % sorted(k for k in set(u) | set(w) if u.get(k) != w.get(k))[:6])
        if len(u) != 2 * len(T):
            c.fail("decoder:wgs", "%d word graph files for %d sentences" % (len(u), len(T)))
        c.ctx.count("word_graphs", len(u) // 2)
    unchanged(c, S, "thot_decoder")
    # n-best lists
    if isinstance(cfg, str) and r.random() < .4:
        n = r.choice([1, 2, 10, 100])
        pr = r.randint(1, len(T))
        c.tool("thot_gen_nblists", "-pr", pr, "-c", cfg, "-s", f, "-n", n, "-o", c.path("nbl"), *D, env=c.env)
        left(c, "thot_gen_nblists")
        decode(c, cfg, f, [], "nref")
        got = sorted(os.listdir(c.path("nbl/nblist")))
        for i in range(1, len(T) + 1):
            c.tool("thot_wg_proc", "-w", "nref_%06d.wg" % i, "-n", n, "-o", "x")
            for e in sorted(glob.glob(c.path("x.*"))):
                g = "nbl/nblist/inputsent_%06d%s" % (i, e[len(c.path("x")):])
                if not os.path.exists(c.path(g)) or c.read(g) != open(e, encoding="utf-8", errors="replace").read():
                    c.fail("nblists", "%s is not the list of the %d-th sentence" % (g, i))
                got.remove(os.path.basename(g))
                os.unlink(e)
        if [x for x in got if x != "thot_wg_proc.log"]:
            c.fail("nblists:more", "more files: %s" % got)
        unchanged(c, S, "thot_gen_nblists")
        c.ctx.count("nbest_lists", len(T))
    c.ctx.count("decoded", len(T))
    c.ctx.distinct(("dec", S.k, pr, tuple(map(str, o)), text))


# ---------------------------------------------------------------- preparation and tuning
def variant(c, S, kinds=("renamed", "prefix")):
    """A configuration of the system: its own, or with other names or no descriptors.  Returns the file and the kind."""
    r = c.r
    cfg = open(S.d + "/c.cfg").read()
    k = r.choice(["plain", "plain", *kinds, "comments", "order", "notmw", "tmw", "relative"])
    tm, lm = S.d + "/tm/tm_desc", S.d + "/lm/lm_desc"
    if k == "prefix" and (len(S.tms) > 1 or S.tms[0][1] or S.lms[0][1] or len(S.lms) > 1):
        k = "renamed"
    if k == "renamed":
        for a in ("tm", "lm"):
            os.mkdir(c.path(a))
            for x in os.listdir(S.d + "/" + a):
                y = x.replace("_desc", "_descr.v2")
                os.symlink(S.d + "/" + a + "/" + x, c.path(a + "/" + y)) if os.path.isdir(S.d + "/" + a + "/" + x) else shutil.copy(S.d + "/" + a + "/" + x, c.path(a + "/" + y))
        tm, lm = c.path("tm/tm_descr.v2"), c.path("lm/lm_descr.v2")
    elif k == "prefix":
        tm, lm = S.d + "/tm/main/src_trg", S.d + "/lm/main/trg.lm"
    elif k == "relative":
        tm, lm = os.path.relpath(tm, c.d), os.path.relpath(lm, c.d)
    cfg = re.sub(r"(?m)^-tm .*", lambda m: "-tm " + tm, cfg)
    cfg = re.sub(r"(?m)^-lm .*", lambda m: "-lm " + lm, cfg)
    if k == "comments":
        cfg = "# -tm /nowhere/tm\n# -lm /nowhere/lm\n" + cfg + "# -lm /other/lm\n# the -tm option\n"
    elif k == "notmw":
        cfg = re.sub(r"(?m)^#.*-tmw.*\n", "", cfg)
    elif k == "tmw":
        cfg = re.sub(r"(?m)^#.*-tmw.*", "-tmw " + " ".join("%.3g" % r.uniform(.05, 2) for _ in range(nweights(c, S.d + "/c.cfg"))), cfg)
    elif k == "order":
        ls = [l for l in cfg.splitlines() if l.startswith("-") or l.startswith("# -")]
        r.shuffle(ls)
        cfg = "\n".join(ls) + "\n"
    return c.write("sys.cfg", cfg), k


@shared
def prepare_case(c, S):
    r = c.r
    D = dirs(c)
    # descriptors of other names and prefixes do not work (known findings)
    cfg, kind = variant(c, S, ("renamed", "prefix") if c.i % 16 == 3 else ())
    for turn in range(r.choice([1, 1, 2])):
        T = test_text(c, S, m=4)
        f = c.write("test%d" % turn, join(T))
        again = turn and r.random() < .7
        out = "prep" if again or not turn else "prep2"
        x = c.tool("thot_prepare_sys_for_test", "-c", cfg if r.random() < .7 else "sys.cfg", "-t", f, "-o", c.path(out) if r.random() < .7 else out, *D, env=c.env, cwd=c.d, ok=None)
        if x.rc:
            c.note(x.err[-2000:])
            c.fail("prepare:lm-prefix" if kind == "prefix" and "language model files could not be found" in x.err else "prepare:failed", "thot_prepare_sys_for_test fails (%s)" % kind)
        left(c, "thot_prepare_sys_for_test")
        linked(c, S)
        unchanged(c, S, "thot_prepare_sys_for_test")
        new = c.path(out + "/test_specific.cfg")
        p = dict(l.split()[:2] for l in c.read(out + "/test_specific.cfg").splitlines() if re.match(r"-(tm|lm) ", l))
        if kind == "renamed" and all(not os.path.exists(y) and os.path.exists(os.path.dirname(y) + "/" + k[1:] + "_desc") for k, y in p.items()):
            c.fail("prepare:desc-names", "the prepared configuration names descriptors %s" % sorted(p.values()))
        if kind == "relative" and any(os.path.islink(y) and not os.path.exists(y) for y in glob.glob(c.path(out + "/?m/*/*"))):
            c.fail("prepare:relative-dir", "dangling links")
        same(c, "prepare:translations", "given and prepared system (%s)" % kind, cfg, new, f, len(T), r.choice([[], ["-nomon", 1], ["-h", 0]]))
        # settings are those of the given configuration
        st = lambda x: [l for l in x.splitlines() if l.startswith("-") and l.split()[0] not in ("-tm", "-lm")]
        if st(c.read("sys.cfg")) != st(c.read(out + "/test_specific.cfg")):
            c.fail("prepare:cfg", "settings changed: %r and %r" % (st(c.read("sys.cfg")), st(c.read(out + "/test_specific.cfg"))))
        for x in p.values():
            if not x.startswith(c.path(out) + "/"):
                c.fail("prepare:own", "the prepared configuration uses %s" % x)
        c.ctx.count("prepared")
        c.ctx.count("prepared_again", bool(again))
        c.ctx.count("cfg:" + kind)
        c.ctx.distinct(("prep", S.k, kind, turn, join(T)))


def score(c, ref, sys):
    return float(re.search(r"([-\d.e+]+)\s*$", c.tool("thot_scorer", "-r", ref, "-t", sys, env=c.env).text().splitlines()[0]).group(1))


@shared
def tune_case(c, S):
    r = c.r
    D = dirs(c)
    cfg, kind = variant(c, S)
    ss, ts = S.L.text(r.randint(2, 7), 6)
    s, t = c.write("dev.s", join(ss)), c.write("dev.t", join(ts))
    pr = r.randint(1, min(3, len(ss)))
    x = c.tool("thot_smt_tune", "-pr", pr, "-c", cfg, "-s", s, "-t", t, "-o", c.path("tune"), *D, env=c.env, timeout=400)
    left(c, "thot_smt_tune")
    unchanged(c, S, "thot_smt_tune")
    if x.out.strip():
        c.fail("tune:output", "printed on the standard output: %r" % x.out[:200])
    w = c.read("tune/llweights_tune.out").split()
    n = nweights(c, c.path("tune/tuned_for_dev.cfg"))
    if len(w) != n:
        c.fail("tune:weights", "%d weights, the system has %d" % (len(w), n))
    get = lambda f, k: [l.split()[1:] for l in c.read(f).splitlines() if l.split()[:1] == [k]]
    if get("tune/tuned_for_dev.cfg", "-tmw") != [w]:
        c.fail("tune:tmw", "-tmw %s in the tuned configuration, the weights are %s" % (get("tune/tuned_for_dev.cfg", "-tmw"), w))
    st = lambda f: sorted(l for l in c.read(f).splitlines() if l.startswith("-") and l.split()[0] not in ("-tm", "-lm", "-tmw"))
    if st("sys.cfg") != st("tune/tuned_for_dev.cfg"):
        c.fail("tune:cfg", "settings changed: %r and %r" % (st("sys.cfg"), st("tune/tuned_for_dev.cfg")))
    # on the development corpus the tuned system is the one whose weights were chosen
    one = ["-tmw"] + ["1"] * n
    same(c, "tune:models", "tuned system and tuned models", c.path("tune/tuned_for_dev.cfg"), c.path("tune/tune_loglin.cfg"), s, len(ss), ob=["-tmw", *w])
    c.write("h1", decode(c, c.path("tune/tune_loglin.cfg"), s, ["-tmw", *w]))
    c.write("h0", decode(c, c.path("tune/tune_loglin.cfg"), s, one))
    a, b = score(c, t, "h0"), score(c, t, "h1")
    if b < a - 1e-6:
        c.fail("tune:worse", "score %g with initial weights, %g with the tuned ones" % (a, b))
    c.ctx.count("tune_improved", b > a + 1e-9)
    # full tables: the tuned system translates other text like one with the original tables, tuned parameters
    # (a language model given by its prefix cannot be prepared: known finding)
    if kind != "prefix":
        T = test_text(c, S)
        f = c.write("test", join(T))
        c.tool("thot_prepare_sys_for_test", "-c", c.path("tune/tuned_for_dev.cfg"), "-t", f, "-o", c.path("prep"), *D, env=c.env)
        unchanged(c, S, "thot_prepare_sys_for_test")
        same(c, "tune:prepared", "tuned and prepared system", c.path("tune/tuned_for_dev.cfg"), c.path("prep/test_specific.cfg"), f, len(T))
    for x, y in S.tms:
        if not y and ttable(open(S.d + "/tm/" + x + "/src_trg.ttable", encoding="utf-8").read()) != ttable(c.read("tune/tm/" + x + "/src_trg.ttable")):
            c.fail("tune:ttable", "the phrase table of the tuned system is not the original one")
    c.ctx.count("tuned")
    c.ctx.count("tuned:" + kind)
    c.ctx.distinct(("tune", S.k, kind, join(ss), join(ts)))


# ---------------------------------------------------------------- the whole pipeline
ASV = ["la", "casa", "Es", "1", "23", "no", "ven", "\u00f1u", "ma\u00f1ana", "gato", "El", "10"]
ATV = ["the", "house", "Is", "1", "23", "not", "come", "\u00e7a", "tomorrow", "Cat", "I", "10"]


def auto_case(c):
    r = c.r
    D = dirs(c)
    L = Lang(r, r.sample(ASV, r.randint(4, 8)), r.sample(ATV, r.randint(4, 8)))
    data = {}
    for x, n in (("train", r.randint(4, 20)), ("dev", r.randint(2, 5)), ("test", r.randint(1, 5))):
        ss, ts = L.text(n, 6)
        if x == "train":
            ss.append(list(L.sv)), ts.append([L.d[y][0] for y in L.sv])
        p = lambda z: [[w + r.choice(["", "", "", ",", "."]) for w in y[:-1]] + [y[-1] + r.choice(["", ".", "?", "!"])] for y in z]
        ss, ts = p(ss), p(ts)
        data[x] = (ss, ts)
        c.write("S." + x, join(ss)), c.write("T." + x, join(ts))
    o = []
    tok, low, cat, clean = r.random() < .6, r.random() < .6, r.random() < .5, r.random() < .7
    o += ["--tok"] * tok + ["--lower"] * low + ["--categ"] * cat + ["--skip-clean"] * (not clean)
    n, it, m, op = r.randint(1, 3), r.randint(1, 2), r.randint(1, 5), r.choice(["sym1", "grd", "or"])
    o += ["-n", n, "-nit", it, "-m", m, "-ao", op]
    lmdb, tmdb = r.random() < .2, r.choice(["", "", "", "-bdbtm", "-ldbtm"])
    o += ["-ldblm"] * lmdb + [tmdb] * bool(tmdb)
    notrans = r.random() < .1
    o += ["--no-trans"] * notrans
    pr = 1 if len(data["dev"][0]) < 2 or len(data["test"][0]) < 2 else r.choice([1, 2])
    # files of others in the directories for temporaries stay as they are
    sentinels = {c.path("tmp/" + x): "mine %s\n" % x for x in ("rfile_rec", "rfile_detok", "uncateg_src", "out", "S.train")}
    for p, x in sentinels.items():
        open(p, "w").write(x)
    given = {x: c.read(x) for x in ("S.train", "T.train", "S.dev", "T.dev", "S.test", "T.test")}
    c.tool("thot_auto_smt", "-pr", pr, "-s", "S", "-t", "T", "-o", "auto", *o, *D, env=c.env, cwd=c.d, timeout=600)
    for p, x in sentinels.items():
        if not os.path.exists(p) or open(p).read() != x:
            c.fail("auto:foreign", "thot_auto_smt changed or removed %s, which is not its file" % p.replace(c.d, "."))
        os.unlink(p)
    left(c, "thot_auto_smt")
    if any(c.read(x) != y for x, y in given.items()):
        c.fail("auto:input", "the corpora were changed")
    # preprocessing, step by step
    cur = {x: x for x in given}
    suf = ""
    before_cat = None
    for on, tool, s in ((tok, "thot_tokenize", "tok"), (low, "thot_lowercase", "lc"), (cat, "thot_categorize", "categ")):
        if not on:
            continue
        suf += "_" + s
        before_cat = cur["S.test"]
        for x in given:
            g = "auto/preproc_data/initial/%s%s.%s" % (x[0], suf, x[2:])
            if c.read(g) != c.tool(tool, "-f", cur[x]).text():
                c.fail("auto:" + s, "%s is not the output of %s for %s" % (g, tool, cur[x]))
            cur[x] = g
    if clean:
        for x in ("train", "dev"):
            ln = c.tool("thot_clean_corpus_ln", "-s", cur["S." + x], "-t", cur["T." + x]).text()
            c.write("ln", ln)
            for y in "ST":
                g = "auto/preproc_data/initial/%s%s_clean.%s" % (y, suf, x)
                if c.read(g) != c.tool("thot_extract_sents_by_ln", "-n", "ln", "-f", cur[y + "." + x]).text():
                    c.fail("auto:clean", "%s is not the clean part of %s" % (g, cur[y + "." + x]))
                cur[y + "." + x] = g
    # models of the preprocessed training corpus
    ref = c.tool("thot_get_ngram_counts", "-c", cur["T.train"], "-n", n, "-unk").text()
    if not lmdb and sorted(ref.splitlines()) != sorted(c.read("auto/lm/main/trg.lm").splitlines()):
        c.fail("auto:lm", "the language model is not that of %s" % cur["T.train"])
    c.tool("thot_gen_phr_model", "-g", c.path("auto/tm/main/src_trg.A3.final"), "-m", m, "-o", "x_phr")
    if ttable(c.tool("thot_get_nbest_for_trg", "-t", "x_phr.ttable", "-n", 20, "-p", "-T", c.path("tmp")).text()) != ttable(c.read("auto/tm/main/src_trg.ttable")):
        c.fail("auto:tm", "the phrase table is not that of the alignments with -m %d" % m)
    al = [y.split("\n")[:2] for y in re.split(r"(?m)^#.*\n", c.read("auto/tm/main/src_trg.A3.final"))[1:]]
    if sorted((x[0].split(), re.sub(r"\(\{[\d ]*\}\)", "", x[1]).split()[1:]) for x in al) != \
       sorted((a.split(), b.split()) for a, b in zip(c.read(cur["S.train"]).splitlines(), c.read(cur["T.train"]).splitlines())):
        c.fail("auto:pairs", "the alignments are not those of %s and %s" % (cur["S.train"], cur["T.train"]))
    x = c.read("auto/smt_tune/tuned_for_dev.cfg")
    if not re.search(r"(?m)^-tmw %s *$" % re.escape(c.read("auto/smt_tune/llweights_tune.out").strip()), x):
        c.fail("auto:tmw", "the tuned weights are not in the tuned configuration")
    if c.path(cur["S.dev"]) not in x or c.path(cur["T.dev"]) not in x:
        c.fail("auto:dev", "tuned with other files than %s and %s" % (cur["S.dev"], cur["T.dev"]))
    c.ctx.count("pipelines")
    c.ctx.distinct(("auto", tuple(map(str, o)), given["S.train"], given["S.test"]))
    out = glob.glob(c.path("auto/output/*"))
    if notrans:
        if out:
            c.fail("auto:notrans", "output %s with --no-trans" % out)
        return
    if len(out) != 1:
        c.fail("auto:out", "output directories %s" % out)
    O = os.path.relpath(out[0], c.d) + "/thot_decoder_out"
    spec = glob.glob(c.path("auto/filtered_models/*/test_specific.cfg"))
    if len(spec) != 1 or c.read(O) != decode(c, spec[0], cur["S.test"]):
        c.fail("auto:translations", "the translations are not those of the prepared system")
    same(c, "auto:prepared", "tuned and prepared system", c.path("auto/smt_tune/tuned_for_dev.cfg"), spec[0], c.path(cur["S.test"]), len(data["test"][0]))
    for e, tool in (("score", "thot_scorer"), ("bleu", "thot_calc_bleu")):
        if c.read(O + "." + e) != c.tool(tool, "-r", cur["T.test"], "-t", O).text():
            c.fail("auto:" + e, "%s.%s is not the score of the translations" % (O, e))
    if cat:
        c.write("ali", c.tool("thot_extract_hyp_info", O + ".dec_err").text())
        c.write("unc", c.tool("thot_get_srcsents_from_metadata", "-f", before_cat or "S.test").text())
        x = c.tool("thot_decategorize", "-t", O, "-s", "unc", "-i", "ali").text()
        O += "_decateg"
        if c.read(O) != x:
            c.fail("auto:decateg", "%s is not the decategorized output" % O)
    lim = []
    if low:
        pre = ("auto/preproc_data/initial/S_tok", "auto/preproc_data/initial/T_tok") if tok else ("S", "T")
        c.write("rt", c.tool("thot_gen_rtfile", "-s", c.path(pre[0]), "-t", c.path(pre[1]), "-tdir", c.path("tmp")).text())
        x = c.tool("thot_recase", "-f", O, "-r", "rt", "-w", "-tdir", c.path("tmp"), env=c.env).text()
        O += "_rec"
        if c.read(O) != x:
            c.fail("auto:recase", "%s is not the recased output" % O)
    if tok:
        c.write("rt", c.tool("thot_gen_rtfile", "-s", c.path("S"), "-t", c.path("T"), "-tdir", c.path("tmp")).text())
        x = c.tool("thot_detokenize", "-f", O, "-r", "rt", "-tdir", c.path("tmp"), env=c.env).text()
        O += "_detok"
        if c.read(O) != x:
            c.fail("auto:detok", "%s is not the detokenized output" % O)
    if sorted(x for x in os.listdir(out[0]) if x.startswith("thot_decoder_out") and not x.split("out", 1)[1].startswith(".")) != \
       sorted({re.sub(r"^.*/", "", O)[:i] for i in [m.start() for m in re.finditer("_(?=decateg|rec|detok)", os.path.basename(O))] + [None]}):
        c.fail("auto:files", "output files %s" % os.listdir(out[0]))
    c.ctx.count("pipeline_outputs")


# ---------------------------------------------------------------- a tool that fails
def farm(c, tool, n, mode):
    """Copies of the scripts that use a failing version of a tool: its n-th call fails."""
    d = c.path("farm")
    os.makedirs(d)
    src = os.path.join(c.P, "bin")
    for x in os.listdir(src):
        p = os.path.join(src, x)
        with open(p, "rb") as f:
            h = f.read(2)
            if h == b"#!":
                b = (h + f.read()).replace(b'bindir="' + src.encode() + b'/"', b'bindir="' + d.encode() + b'/"')
            else:
                b = None
        q = os.path.join(d, x + ("-real" if x == tool else ""))
        if b is None:
            os.symlink(p, q)
        else:
            with open(q, "wb") as f:
                f.write(b)
            os.chmod(q, 0o755)
    act = {"exit": "exit 3", "kill": "kill -9 $$", "partial": '"%s/%s-real" "$@" | head -c %d; exit 3' % (d, tool, c.r.choice([0, 1, 20, 100])), "late": '"%s/%s-real" "$@"; exit 3' % (d, tool)}[mode]
    w = "#!/bin/bash\nexec 9>>\"%s/lock\"\nflock 9\nk=$((`cat \"%s/calls\" 2>/dev/null || echo 0`+1))\necho $k > \"%s/calls\"\nexec 9>&-\nif [ $k -eq %d ]; then\n%s\nfi\nexec \"%s/%s-real\" \"$@\"\n" % (
        c.d, c.d, c.d, n, act, d, tool)
    p = c.write("farm/" + tool, w)
    os.chmod(p, 0o755)
    return d


KEPT = re.compile(r"(ttable|\.lm|\.wp|\.weights|\.lambda|_desc|\.cfg|\.A3\.final|\.out|_out|\.wg|\.idx|\.nbl|(Uniform|Geom).*|segmlentable|cutstable|_clean_ln|without_metadata|\.(train|dev|test)|_detok|_rec|_decateg|\.msinfo|^out|inputsent)$")


def result(c, d):
    """The lines of the files a tool makes, without names of directories."""
    o = {}
    for a, ds, fs in os.walk(d):
        for f in fs:
            if KEPT.search(f):
                with open(os.path.join(a, f), "rb") as h:
                    o[re.sub(r"\d{4}_\d\d_\d\d", "DATE", os.path.relpath(os.path.join(a, f), d))] = sorted(h.read().replace(d.encode(), b"OUT").splitlines())
    return o


FAULTS = {
    "thot_lm_train": ["thot_pbs_get_ngram_counts", "thot_get_ngram_counts", "thot_get_ngram_counts_mr", "thot_merge_ngram_counts", "thot_gen_init_file_with_jmlm_weights", "thot_shuffle",
                      "thot_ngram_to_leveldb"],
    "thot_tm_train": ["thot_pbs_gen_batch_phr_model", "thot_pbs_gen_batch_sw_model", "thot_pbs_gen_best_sw_alig", "thot_pbs_alig_op", "thot_alig_op", "thot_pbs_gen_phr_model", "thot_gen_phr_model_mr",
                      "thot_gen_phr_model", "thot_pbs_get_nbest_for_trg", "thot_get_nbest_for_trg", "thot_gen_sw_model", "thot_merge_bin_ilextable", "thot_merge_bin_ihmmatable", "thot_gen_fbdb_ttable",
                      "thot_gen_leveldb_ttable", "thot_ttable_to_fbdb", "thot_ttable_to_leveldb", "thot_gen_exhaustive_giza_alig", "thot_shuffle", "thot_sort_bin_ilextable", "thot_prune_bin_ilextable",
                      "thot_filter_bin_ilextable", "thot_gen_bin_lex_filter_info", "thot_sort_bin_ihmmatable", "thot_calc_swm_lgprob", "thot_get_swm_vocab", "thot_merge_counts", "thot_cut_ttable",
                      "thot_flip_phr", "thot_sort_ttable", "thot_merge_seglen_counts"],
    "thot_decoder": ["thot_ms_dec", "thot_gen_cfg_file"],
    "thot_gen_nblists": ["thot_decoder", "thot_ms_dec", "thot_wg_proc"],
    "thot_prepare_sys_for_test": ["thot_get_srcsents_from_metadata", "thot_pbs_filter_ttable", "thot_filter_ttable_given_corpus", "thot_filter_ttable"],
    "thot_smt_tune": ["thot_lm_weight_upd", "thot_get_srcsents_from_metadata", "thot_pbs_filter_ttable", "thot_filter_ttable", "thot_filter_ttable_given_corpus", "thot_li_weight_upd", "thot_ll_weight_upd",
                      "thot_decoder", "thot_ms_dec", "thot_wg_proc", "thot_ll_weight_upd_nblist", "thot_scorer", "thot_server"],
    "thot_sys_from_scratch": ["thot_lm_train", "thot_tm_train", "thot_gen_cfg_file", "thot_get_ngram_counts", "thot_gen_sw_model", "thot_gen_phr_model", "thot_pbs_gen_batch_phr_model"],
    "thot_auto_smt": ["thot_tokenize", "thot_lowercase", "thot_categorize", "thot_clean_corpus_ln", "thot_extract_sents_by_ln", "thot_lm_train", "thot_tm_train", "thot_gen_cfg_file", "thot_smt_tune",
                      "thot_prepare_sys_for_test", "thot_decoder", "thot_scorer", "thot_calc_bleu", "thot_extract_hyp_info", "thot_decategorize", "thot_gen_rtfile", "thot_recase", "thot_detokenize",
                      "thot_get_srcsents_from_metadata", "thot_train_rec_tm", "thot_train_rec_lm", "thot_train_detok_model"],
}


@shared
def fault_case(c, S):
    r = c.r
    D = dirs(c)
    tool = r.choices(list(FAULTS), [5, 9, 3, 3, 3, 2, 1, 2])[0]
    bad = r.choice(FAULTS[tool])
    mode = r.choice(["exit", "exit", "kill", "partial", "partial", "late"])
    n = r.choice([1, 1, 1, 2, 2, 3, 5])
    ss, ts = S.L.text(r.randint(3, 9), 5)
    s, t = c.write("a.s", join(ss)), c.write("a.t", join(ts))
    pr = r.choice([1, 2])
    out = c.path("out")
    cfg = S.d + "/c.cfg"
    if tool == "thot_lm_train":
        a = ["-pr", pr, "-c", t, "-o", out, "-n", 2] + ["-f", 2] * (r.random() < .6) + ["-ldb"] * (bad == "thot_ngram_to_leveldb")
    elif tool == "thot_tm_train":
        a = ["-pr", pr, "-s", s, "-t", t, "-o", out, "-nit", 2] + ["-dict"] * ("giza" in bad) + ["-bdb"] * ("fbdb" in bad) + ["-ldb"] * ("leveldb" in bad)
    elif tool == "thot_decoder":
        a = (["-c", cfg] if bad != "thot_gen_cfg_file" else ["-tm", S.d + "/tm/tm_desc", "-lm", S.d + "/lm/lm_desc"]) + ["-pr", pr, "-t", s, "-o", c.path("o/out"), "-wg", c.path("o/w")]
    elif tool == "thot_gen_nblists":
        a = ["-pr", pr, "-c", cfg, "-s", s, "-n", 5, "-o", out]
    elif tool == "thot_prepare_sys_for_test":
        a = ["-c", cfg, "-t", s, "-o", out]
    elif tool == "thot_smt_tune":
        a = ["-pr", pr, "-c", cfg, "-s", s, "-t", t, "-o", out]
    elif tool == "thot_sys_from_scratch":
        a = ["-o", out, "-n", 2, "-nit", 2]
    else:
        for x in ("train", "dev", "test"):
            k = 8 if x == "train" else 2
            p, q = S.L.text(k, 5)
            c.write("S." + x, join(p)), c.write("T." + x, join(q))
        a = ["-pr", 1, "-s", c.path("S"), "-t", c.path("T"), "-o", out, "--tok", "--lower", "--categ", "-n", 2, "-nit", 1, "-m", 3]
    if tool == "thot_decoder":
        out = c.path("o")
        D = D[2:]
        os.makedirs(out)
    F = farm(c, bad, n, mode)
    x = c.tool(F + "/" + tool, *a, *D, env=c.env, ok=None, timeout=300)
    calls = int(c.read("calls")) if os.path.exists(c.path("calls")) else 0
    if calls < n:
        if x.rc:
            c.note(x.err[-3000:])
            c.fail("fault:none", "%s fails without a fault" % tool)
        c.ctx.count("fault_not_reached")
        return
    c.ctx.count("faults")
    c.ctx.count("fault:" + bad)
    unchanged(c, S, tool)
    if x.rc:
        c.ctx.count("faults_reported")
        return
    # no error: then the results are the same as without the fault
    got = result(c, out)
    shutil.move(out, out + ".faulty")
    if tool == "thot_decoder":
        os.makedirs(out)
    for d in ("tmp", "sd", "td"):
        shutil.rmtree(c.path(d))
    dirs(c)
    c.tool(tool, *a, *D, env=c.env, timeout=300)
    ref = result(c, out)
    if got != ref:
        w = sorted(k for k in set(got) | set(ref) if got.get(k) != ref.get(k))
        c.note(x.err[-2500:])
        c.fail("fault:%s:%s" % (tool, bad), "%s ends without error when %s fails (%s, call %d); other results: %s" % (tool, bad, mode, n, w[:6]))
    c.ctx.count("faults_harmless")
    c.ctx.distinct(("fault", tool, bad, mode, n))


def run(ctx):
    ctx.rule = "toy language pairs, corpora of 2 to 50 sentences, options of the tools, numbers of processes; distinct by tool, options and texts"
    P = ctx.prefix(progs=PROGS, scripts=True)
    ctx.nsys = ctx.pick(8, 24)
    cases(ctx, "pool", pool_case, ctx.nsys, P)
    cases(ctx, "decode", decode_case, ctx.pick(80, 1200), P)
    cases(ctx, "prepare", prepare_case, ctx.pick(32, 400), P)
    cases(ctx, "tune", tune_case, ctx.pick(8, 100), P)
    cases(ctx, "auto", auto_case, ctx.pick(6, 80), P)
    cases(ctx, "fault", fault_case, ctx.pick(64, 1200), P)
    ctx.require(faults=20, faults_reported=15, lm_trained=8, tm_trained=8, decoded=100, word_graphs=50, prepared=30, tuned=6, pipelines=5)
