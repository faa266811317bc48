"""Translation server: concurrent users, hostile clients, shutdown."""
import collections, os, random, re, struct, subprocess, threading, time
import srv, tools, runner, bld
from tools import cases

TSAN = "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1"


def server(c, f, P=None, tsan=False, **kw):
    v = random.Random("%s/%s/v" % (c.ctx.seed, c.i)).choice(["", "", "-v", "-v", "-vd"])
    if v:
        kw["args"] = [*kw.get("args", ()), v]
        c.ctx.count("verbose_servers")
    s = srv.Server(c, P or c.P, f, env={"TSAN_OPTIONS": TSAN} if tsan else None, **kw)
    return s


def health(c, s, ref, what):
    """The server still runs and gives an unrelated user the usual answer."""
    if not s.alive():
        c.note(s.text()[-6000:])
        k = runner.san_key(s.text())
        c.fail("died:" + (k or "rc=%s" % s.p.poll()), "the server ended after %s" % what)
    src, want = ref
    try:
        got = srv.request(s.port, srv.TRANSLATE, 900, src)
    except Exception as x:
        if not s.alive():
            c.note(s.text()[-6000:])
            c.fail("died:" + (runner.san_key(s.text()) or "rc=%s" % s.p.poll()), "the server ended after %s" % what)
        c.fail("health", "after %s a translation request fails: %r" % (what, x))
    if got != want:
        c.fail("answer-changed", "after %s %r is translated as %r, before as %r" % (what, src, got, want))
    c.ctx.count("health_checks")


def finish(c, s):
    v, rc = s.stop()
    t = s.text()
    k = runner.san_key(t) if "WARNING: ThreadSanitizer" not in t else None
    if k:
        c.note(t[-6000:])
        c.fail("died:" + k, "sanitizer report in the server")
    if v != (0,) or rc != 0:
        if not (rc == 66 and "WARNING: ThreadSanitizer" in t):
            c.note(t[-3000:])
            c.fail("end", "END is answered with %s and the server's exit status is %s" % (v, rc))
    c.ctx.count("shutdowns")
    return t


def races(c, t):
    for b in t.split("WARNING: ThreadSanitizer: ")[1:]:
        kind = b.split(" (")[0].split("\n")[0]
        fr = re.findall(r"#0 (.*?) (?:/|<null>)", b)
        fn = [re.sub(r"\(.*", "", x)[-70:] for x in fr[:2]]
        own = [re.sub(r"\(.*", "", x)[-70:] for x in re.findall(r"#\d+ (.*?) /[^ ]*/src/", b)]
        c.note(b[:5000])
        c.fail("race:%s:%s" % (kind, "|".join(sorted(set(own[:1] + fn)))), "ThreadSanitizer: %s in the server" % kind)


# ---------------------------------------------------------------- concurrent users get what a single user gets
def script(r, ss, ts, sv, tv, n):
    """Requests of one user, independent of the vocabulary's growth."""
    q = []
    cat = False
    for _ in range(n):
        x, y = r.choice(list(zip(ss, ts)))
        x, y = list(x), list(y)
        if r.random() < .5:
            x = [r.choice(sv) for _ in range(r.randint(1, 6))]
        k = r.random()
        if k < .35:
            q.append((srv.TRANSLATE, " ".join(x)))
            cat = False
        elif k < .45:
            q.append((srv.VERIFY_COV, " ".join(x), " ".join(y)))
            cat = False
        elif k < .6 or not cat:
            q.append((srv.RESET_PREF,))
            q.append((srv.START_CAT, " ".join(x)))
            cat = True
        elif k < .65:
            q.append((srv.RESET_PREF,))
        else:
            w = r.choice(y)
            q.append((srv.ADD_STR, r.choice([w + " ", " ".join(y[:2]) + " ", w[:1], " "])))
    return q


def play(port, user, q, out, err, **kw):
    for x in q:
        try:
            out.append(srv.request(port, x[0], user, *x[1:], **kw))
        except Exception as e:
            err.append("%s: %r" % (x, e))
            out.append(None)


def concurrent(c):
    r = c.r
    tsan = c.i % 2 == 1
    sv, tv, ss, ts = srv.toy(c, r)
    f = srv.cfg(c, r, **(srv.disk(c, r, c.ctx.Q if tsan else c.P) if r.random() < .4 else {}))
    s = server(c, f, c.ctx.Q if tsan else None, tsan)
    try:
        nu = r.randint(3, 8)
        qs = [script(r, ss, ts, sv, tv, r.randint(4, 14)) for _ in range(nu)]
        seq, err = [], []
        for u, q in enumerate(qs):
            o = []
            play(s.port, 100 + u, q, o, err)
            seq.append(o)
        if err:
            c.note(s.text()[-5000:])
            k = runner.san_key(s.text())
            c.fail(("died:" + k) if k else "request", "a request of a single user fails: %s" % err[0])
        par = [[] for _ in qs]
        errs = [[] for _ in qs]
        for rnd in range(2):
            for p in par:
                p.clear()
            # some users send their requests in fragments
            kws = [dict(chunk=(lambda rr=random.Random(u): rr.randint(1, 5)), delay=.0005) if r.random() < .3 else {} for u in range(nu)]
            th = [threading.Thread(target=play, args=(s.port, 10 * (rnd + 1) + u if rnd else 100 + u, q, par[u], errs[u]), kwargs=kws[u]) for u, q in enumerate(qs)]
            [t.start() for t in th]
            [t.join() for t in th]
            for u, q in enumerate(qs):
                if errs[u]:
                    c.note(s.text()[-5000:])
                    k = runner.san_key(s.text())
                    c.fail(("died:" + k) if k else "request", "a request fails when %d users are active: %s" % (nu, errs[u][0]))
                # with the same user id the second time, a request without a session before it sees the old session: skip those
                skip = rnd == 0
                for x, a, b in zip(q, seq[u], par[u]):
                    if x[0] == srv.START_CAT:
                        skip = False
                    if skip and x[0] == srv.ADD_STR:
                        continue
                    c.ctx.count("concurrent_answers")
                    c.ctx.distinct((c.i, x, b))
                    if a != b:
                        c.note("user's requests:", q)
                        c.fail("interference:%d" % x[0], "request %r is answered with %r when %d users are active, alone with %r" % (x, b, nu, a))
        t = finish(c, s)
        races(c, t)
    finally:
        s.kill()


# ---------------------------------------------------------------- learning while others translate
def ngrams(sents, n):
    k = collections.Counter()
    for s in sents:
        w = ["<bos>"] * (n - 1) + list(s) + ["<eos>"]
        for o in range(1, n + 1):
            for i in range(n - 1, len(w)):
                k[tuple(w[i - o + 1:i + 1])] += 1
    return k


def learning(c):
    r = c.r
    tsan = c.i % 3 != 1
    sv, tv, ss, ts = srv.toy(c, r)
    before = collections.Counter()
    def lmcounts():
        k = collections.Counter()
        for l in c.read("lm").splitlines():
            w = l.split()
            if len(w) >= 3:
                k[tuple(w[:-2])] += float(w[-1])
        return k
    before = lmcounts()
    f = srv.cfg(c, r)
    s = server(c, f, c.ctx.Q if tsan else None, tsan)
    try:
        nu = r.randint(3, 6)
        trained, lock = [], threading.Lock()
        errs = []
        def user(u):
            rr = random.Random("%s/%s/%s" % (c.ctx.seed, c.i, u))
            for k in range(rr.randint(6, 14)):
                op = rr.choice([srv.TRANSLATE, srv.TRANSLATE, srv.VERIFY_COV, srv.START_CAT, srv.ADD_STR, srv.RESET_PREF, srv.OL_TRAIN, srv.OL_TRAIN, srv.TRAIN_ECM] + [srv.PRINT_MODELS] * (rr.random() < .3))
                i = rr.randrange(len(ss))
                x, y = list(ss[i]), list(ts[i])
                if rr.random() < .4:
                    x.insert(rr.randrange(len(x) + 1), "unk%d" % rr.randrange(1000))
                if rr.random() < .4:
                    y.insert(rr.randrange(len(y) + 1), "trg%d" % rr.randrange(1000))
                a = ()
                if op in (srv.TRANSLATE, srv.START_CAT):
                    a = (" ".join(x),)
                if op in (srv.VERIFY_COV, srv.OL_TRAIN, srv.TRAIN_ECM):
                    a = (" ".join(x), " ".join(y))
                if op == srv.ADD_STR:
                    a = (" ".join(y[:rr.randint(1, 3)]) + " ",)
                try:
                    v = srv.request(s.port, op, u, *a, timeout=120)
                except Exception as e:
                    errs.append("%s %s: %r" % (op, a, e))
                    return
                c.ctx.count("learning_requests")
                if op == srv.OL_TRAIN:
                    if v == (0,):
                        with lock:
                            trained.append(y)
                    else:
                        errs.append("training of %r answered with %r" % (a, v))
        th = [threading.Thread(target=user, args=(u,)) for u in range(nu)]
        [t.start() for t in th]
        [t.join() for t in th]
        if errs:
            c.note(s.text()[-6000:])
            k = runner.san_key(s.text())
            c.fail(("died:" + k) if k else "request", "request fails while %d users are active: %s" % (nu, errs[0]))
        v = srv.request(s.port, srv.PRINT_MODELS, 0, timeout=120)
        if v != (0,):
            c.fail("print", "printing the models is answered with %r" % (v,))
        t = finish(c, s)
        races(c, t)
        # every acknowledged sentence was learned exactly once, whatever the interleaving
        after = lmcounts()
        order = max(len(x) for x in after)
        one = [x for x in after if len(x) == 1]
        c.ctx.count("trained_sentences", len(trained))
        for w in set(x for y in trained for x in y) | set(w[0] for w in one):
            if w.startswith("<"):
                continue
            want = before[(w,)] + sum(y.count(w) for y in trained)
            if after[(w,)] != want:
                c.note("trained:", trained)
                c.fail("learned", "the saved language model counts %r %g times; %g times before, %d times in the %d acknowledged sentences" % (w, after[(w,)], before[(w,)], want - before[(w,)], len(trained)))
            c.ctx.count("learned_words")
        c.ctx.distinct((c.i, len(trained), tuple(sorted(after.items()))[:50]))
    finally:
        s.kill()


# ---------------------------------------------------------------- hostile clients
def hostile(c):
    r = c.r
    sv, tv, ss, ts = srv.toy(c, r)
    s = server(c, srv.cfg(c, r))
    pk = srv.Client.pack
    try:
        src = " ".join(r.choice(ss))
        ref = (src, srv.request(s.port, srv.TRANSLATE, 900, src))
        for _ in range(14):
            k = r.randrange(11)
            op = r.choice([1, 2, 3, 4, 5, 6, 7])
            x = " ".join(r.choice(ss))
            y = " ".join(r.choice(ts))
            n = r.choice([0, 1, -1, -2, 2, 0x7fffffff, -0x80000000, 1 << 20, 100000, 7])
            u = r.choice([0, 1, 5, -1, 0x7fffffff, -0x80000000])
            if k == 0:
                what, b = "a bad length", pk(op, u) + struct.pack("!i", n) + x.encode()
            elif k == 1:
                what, b = "a truncated header", pk(op, u)[:r.randrange(8)]
            elif k == 2:
                b = pk(op, u, x, y)
                what, b = "a truncated request", b[:r.randrange(len(b))]
            elif k == 3:
                what, b = "an unknown request", pk(r.choice([0, 10, 12, -1, 99, 0x7fffffff]), u, x)
            elif k == 4:
                what, b = "random bytes", bytes(r.randrange(256) for _ in range(r.randint(1, 200)))
                if b[:4] == b"\0\0\0\x0b":
                    continue
            elif k == 5:
                what, b = "bytes that are not UTF-8", pk(op, u, bytes(r.randrange(1, 256) for _ in range(r.randint(1, 40))), bytes(r.randrange(1, 256) for _ in range(r.randint(1, 40))))
            elif k == 6:
                what, b = "an empty string", pk(op, u, r.choice(["", " ", "   "]), r.choice(["", " ", x]))
            elif k == 7:
                what, b = "a NUL byte in the string", pk(op, u, b"a\0b c", b"\0")
            elif k == 8:
                what, b = "markup", pk(op, u, r.choice(["<phr_pair_annot>", "</phr_pair_annot>", "<phr_pair_annot><src_segm>a</src_segm>", "<phr_pair_annot><src_segm>a</src_segm><trg_segm>A</trg_segm></phr_pair_annot>",
                                                          "<src_segm>", "<", "a <b> c", "<phr_pair_annot></phr_pair_annot> a", "&amp;", "%%", "* * *"]), r.choice([y, "<trg_segm>", "<"]))
            elif k == 9:
                what, b = "a long word", pk(op, u, "w" * r.choice([1000, 10000]), y)
            else:
                what, b = "a long sentence", pk(op if op not in (4, 5) else 2, u, " ".join(r.choice(sv) for _ in range(r.choice([30, 60, 90]))), " ".join([r.choice(tv) for _ in range(30)]))
            c.note("op", op, "user", u, what, b[:120])
            trains = len(b) >= 4 and struct.unpack("!i", b[:4])[0] in (4, 5)
            cl = srv.Client(s.port, timeout=60)
            try:
                cl.raw(b)
                m = r.randrange(3)
                if m == 0:
                    pass                          # gone before the answer
                elif m == 1:
                    cl.s.shutdown(1)
                    cl.rest()
                elif k in (1, 2, 0):
                    # the client does nothing for a while: others must be served (but for the header, see below)
                    if k != 1:
                        if len(b) >= 8:
                            health(c, s, ref, what + " (connection open)") if not trains else None
                    cl.s.shutdown(1)
                else:
                    cl.s.shutdown(1)
            except OSError:
                pass
            finally:
                cl.close()
            c.ctx.count("hostile:" + what)
            c.ctx.distinct((c.i, b, m))
            if trains:
                try:
                    ref = (src, srv.request(s.port, srv.TRANSLATE, 900, src))
                    for _ in range(3):
                        ref = (src, srv.request(s.port, srv.TRANSLATE, 900, src))
                except Exception:
                    pass
            health(c, s, ref, what) if not trains else health_only(c, s, what)
            if trains:
                # what was learned may change answers from now on, once the request is done
                time.sleep(.2)
                ref = (src, srv.request(s.port, srv.TRANSLATE, 900, src))
        finish(c, s)
    finally:
        s.kill()


def health_only(c, s, what):
    try:
        srv.request(s.port, srv.TRANSLATE, 901, "a")
    except Exception as x:
        c.note(s.text()[-6000:])
        c.fail("died:" + (runner.san_key(s.text()) or "rc=%s" % s.p.poll()), "the server does not answer after %s: %r" % (what, x))
    c.ctx.count("health_checks")


# ---------------------------------------------------------------- shutdown while requests are pending
def shutdown(c):
    r = c.r
    tsan = c.i % 2 == 1
    sv, tv, ss, ts = srv.toy(c, r)
    s = server(c, srv.cfg(c, r, S=r.choice([20, 50]), W=10), c.ctx.Q if tsan else None, tsan)
    try:
        xs = [" ".join(r.choice(sv) for _ in range(r.randint(6, 14))) for _ in range(r.randint(2, 6))]
        want = [srv.request(s.port, srv.TRANSLATE, 50 + i, x) for i, x in enumerate(xs)]
        cl = [srv.Client(s.port) for _ in xs]
        # every request has been accepted (its header was read) before END is sent
        late = r.randrange(len(xs) + 1)
        for i, (k, x) in enumerate(zip(cl, xs)):
            k.raw(k.pack(srv.TRANSLATE, 50 + i))
            if i >= late:
                k.raw(k.pack(x))
        time.sleep(.05)
        for i in range(60):
            n = s.text().count("\n")
            if n >= 0:
                break
        got = [None] * len(xs)
        # an answered request shows that the ones before it were accepted
        srv.request(s.port, srv.TRANSLATE, 49, xs[0])
        res = []
        t = threading.Thread(target=lambda: res.append(s.stop()))
        t.start()
        time.sleep(r.choice([0, .02, .1]))
        for i in range(late):
            cl[i].raw(cl[i].pack(xs[i]))
        for i, k in enumerate(cl):
            try:
                got[i] = (k.str(), k.str())
            except Exception as e:
                got[i] = repr(e)
            k.close()
        t.join()
        v, rc = res[0]
        tx = s.text()
        races(c, tx)
        for i in range(len(xs)):
            c.ctx.count("pending_at_end")
            if got[i] != want[i]:
                c.note(tx[-4000:])
                c.fail("pending", "a request accepted before END is answered with %r instead of %r" % (got[i], want[i]))
        if v != (0,) or rc != 0:
            c.note(tx[-4000:])
            c.fail("end", "END is answered with %s and the server's exit status is %s" % (v, rc))
        c.ctx.count("shutdowns")
        c.ctx.distinct(("shutdown", c.i, late, tuple(xs)))
    finally:
        s.kill()


# ---------------------------------------------------------------- client tool, strings of any length
def client(c):
    r = c.r
    sv, tv, ss, ts = srv.toy(c, r)
    s = server(c, srv.cfg(c, r))
    try:
        for _ in range(3):
            x = " ".join(r.choice(sv) for _ in range(r.randint(1, 5)))
            a = srv.request(s.port, srv.TRANSLATE, 1, x)
            o = c.tool("thot_client", "-i", "127.0.0.1", "-p", s.port, "-uid", r.randint(0, 3), "-t", x).text()
            l = [y for y in o.splitlines() if y.startswith("<") or y]
            if a[0] not in l and not any(a[0].strip() == y.strip() for y in l):
                c.fail("client", "thot_client prints %r for %r, the server's answer is %r" % (o, x, a))
            c.ctx.count("client_answers")
        # words unknown to the models are copied: long strings come back byte for byte
        for n in (r.randint(100, 300), r.randint(2000, 9000), r.randint(20000, 60000)):
            w = "".join(r.choice("xyzw\u00e9\u4e16\U0001f600") for _ in range(n))
            a = srv.request(s.port, srv.TRANSLATE, 2, w, chunk=(lambda: r.randint(1, 3000)), delay=0)
            if a[0].strip() != w:
                c.fail("copy", "an unknown word of %d characters comes back with %d" % (len(w), len(a[0])))
            c.ctx.count("long_strings")
        finish(c, s)
    finally:
        s.kill()


# ---------------------------------------------------------------- every request of the client tool against the same request of the protocol
def client_modes(c):
    r = c.r
    sv, tv, ss, ts = srv.toy(c, r)
    s = server(c, srv.cfg(c, r))
    sent = lambda: " ".join(r.choice(sv + ["zz"]) for _ in range(r.randint(1, 5)))

    def tool(u, *a, ok=(0,)):
        v = ["-v"] if r.random() < .2 else []
        return c.tool("thot_client", "-i", r.choice(["127.0.0.1", "localhost"]), "-p", s.port, "-uid", u, *v, *a, ok=ok)

    def same(what, o, want):
        c.ctx.count("client_" + what)
        if o.text() != "".join(x + "\n" for x in want):
            c.note(o.err[-500:])
            c.fail("client-" + what, "thot_client prints %r, the server answers %r" % (o.text(), want))

    try:
        pref = {}
        for _ in range(14):
            u = r.randint(1, 3)
            k = r.choice(["t", "th", "j", "c", "tr", "cat", "cat"])
            x = sent()
            if k == "t":
                same(k, tool(u, "-t", x), srv.request(s.port, srv.TRANSLATE, 10 + u, x)[:1])
            elif k == "th":
                a = srv.request(s.port, srv.TRANSLATE, 10 + u, x)
                same(k, tool(u, "-th", x), (a[1], a[0]))
            elif k == "j":
                # the lines of the file are the sentence, in pieces
                w = x.split(" ")
                l = [[]]
                for y in w:
                    l[-1].append(y)
                    if r.random() < .4:
                        l.append([])
                c.write("in.json", "".join(" ".join(y) + (" " if y else "") + "\n" for y in l))
                same(k, tool(u, "-j", "in.json"), srv.request(s.port, srv.TRANSLATE, 10 + u, "".join(" ".join(y) + (" " if y else "") for y in l))[:1])
            elif k == "c":
                y = " ".join(r.choice(ts)) if r.random() < .7 else " ".join(r.choice(tv) for _ in range(3))
                x = " ".join(r.choice(ss))
                same(k, tool(u, "-c", x, y), srv.request(s.port, srv.VERIFY_COV, 10 + u, x, y))
            elif k == "tr":
                i = r.randrange(len(ss))
                o = tool(u, "-tr", " ".join(ss[i]), " ".join(ts[i]))
                same(k, o, ())
            else:
                # the user of the tool and the one of the protocol go through the same session
                same("sc", tool(u, "-sc", x), srv.request(s.port, srv.START_CAT, 10 + u, x))
                for _ in range(r.randint(1, 3)):
                    if r.random() < .25:
                        same("rp", tool(u, "-rp"), ())
                        srv.request(s.port, srv.RESET_PREF, 10 + u)
                    y = r.choice(tv + [" ", "A", "zz "])
                    same("ap", tool(u, "-ap", y), srv.request(s.port, srv.ADD_STR, 10 + u, y))
            c.ctx.distinct(("client", k, x))
        # nothing to ask, nobody to ask, no file to read: the tool says so
        for a in (["-p", s.port], ["-p", srv.free_port(), "-t", x], ["-p", s.port, "-j", "nothing.json"]):
            if c.tool("thot_client", "-i", "127.0.0.1", *a, ok=None).rc == 0:
                c.fail("client-error", "thot_client %s exits with 0" % " ".join(map(str, a)))
            c.ctx.count("client_errors")
        if r.random() < .5:
            same("e", tool(0, "-e"), ())
            s.p.wait(60)
            if s.p.returncode != 0:
                c.note(s.text()[-3000:])
                c.fail("end", "the server exits with %s" % s.p.returncode)
            races(c, s.text())
        else:
            finish(c, s)
    finally:
        s.kill()


# ---------------------------------------------------------------- a client that says nothing
def silent(c):
    r = c.r
    sv, tv, ss, ts = srv.toy(c, r)
    s = server(c, srv.cfg(c, r))
    try:
        x = " ".join(r.choice(ss))
        a = srv.request(s.port, srv.TRANSLATE, 1, x)
        cl = srv.Client(s.port)
        if r.random() < .5:
            cl.raw(cl.pack(srv.TRANSLATE)[:r.randrange(4)])
        try:
            b = srv.request(s.port, srv.TRANSLATE, 1, x, timeout=10)
        except OSError:
            c.fail("silent-client", "a client that connects and sends no request keeps the server from serving others")
        finally:
            cl.close()
        c.ctx.count("silent_clients")
        if b != a:
            c.fail("answer-changed", "%r is translated as %r, before as %r" % (x, b, a))
        finish(c, s)
    finally:
        s.kill()


def run(ctx):
    ctx.rule = ("random toy systems served by the real thot_server (ASan/UBSan and TSan builds); distinct by request and answer, byte string sent, or "
                "counts learned")
    ctx.Q = ctx.prefix("tsan", progs=["thot_server"], scripts=False)
    P = ctx.prefix(progs=["thot_server", "thot_client", "thot_gen_sw_model", "thot_ttable_to_leveldb", "thot_ttable_to_fbdb", "thot_ngram_to_leveldb"], scripts=True)
    n = ctx.pick(1, 15)
    cases(ctx, "concurrent", concurrent, 16 * n, P, jobs=6)
    cases(ctx, "learning", learning, 12 * n, P, jobs=6)
    cases(ctx, "hostile", hostile, 16 * n, P)
    cases(ctx, "shutdown", shutdown, 16 * n, P)
    cases(ctx, "client", client, 6 * n, P)
    cases(ctx, "client_modes", client_modes, 6 * n, P)
    cases(ctx, "silent", silent, 1, P)
    ctx.require(concurrent_answers=800, learning_requests=250, trained_sentences=40, learned_words=100, health_checks=120, shutdowns=35,
                pending_at_end=30, client_answers=12, client_t=3, client_th=3, client_j=3, client_c=3, client_tr=3, client_sc=8, client_ap=15, client_rp=3, client_e=1,
                client_errors=15, long_strings=12, distinct=500)
