"""A toy translation system on disk, the translation server running it, and a client of its protocol."""
import os, random, signal, socket, struct, subprocess, threading, time
import tools, runner

VERIFY_COV, TRANSLATE, TRANSLATE_INFO, OL_TRAIN, TRAIN_ECM, START_CAT, ADD_STR, RESET_PREF, PRINT_MODELS, END = 1, 2, 3, 4, 5, 6, 7, 8, 9, 11


def toy(c, r, nsent=12, tmopts=(), sv=None, tv=None, order=None):
    """Writes models tm*, lm* and the corpus into c.d with the installed tools; returns the vocabularies and sentences."""
    sv = sv or r.sample(["a", "b", "c", "d", "e", "1", "\u00f1", ",", "x_y", "AB", "&", "(", "%"], r.randint(4, 8))
    tv = tv or r.sample(["A", "B", "C", "Ab", "Abc", "2", "\u00e7", ".", "z'", "Bd", "a", "Cd"], r.randint(4, 8))
    dic = {s: [r.choice(tv) for _ in range(r.randint(1, 2))] for s in sv}
    ss, ts = [], []
    for _ in range(nsent):
        s = [r.choice(sv) for _ in range(r.randint(1, 6))]
        t = [r.choice(dic[x]) for x in s]
        if r.random() < .3 and len(t) > 1:
            i = r.randrange(len(t) - 1)
            t[i], t[i + 1] = t[i + 1], t[i]
        if r.random() < .3:
            t.insert(r.randrange(len(t) + 1), r.choice(tv))
        ss.append(s)
        ts.append(t)
    # every word is seen
    ss.append(list(sv)); ts.append([dic[x][0] for x in sv])
    ss.append(list(sv)); ts.append(list(tv))
    c.write("src", "".join(" ".join(x) + "\n" for x in ss))
    c.write("trg", "".join(" ".join(x) + "\n" for x in ts))
    order = order or r.randint(1, 3)
    c.write("lm", c.tool("thot_get_ngram_counts", "-c", "trg", "-n", order).out)
    c.write("lm.weights", "%d 1 1000 %s\n" % (order, " ".join("%g" % r.uniform(.3, .9) for _ in range(order))))
    it = r.randint(1, 3)
    c.tool("thot_gen_sw_model", "-s", "trg", "-t", "src", "-eb", "-n", it, "-o", "tm_swm")
    c.tool("thot_gen_sw_model", "-s", "src", "-t", "trg", "-eb", "-n", it, "-o", "tm_invswm")
    tab = {}
    for s, t in zip(ss, ts):
        for i in range(len(s)):
            for l in (1, 2, 3):
                if i + l <= len(s) and i < len(t):
                    k = (tuple(t[i:i + l + r.choice([0, 0, 1]) - (r.random() < .1)]) or tuple(t[i:i + 1]), tuple(s[i:i + l]))
                    tab[k] = tab.get(k, 0) + 1
    ct = {}
    for (t, s), n in tab.items():
        ct[t] = ct.get(t, 0) + n
    c.write("tm.ttable", "".join("%s ||| %s ||| %d %d\n" % (" ".join(t), " ".join(s), ct[t], n) for (t, s), n in tab.items()))
    c.write("tm.lambda", "%g %g\n" % (r.choice([.1, .5, .9]), r.choice([.1, .5, .9])))
    if r.random() < .5:
        c.write("tm.trgcutstable", "%g\n" % r.choice([.5, .9, .999]))
    if r.random() < .5:
        c.write("tm.srcsegmlentable", "Geometric\n")
    return sv, tv, ss, ts


def disk(c, r, P):
    """Phrase table or language model (or both) on disk, loaded through descriptors with the modules of prefix P."""
    kw = {}
    k = r.choice(["tm", "lm", "both"])
    if k != "lm":
        if r.random() < .5:
            c.tool("thot_gen_leveldb_ttable", "-p", "tm", "-o", "tm")
            so = "leveldb_phrase_model"
        else:
            c.tool("thot_gen_fbdb_ttable", "-p", "tm", "-o", "tm")
            so = "fast_bdb_phrase_model"
        c.write("tm_desc", "thot tm descriptor\n%s/lib/%s_factory.so tm main\n" % (P, so))
        kw["tm"] = c.path("tm_desc")
        c.ctx.count("tm:" + so)
    if k != "tm":
        c.tool("thot_ngram_to_leveldb", "-o", "lmdb", stdin=c.read("lm"))
        c.write("lmdb.weights", c.read("lm.weights"))
        c.write("lm_desc", "thot lm descriptor\n%s/lib/incr_jel_mer_leveldb_ngram_lm_factory.so lmdb main\n" % P)
        kw["lm"] = c.path("lm_desc")
        c.ctx.count("lm:leveldb")
    return kw


def cfg(c, r, **kw):
    o = {"tm": c.path("tm"), "lm": c.path("lm"), "W": r.choice([2, 5, 10]), "S": r.choice([5, 10, 50]), "A": 7, "nomon": r.choice([0, 0, 2]), "h": r.choice([4, 6]), "sp": 0,
         "olp": "0 0 1 %d 1 0" % r.randint(1, 3)}
    o.update(kw)
    return c.write("server.cfg", "".join("-%s %s\n" % (k, v) for k, v in o.items() if v is not None))


class Client:
    def __init__(self, port, timeout=60, chunk=None, delay=0):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=timeout)
        self.chunk, self.delay = chunk, delay

    def raw(self, b):
        if not self.chunk:
            self.s.sendall(b)
            return
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        i = 0
        while i < len(b):
            n = self.chunk()
            self.s.sendall(b[i:i + n])
            i += n
            if self.delay:
                time.sleep(self.delay)

    @staticmethod
    def pack(*xs):
        o = b""
        for x in xs:
            if isinstance(x, int):
                o += struct.pack("!i", x)
            else:
                b = x if isinstance(x, bytes) else x.encode()
                o += struct.pack("!i", len(b)) + b
        return o

    def read(self, n):
        b = b""
        while len(b) < n:
            x = self.s.recv(n - len(b))
            if not x:
                raise EOFError("connection closed after %d of %d bytes" % (len(b), n))
            b += x
        return b

    def int(self):
        return struct.unpack("!i", self.read(4))[0]

    def str(self):
        return self.read(self.int()).decode("utf-8", "replace")

    def rest(self):
        b = b""
        while True:
            x = self.s.recv(65536)
            if not x:
                return b
            b += x

    def close(self):
        self.s.close()


def request(port, op, user, *args, **kw):
    """The reply to one request, as a tuple."""
    c = Client(port, **kw)
    try:
        c.raw(c.pack(op, user, *args))
        if op in (TRANSLATE, TRANSLATE_INFO):
            v = (c.str(), c.str())
        elif op in (VERIFY_COV, START_CAT, ADD_STR):
            v = (c.str(),)
        else:
            v = (c.int(),)
        r = c.rest()
        if r:
            raise ValueError("%d bytes more than the reply" % len(r))
        return v
    finally:
        c.close()


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Server:
    def __init__(self, c, P, cfgfile, args=(), env=None, start_timeout=60, wrap=()):
        self.c = c
        for attempt in range(5):
            self.port = free_port()
            self.log = c.path("server.log")
            e = dict(os.environ)
            e.update(runner.ENV)
            e.update(env or {})
            self.f = open(self.log, "wb")
            self.p = subprocess.Popen(list(wrap) + [os.path.join(P, "bin", "thot_server"), "-c", cfgfile, "-p", str(self.port), *args], cwd=c.d, env=e,
                                      stdin=subprocess.DEVNULL, stdout=self.f, stderr=self.f, start_new_session=True)
            t = time.time()
            while time.time() - t < start_timeout:
                if self.p.poll() is not None:
                    break
                if b"Listening to port" in open(self.log, "rb").read():
                    return
                time.sleep(.03)
            if b"bind error" not in open(self.log, "rb").read():
                break
        self.kill()
        k = runner.san_key(self.text())
        c.note(self.text()[-3000:])
        c.fail(("start:" + k) if k else "start", "the server did not start (%s)" % self.p.poll())

    def text(self):
        return open(self.log, "rb").read().decode("utf-8", "replace")

    def alive(self):
        return self.p.poll() is None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.f.close()

    def stop(self, timeout=60):
        """END request; the server must acknowledge it, finish what it is doing and exit with 0."""
        try:
            v = request(self.port, END, 0, timeout=timeout)
            self.p.wait(timeout)
        except Exception as x:
            v = repr(x)
        rc = self.p.poll()
        if rc is None:
            self.kill()
        self.f.close()
        return v, rc
