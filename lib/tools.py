"""Running the installed tools inside a scratch directory, in parallel."""
import os, random, re, shutil, signal, struct, subprocess, sys, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor
import bld, runner


class Res:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def text(self):
        return self.out.decode("utf-8", "replace")


def run(cmd, stdin=b"", cwd=None, timeout=90, env=None):
    e = dict(os.environ)
    e.update(runner.ENV)
    e["TMPDIR"] = cwd or "/tmp"
    e.update(env or {})
    if isinstance(stdin, str):
        stdin = stdin.encode()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e, start_new_session=True)
    try:
        o, er = p.communicate(stdin, timeout)
        return Res(p.returncode, o, er.decode("utf-8", "replace"))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            pass
        return Res(None, b"", "timeout")


class Case:
    """One generated case: its own random stream and scratch directory."""
    def __init__(self, ctx, name, i, P):
        self.ctx, self.name, self.i, self.P = ctx, name, i, P
        self.r = random.Random("%s/%s/%s" % (ctx.seed, name, i))
        self.d = tempfile.mkdtemp(prefix="c-", dir=ctx.scratch)
        self.notes = []

    def bin(self, n):
        return os.path.join(self.P, "bin", n)

    def write(self, n, text):
        p = os.path.join(self.d, n)
        with open(p, "wb") as f:
            f.write(text.encode() if isinstance(text, str) else text)
        return p

    def read(self, n):
        with open(os.path.join(self.d, n), "rb") as f:
            return f.read().decode("utf-8", "replace")

    def path(self, n):
        return os.path.join(self.d, n)

    def note(self, *a):
        self.notes.append(" ".join(str(x) for x in a)[:4000])

    def fail(self, key, msg, **kw):
        self.ctx.viol(key, msg, seed=self.ctx.seed, part=self.name, case=self.i, log="\n".join(self.notes)[-12000:], **kw)
        raise Fail()

    def tool(self, *cmd, stdin=b"", timeout=90, ok=(0,), env=None, shell=None, cwd=None):
        """Run a tool that must succeed.  Sanitizer reports and crashes are violations."""
        cmd = list(cmd)
        if shell:
            cmd = ["/bin/bash", "-c", shell]
        elif "/" not in cmd[0]:
            cmd[0] = self.bin(cmd[0])
        cmd = [str(x) for x in cmd]
        self.note("$", " ".join(cmd).replace(self.d, "."))
        r = run(cmd, stdin, cwd or self.d, timeout, env)
        if r.rc is None:
            r = run(cmd, stdin, cwd or self.d, timeout, env)
            if r.rc is None:
                self.fail("hang:" + os.path.basename(cmd[0]), "%s did not end within %d s, twice" % (cmd[0], timeout))
        k = runner.san_key(r.err)
        nm = os.path.basename(cmd[0]) if not shell else "pipeline"
        if k:
            self.note(r.err[-5000:])
            self.fail("crash:" + k, "%s: sanitizer report" % nm)
        if r.rc < 0 or r.rc in (134, 139, 77, 66):
            self.note(r.err[-5000:])
            self.fail("crash:%s:rc=%s" % (nm, r.rc), "%s ended with rc=%s" % (nm, r.rc))
        if ok is not None and r.rc not in ok:
            self.note(r.err[-3000:])
            self.fail("exit:%s:%s" % (nm, r.rc), "%s ended with rc=%s: %s" % (nm, r.rc, r.err[-300:]))
        return r


class Fail(Exception):
    pass


UNREADABLE = (ValueError, LookupError, TypeError, AttributeError, ArithmeticError, FileNotFoundError, NotADirectoryError, EOFError, struct.error)


def cases(ctx, name, fn, n, P=None, jobs=None):
    """fn(case) for n generated cases; violations are recorded.  What the oracle cannot read (missing files, other formats), twice, is a violation."""
    def one(i, again=True):
        if ctx.hung:
            return
        c = Case(ctx, name, i, P)
        odd = None
        try:
            fn(c)
            ctx.eval()
        except Fail:
            pass
        except UNREADABLE as e:
            t = traceback.extract_tb(e.__traceback__)
            own = [x for x in t if os.path.basename(os.path.dirname(x.filename)) == "checks"] or list(t)
            odd = "%s@%s" % (type(e).__name__, own[-1].name)
            c.note(traceback.format_exc()[-3000:])
            if not again:
                try:
                    c.fail("unreadable:" + odd, "the output cannot be read: %s: %s" % (type(e).__name__, str(e).replace(c.d, ".")[:300]))
                except Fail:
                    odd = None
        finally:
            shutil.rmtree(c.d, ignore_errors=True)
        if odd:
            one(i, False)
    if ctx.replay:
        if ctx.replay.get("part") != name:
            return
        one(ctx.replay["case"])
        return
    with ThreadPoolExecutor(jobs or bld.JOBS) as ex:
        for f in [ex.submit(one, i) for i in range(n)]:
            f.result()
    if ctx.hung:
        raise runner.Hung()
