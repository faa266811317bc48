"""Content-addressed build of /repo/src (sanitized variants) and of the harnesses.

Nothing is keyed on time stamps: an object is reused only when the compiler
flags and the contents of the source file and of every file it includes
(transitively, from /repo/src and /verif) are the same, so a check can never
judge a stale build.  build/ is git-ignored and can be deleted at any time.
"""
import hashlib, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))

SUB = ["nlp_common", "incr_models", "sw_models", "phrase_models", "smt_preproc",
       "error_correction", "downhill_simplex", "stack_dec", "hat_trie", "picojson"]

MODULES = {   # module -> Makefile.am variables
    "nlp": ["nlp_common_defs"],
    "incr": ["incr_models_defs", "leveldb_lm_defs"],
    "sw": ["sw_models_defs", "leveldb_sw_defs"],
    "phr": ["phrase_models_defs", "bdb_pm_defs", "hattrie_pm_defs", "leveldb_pm_defs"],
    "ec": ["error_correction_defs"],
    "dhs": ["downhill_simplex_defs"],
    "dec": ["stack_dec_defs", "leveldb_stack_dec_defs"],
}
ORDER = ["dec", "dhs", "ec", "phr", "sw", "incr", "nlp"]

SAN = {
    "asan": "-O1 -g1 -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,alignment,bool,enum -fno-sanitize-recover=all",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O2",
}
LIBS = "-ldb_cxx -lleveldb -lgmp -lz -lpthread -ldl"


class BuildError(Exception):
    pass


_cache = {}
_lock = threading.Lock()


def _read(p):
    with _lock:
        if p in _cache:
            return _cache[p]
    try:
        with open(p, "rb") as f:
            d = f.read()
    except OSError:
        d = None
    with _lock:
        _cache[p] = d
    return d


INC = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"\n]+)[>"]', re.M)
_inccache = {}


def _includes(p):
    if p not in _inccache:
        d = _read(p)
        _inccache[p] = [m.decode("latin-1") for m in INC.findall(d)] if d is not None else []
    return _inccache[p]


def incdirs():
    return [os.path.join(SRC, s) for s in SUB] + [SRC, os.path.join(VERIF, "lib"), os.path.join(VERIF, "harness")]


# headers included through a macro (LM_STATE_H and the like): always hashed
MACRO_INC = ["LM_State.h", "PpInfo.h", "SmtModel.h"]
_exists = {}


def closure(p):
    seen, todo = [], [p]
    seens = {p}
    dirs = incdirs()
    first = True
    while todo:
        q = todo.pop()
        seen.append(q)
        names = list(_includes(q))
        if first:
            names += MACRO_INC
            first = False
        for n in names:
            for d in [os.path.dirname(q)] + dirs:
                c = os.path.normpath(os.path.join(d, n))
                if c in seens:
                    break
                if c not in _exists:
                    _exists[c] = os.path.isfile(c)
                if _exists[c]:
                    seens.add(c)
                    todo.append(c)
                    break
    return sorted(seen)


def _h(parts):
    h = hashlib.sha256()
    for x in parts:
        if isinstance(x, str):
            x = x.encode()
        h.update(len(x).to_bytes(8, "little"))
        h.update(x)
    return h.hexdigest()[:32]


def _atomic(cmd, out, what):
    tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s: %s\n%s" % (what, " ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))
    os.replace(tmp, out)


def inst(variant):
    return os.path.join(BUILD, "inst-" + variant)


def compile_one(src, variant, extra=()):
    isc = src.endswith(".c")
    flags = ["gcc" if isc else "g++"] + ([] if isc else ["-std=c++11" if src.startswith(SRC) else "-std=c++17"])
    flags += SAN[variant].split() + ["-fPIC", "-w", "-DHAVE_CONFIG_H"]
    if not src.startswith(SRC):
        flags += ["-DVERIF_HARNESS"]
    for d in incdirs():
        flags += ["-I" + d]
    flags += ["-DTHOT_MASTER_INI_PATH=\"%s/share/thot/ini_files/master.ini\"" % inst(variant),
              "-DTHOT_LIBDIR=\"%s/lib\"" % inst(variant)] + list(extra)
    parts = [" ".join(flags), src]
    for f in closure(src):
        parts += [f, _read(f) or b""]
    key = _h(parts)
    d = os.path.join(BUILD, "obj", key[:2])
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + ".o")
    if os.path.exists(out):
        os.utime(out)
    else:
        _atomic(flags + ["-c", src], out, "compile")
    return out


def makefile_vars():
    t = _read(os.path.join(SRC, "Makefile.am")).decode("latin-1")
    t = re.sub(r"\\\n", " ", t)
    v = {}
    for m in re.finditer(r"^([A-Za-z_0-9]+)[ \t]*=[ \t]*(.*)$", t, re.M):
        if m.group(2).strip() or m.group(1) not in v:
            v[m.group(1)] = m.group(2).split()
    return v


def module_sources(mod):
    v = makefile_vars()
    out = []
    for var in MODULES[mod]:
        for f in v.get(var.replace("_defs", "_h"), []) + v.get(var, []):
            if f.endswith((".cc", ".c")) and "KenLm" not in f and f != "":
                if os.path.isfile(os.path.join(SRC, f)):
                    out.append(os.path.join(SRC, f))
    if mod == "nlp":   # the platform supplies these two (THOT_HAVE_GETLINE): keep what the Makefile keeps
        pass
    return out


def programs():
    v = makefile_vars()
    res = {}
    for k, val in v.items():
        if k.endswith("_SOURCES") and k != "thot_test_SOURCES":
            cc = [os.path.join(SRC, f) for f in val if f.endswith(".cc")]
            if len(cc) == 1 and os.path.isfile(cc[0]):
                res[k[:-8]] = cc[0]
    return res


def factories():
    v = makefile_vars()
    res = {}
    for k, val in v.items():
        if k.endswith("_factory_defs"):
            n = k[:-5]
            if n.startswith("kenlm"):
                continue
            res[n] = [os.path.join(SRC, f) for f in val if f.endswith(".cc")]
    return res


def pool_map(fn, items):
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(fn, *i) for i in items]
        return [f.result() for f in futs]


def objs(mods, variant):
    srcs = [s for m in ORDER if m in mods for s in module_sources(m)]
    # biggest first: better packing
    idx = sorted(range(len(srcs)), key=lambda i: -len(_read(srcs[i]) or b""))
    r = pool_map(compile_one, [(srcs[i], variant) for i in idx])
    res = [None] * len(srcs)
    for i, o in zip(idx, r):
        res[i] = o
    return res


def link(objects, variant, name, extra=(), shared=False):
    cmd = ["g++"] + SAN[variant].split() + (["-shared", "-fPIC"] if shared else ["-rdynamic"]) + list(objects)
    cmd += list(extra) + LIBS.split()
    key = _h([" ".join(cmd), name])
    d = os.path.join(BUILD, "bin", key)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, name)
    if os.path.exists(out):
        os.utime(out)
    else:
        _atomic(cmd, out, "link")
    return out


def harness(name, variant="asan", extra=()):
    """Build harness/<name>.cc.  Its first line says what it links: // MODULES: nlp phr"""
    src = os.path.join(VERIF, "harness", name + ".cc")
    first = open(src).readline()
    if re.match(r"//\s*LINK:\s*shared", first):    # against libthot.so, for the factory modules' sake
        with ThreadPoolExecutor(1) as ex:
            fut = ex.submit(compile_one, src, variant, extra)
            p = prefix(variant, [], False, True)
            h = fut.result()
        ldir = os.path.dirname(os.path.realpath(os.path.join(p, "lib", "libthot.so")))
        return link([h], variant, name, extra=["-L" + ldir, "-lthot", "-Wl,-rpath," + ldir])
    m = re.match(r"//\s*MODULES:\s*(.*)", first)
    mods = m.group(1).split() if m else list(ORDER)
    if "all" in mods:
        mods = list(ORDER)
    addsrc = []
    for f in re.findall(r"^// ADD:\s*(\S+)", open(src).read(), re.M):
        addsrc.append(f if f.startswith("/") else os.path.join(SRC, f))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: [compile_one(src, variant, extra)])
        o = objs(mods, variant)
        h = fut.result()
    h += [compile_one(s, variant) for s in addsrc]
    # module objects go through an archive: unused ones are dropped, and with them
    # symbols the harness deliberately replaces
    ar = archive(o, variant)
    return link(h + [ar], variant, name)


def archive(o, variant):
    key = _h(["ar"] + o)
    d = os.path.join(BUILD, "bin", key)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "libmods.a")
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["ar", "crsT", tmp] + o, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("ar: " + r.stdout.decode())
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out


# ---------------------------------------------------------------- full prefix
SH_HEAD = r"""#! /usr/bin/bash
pkgname="thot"
version="3.2.0Beta"
bugreport="daniel.ortiz.phd@gmail.com"
bindir="{p}/bin/"
libdir="{p}/lib/"
ALT_LIBDIR="/"
datadir="{p}/share/thot"
LIBDIR_VARNAME="libdir"
PYTHON_VERSION="3.12"
AWK="/usr/bin/gawk"
SORT="/usr/bin/sort"
sortpars="-S 131072"
sortT="yes"
sortm="yes"
SPLIT="/usr/bin/split"
SED="/usr/bin/sed"
GREP="/usr/bin/grep"
UNIQ="/usr/bin/uniq"
BASENAME="/usr/bin/basename"
DIRNAME="/usr/bin/dirname"
SSH="/usr/bin/ssh"
HEAD="/usr/bin/head"
TAIL="/usr/bin/tail"
FIND="/usr/bin/find"
MKTEMP="/usr/bin/mktemp"
LN="/usr/bin/ln"
WC="/usr/bin/wc"
PASTE="/usr/bin/paste"
TOUCH="/usr/bin/touch"
CUT="/usr/bin/cut"
GZIP="/usr/bin/gzip"
PS="/usr/bin/ps"
NETSTAT="/usr/bin/netstat"
PIPE_FAIL="pipe_fail"
QSUB=""
QSUB_WORKS="no"
QSUB_TERSE_OPT=""
QSTAT=""
QSTAT_J_OPT=""
QRLS=""
DISABLE_FAST_DHSLM="0"
ENABLE_UPDATE_LIWEIGHTS="0"
ENABLE_DOWNHILL_LLW="0"
KENLM_BUILD_DIR="no"
FASTER_RNNLM_BUILD_DIR="no"
LDB_CXX="-ldb_cxx"
LEVELDB_LIB="-lleveldb"
"""


def install_scripts(p):
    """Same as utils/Makefile.am's suffix rules, into prefix p."""
    bind = os.path.join(p, "bin")
    os.makedirs(bind, exist_ok=True)
    pyd = os.path.join(p, "lib", "python3.12", "site-packages")
    os.makedirs(pyd, exist_ok=True)
    U = os.path.join(REPO, "utils")
    for d in sorted(os.listdir(U)):
        dd = os.path.join(U, d)
        if not os.path.isdir(dd):
            continue
        for f in sorted(os.listdir(dd)):
            b, e = os.path.splitext(f)
            src = os.path.join(dd, f)
            if e == ".sh":
                head = SH_HEAD.format(p=p)
            elif e == ".py":
                head = "#! %s\nimport sys\nsys.path.append(\"%s\")\n" % (PY, pyd)
                if b == "thot_smt_preproc":
                    shutil.copy(src, os.path.join(pyd, f))
                    continue
            elif e == ".awk":
                head = "#! /usr/bin/gawk -f\n"
            else:
                continue
            out = os.path.join(bind, b)
            with open(src, "rb") as g:
                body = head.encode() + g.read()
            _put(out, body)


def _put(out, body):
    try:
        with open(out, "rb") as f:
            if f.read() == body:
                return
    except OSError:
        pass
    tmp = out + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(body)
    os.chmod(tmp, 0o755)
    os.replace(tmp, out)


PY = shutil.which("python3") or "/usr/bin/python3"


def _place(src, dst):
    """Put a (content-addressed) build product at a fixed path of the prefix."""
    try:
        if os.readlink(dst) == src:
            return
    except OSError:
        pass
    tmp = dst + ".tmp%d" % os.getpid()
    try:
        os.unlink(tmp)
    except OSError:
        pass
    os.symlink(src, tmp)
    os.replace(tmp, dst)


def prefix(variant, progs=None, scripts=True, want_factories=True):
    """Build libthot.so, the factory modules and the programs into inst-<variant>."""
    p = inst(variant)
    for d in ("bin", "lib", "share/thot/ini_files"):
        os.makedirs(os.path.join(p, d), exist_ok=True)
    allp = programs()
    names = sorted(allp) if progs is None else [n for n in progs if n in allp]
    fac = factories() if want_factories else {}
    srcs = [s for m in ORDER for s in module_sources(m)]
    libset = set(srcs)
    todo = srcs + [allp[n] for n in names] + [s for f in fac.values() for s in f]
    todo = sorted(set(todo), key=lambda s: -len(_read(s) or b""))
    r = dict(zip(todo, pool_map(compile_one, [(s, variant) for s in todo])))
    lib = link([r[s] for s in srcs], variant, "libthot.so", shared=True, extra=["-Wl,-soname,libthot.so"])
    ldir = os.path.dirname(lib)
    _place(lib, os.path.join(p, "lib", "libthot.so"))

    def mk(n):
        b = link([r[allp[n]]], variant, n, extra=["-L" + ldir, "-lthot", "-Wl,-rpath," + ldir])
        _place(b, os.path.join(p, "bin", n))

    def mkf(n):
        b = link([r[s] for s in fac[n]], variant, n + ".so", shared=True,
                 extra=["-L" + ldir, "-lthot", "-Wl,-rpath," + ldir])
        _place(b, os.path.join(p, "lib", n + ".so"))

    pool_map(lambda f, n: f(n), [(mk, n) for n in names] + [(mkf, n) for n in fac])
    if scripts:
        install_scripts(p)
    install_data(p)
    return p


def install_data(p):
    ex = os.path.join(REPO, "examples")
    d = os.path.join(p, "share", "thot")
    for sub in ("ini_files", "cfg_templates", "toy_corpus"):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        for f in sorted(os.listdir(os.path.join(ex, sub))):
            q = os.path.join(ex, sub, f)
            if os.path.isfile(q) and not f.startswith("Makefile"):
                _put(os.path.join(d, sub, f), open(q, "rb").read())
    _put(os.path.join(d, "ini_files", "master.ini"), open(os.path.join(ex, "ini_files", "standard.ini"), "rb").read())


def prune(limit=5 << 30):
    ents = []
    for root, _, files in os.walk(os.path.join(BUILD)):
        if "/inst-" in root:
            continue
        for f in files:
            q = os.path.join(root, f)
            try:
                s = os.lstat(q)
                ents.append((s.st_mtime, s.st_size, q))
            except OSError:
                pass
    tot = sum(e[1] for e in ents)
    for m, s, q in sorted(ents):
        if tot <= limit or time.time() - m < 3600:
            break
        try:
            os.unlink(q)
            tot -= s
        except OSError:
            pass


if __name__ == "__main__":
    t = time.time()
    v = sys.argv[1]
    for n in sys.argv[2:]:
        if n == "prefix":
            print(prefix(v))
        else:
            print(harness(n, v))
    print("%.1fs" % (time.time() - t), file=sys.stderr)
