"""Builds variants of kos from /repo's working tree into /verif/build/<variant>/ (content-hashed, incremental)."""
import os, sys, glob, hashlib, subprocess, concurrent.futures as cf, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KOS_REPO", "/repo")
BUILD = os.environ.get("KOS_BUILD", os.path.join(VERIF, "build"))
BASE = ["-D_BSD_SOURCE", "-D_DEFAULT_SOURCE", "-D_POSIX_C_SOURCE=200112L", "-DCONFIG_FAST_DISPATCH", "-fno-strict-aliasing"]
WRAPS = """malloc calloc realloc free posix_memalign memcpy memmove memset pthread_mutexattr_init pthread_mutexattr_settype
pthread_mutexattr_destroy pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_create pthread_join pthread_detach pthread_self pthread_equal pthread_key_create pthread_key_delete
pthread_getspecific pthread_setspecific sched_yield nanosleep usleep""".split()

class BuildError(Exception):
    pass

def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def _read(p):
    with open(p, "rb") as f:
        return f.read()

_hdr = {}
def _headers():
    if "h" not in _hdr:
        h = hashlib.sha256()
        for d in ("inc", "core", "modules"):
            for p in sorted(glob.glob(os.path.join(REPO, d, "*.h"))):
                h.update(p.encode()); h.update(_read(p))
        _hdr["h"] = h.hexdigest()
    return _hdr["h"]

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def compile_objs(outdir, srcs, cc, flags, extra_key=""):
    os.makedirs(outdir, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        key = _hash(cc, " ".join(flags), _read(s), _headers(), extra_key)
        o = os.path.join(outdir, os.path.basename(s).rsplit(".", 1)[0] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            for old in glob.glob(os.path.join(outdir, os.path.basename(s).rsplit(".", 1)[0] + "-????????????????????????.o")):
                os.unlink(old)
            jobs.append((s, o))
    def one(j):
        s, o = j
        tmp = o + ".tmp%d" % os.getpid()
        _run([cc] + flags + ["-c", s, "-o", tmp])
        os.rename(tmp, o)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    return objs

def repo_srcs(modules=True):
    s = sorted(glob.glob(os.path.join(REPO, "core", "*.c")))
    if modules:
        s += sorted(glob.glob(os.path.join(REPO, "modules", "*.c")))
    return s

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def build(variant, harness, cc="gcc", flags=(), ldflags=(), hflags=(), mc=False, modules=True, defines=()):
    """Compile repo sources + harness files, link into build/<variant>/<name>. Returns exe path."""
    name = os.path.basename(harness[0]).rsplit(".", 1)[0]
    d = os.path.join(BUILD, variant)
    inc = ["-I", REPO, "-I", os.path.join(VERIF, "mc")]
    with Lock(variant):
        rflags = BASE + list(flags) + list(defines)
        objs = compile_objs(d, repo_srcs(modules), cc, rflags)
        hf = BASE + list(defines) + list(hflags) + inc
        hobjs = compile_objs(d, list(harness), cc, hf, extra_key=_hash(*[_read(p) for p in sorted(glob.glob(os.path.join(VERIF, "mc", "*.h")))]))
        link = list(ldflags)
        if mc:
            rt = compile_objs(d, [os.path.join(VERIF, "mc", "mc_rt.c")], cc, ["-O2", "-g", "-fno-builtin"],
                              extra_key=_hash(_read(os.path.join(VERIF, "mc", "mc_rt.h"))))
            hobjs += rt
            link += ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-no-pie"]
        key = _hash(" ".join(objs + hobjs), " ".join(link))
        exe = os.path.join(d, name + "-" + key)
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(d, name + "-*")):
                if not old.endswith(".o"):
                    os.unlink(old)
            tmp = exe + ".tmp%d" % os.getpid()
            _run([cc, "-o", tmp] + hobjs + objs + link + ["-lpthread", "-lrt", "-ldl", "-lm"])
            os.rename(tmp, exe)
    return exe

MC_FLAGS = ["-O1", "-g", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-pie"]
def build_mc(harness, modules=False):
    return build("mc" + ("m" if modules else "c"), [os.path.join(VERIF, "mc", harness)], flags=MC_FLAGS, hflags=["-O1", "-g", "-fno-pie"], mc=True, modules=modules)

def build_batch(san=False, defines=(), name=None):
    """Batch driver with all modules; san: with address and undefined behaviour sanitizers."""
    tag = name or ("bsan" if san else "bat")
    fl = ["-O2", "-g0"]
    if san:
        fl = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
    return build(tag, [os.path.join(VERIF, "mc", "batch.c")], flags=fl, hflags=fl, ldflags=["-fsanitize=address"] if san else [], defines=defines)
