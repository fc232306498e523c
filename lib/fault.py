"""Drives mc/fault.c: exhaustive injection of collections or failures, NCPU drivers in parallel."""
import os, subprocess, threading, queue, collections
import kosbuild
from batch import NCPU, MODPATH
Res = collections.namedtuple("Res", "status points runs bad out")
GCW = ["-Wl,--wrap=kos_alloc_object"]
def build_gc(mad):
    """mad: every collection moves every object and the pages they left become inaccessible; else the normal policy with assertions on"""
    fl = ["-O1", "-g"]
    return kosbuild.build("gcmad" if mad else "gcnorm", [os.path.join(kosbuild.VERIF, "mc", "fault.c")], flags=fl, hflags=fl + ["-DFAULT_GC"],
                          ldflags=GCW, defines=["-DCONFIG_MAD_GC"] if mad else [])

def build_fail():
    fl = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
    return kosbuild.build("seqfail", [os.path.join(kosbuild.VERIF, "mc", "fault.c")], flags=fl, hflags=fl + ["-DFAULT_FAIL"],
                          ldflags=["-fsanitize=address", "-Wl,--wrap=kos_seq_fail"], defines=["-DCONFIG_SEQFAIL"])

class Fault:
    def __init__(self, exe, preload=None, env=None, timeout=20):
        self.exe = exe; self.timeout = timeout
        self.env = dict(os.environ)
        self.env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
        if preload is not None: self.env["BATCH_PRELOAD"] = preload
        if env: self.env.update(env)
    def run(self, reqs, stop_on_bad=True):
        """reqs: (program, lo, hi, step, each[, mode]). Returns list of Res, None where not run."""
        res = [None] * len(reqs)
        q = queue.Queue()
        for i in range(len(reqs)): q.put(i)
        errs = []; stop = []
        def worker():
            p = None
            try:
                while not stop:
                    try: i = q.get_nowait()
                    except queue.Empty: break
                    if p is None:
                        p = subprocess.Popen([self.exe, MODPATH], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env)
                    s, lo, hi, step, each, *m = reqs[i]
                    m = m[0] if m else 1
                    s = s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s
                    p.stdin.write(b"%d %d %d %d %d %d %d %d\n" % (i, self.timeout, len(s), lo, hi, step, each, m) + s); p.stdin.flush()
                    h = p.stdout.readline().split()
                    if len(h) != 7 or h[0] != b"RES": raise RuntimeError("fault driver failed: %r %r" % (h, p.stderr.read()[-2000:] if p.poll() is not None else b""))
                    out = p.stdout.read(int(h[6]) + 1)[:-1]
                    res[i] = Res(h[2].decode(), int(h[3]), int(h[4]), int(h[5]), out.decode("utf-8", "replace"))
                    if res[i].bad and stop_on_bad: stop.append(1)
            except Exception as e: errs.append(e)
            finally:
                if p: p.stdin.close(); p.wait(); p.stdout.close(); p.stderr.close()
        th = [threading.Thread(target=worker) for _ in range(min(NCPU, max(1, len(reqs))))]
        for t in th: t.start()
        for t in th: t.join()
        if errs: raise errs[0]
        return res
