"""Runs many Kos programs through mc/batch.c, NCPU drivers in parallel."""
import os, subprocess, threading, queue, collections
import kosbuild
NCPU = max(2, os.cpu_count() or 2)
MODPATH = os.path.join(kosbuild.REPO, "modules")
Res = collections.namedtuple("Res", "status out")

class Batch:
    def __init__(self, exe=None, san=False, preload=None, env=None, paths=(), defines=(), name=None, timeout=10):
        self.exe = exe or kosbuild.build_batch(san=san, defines=defines, name=name)
        self.env = dict(os.environ)
        self.env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
        if preload is not None:
            self.env["BATCH_PRELOAD"] = preload
        if env:
            self.env.update(env)
        self.paths = list(paths) + [MODPATH]
        self.timeout = timeout
        self.ncpu = NCPU

    def run(self, progs, chunk=64):
        """progs: list of str/bytes. Returns list of Res (out: bytes decoded as utf-8 with surrogateescape)."""
        n = len(progs)
        res = [None] * n
        q = queue.Queue()
        chunk = max(1, min(chunk, (n + self.ncpu - 1) // self.ncpu))
        for i in range(0, n, chunk):
            q.put((i, min(n, i + chunk)))
        errs = []
        hung = []
        def worker():
            p = None
            try:
                while True:
                    try:
                        a, b = q.get_nowait()
                    except queue.Empty:
                        break
                    if p is None:
                        p = subprocess.Popen([self.exe] + self.paths, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                             stderr=subprocess.PIPE, env=self.env)
                    for i in range(a, b):
                        if len(hung) >= 3:           # enough evidence; do not wait for more
                            res[i] = Res("notrun", ""); continue
                        s = progs[i]
                        if isinstance(s, str):
                            s = s.encode("utf-8", "surrogateescape")
                        try:
                            p.stdin.write(b"%d %d %d\n" % (i, self.timeout, len(s)) + s)
                            p.stdin.flush()
                            h = p.stdout.readline().split()
                        except BrokenPipeError:
                            h = []
                        if len(h) != 4 or h[0] != b"RES":
                            raise RuntimeError("batch driver failed: %r %r" % (h, p.stderr.read()[-2000:] if p.poll() is not None else b""))
                        ln = int(h[3])
                        out = p.stdout.read(ln + 1)[:-1]
                        if h[2] == b"hang": hung.append(i)
                        res[i] = Res(h[2].decode(), out.decode("utf-8", "surrogateescape"))
            except Exception as e:
                errs.append(e)
            finally:
                if p:
                    p.stdin.close(); p.wait(); p.stdout.close(); p.stderr.close()
        th = [threading.Thread(target=worker) for _ in range(min(self.ncpu, max(1, (n + chunk - 1) // chunk)))]
        for t in th: t.start()
        for t in th: t.join()
        if errs:
            raise errs[0]
        # replay before report: a hang is run again alone with more time
        if hung and self.timeout < 60:
            self2 = Batch.__new__(Batch); self2.__dict__ = dict(self.__dict__); self2.timeout = 60
            i = min(hung)
            res[i] = self2.run([progs[i]])[0]
            if res[i].status != "hang":              # only slow: everything not run yet gets its turn
                again = [j for j in range(n) if res[j].status in ("hang", "notrun")]
                if again:
                    for j, r in zip(again, self2.run([progs[j] for j in again])): res[j] = r
        return res
