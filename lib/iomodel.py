"""Byte-sequence model of io file objects, programs and driver for M03."""
import itertools, os, queue, shutil, subprocess, tempfile, threading
import kosbuild
from batch import NCPU, MODPATH

WRAPS = ["__read", "__read_nocancel", "read", "__write", "__write_nocancel", "write", "__lseek64", "__open", "__open_nocancel",
         "__close_nocancel", "ftruncate", "fstat"]
WILD = object()
BIG = 5000


class Broken(Exception):
    """the rest of the program is not judged"""


def quote(s):
    out = ""
    for c in s:
        if c in "\"\\": out += "\\" + c
        else: out += c
    return out


def bufrep(b):
    return "<" + " ".join("%02x" % x for x in b) + ">"


class File:
    def __init__(self, flags, content):
        self.r, self.w, self.app = {"rb": (1, 0, 0), "r+b": (1, 1, 0), "w+b": (1, 1, 0), "a+b": (1, 1, 1), "wb": (0, 1, 0), "ab": (0, 1, 1)}[flags]
        self.missing = content is None and flags[0] == "r"
        self.d = bytearray(b"" if content is None or flags[0] == "w" else content)
        self.disk = bytes(self.d)
        self.pos, self.eof, self.dirty, self.open, self.posknown, self.last, self.err = 0, False, False, not self.missing, not self.app, "", False

    def sync(self):
        if self.dirty: self.disk = bytes(self.d)
        self.dirty = False

    def alive(self):
        if not self.open: raise EOFError

    def write(self, b):
        self.alive()
        if not b: return "self"
        if not self.w:
            self.err = True
            raise EOFError
        if self.eof: self.eof = WILD
        if self.app: self.pos = len(self.d)
        self.posknown = True
        if self.pos > len(self.d): self.d += bytes(self.pos - len(self.d))
        self.d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        self.dirty = True
        self.last = "w"
        return "self"

    def take(self, n):
        """up to n bytes"""
        self.alive()
        if not self.r:
            self.err = True
            raise EOFError
        if self.eof is WILD or not self.posknown: raise Broken
        self.sync() if self.last == "w" else None
        self.last = "r"
        if self.eof:
            if self.pos < len(self.d): raise Broken
            return b""
        b = bytes(self.d[self.pos:self.pos + n]) if n is not None else bytes(self.d[self.pos:])
        self.pos += len(b)
        if n is None or len(b) < n: self.eof = True
        return b

    def read(self, n, pre=b""):
        self.alive()
        if not self.r and not self.eof: self.take(n)
        return bufrep(pre + self.take(n))

    def line(self):
        self.alive()
        if not self.r: self.take(1)
        if self.err: raise Broken
        if self.eof is WILD or not self.posknown: raise Broken
        rest = self.d[self.pos:]
        k = rest.find(b"\n")
        b = self.take(k + 1 if k >= 0 and not self.eof else None)
        try: return b.decode("utf-8")
        except UnicodeDecodeError: raise EOFError

    def lines(self, keep):
        b = self.take(None)
        try: s = b.decode("utf-8")
        except UnicodeDecodeError:
            raise Broken
        out, cur, i = [], "", 0
        while i < len(s):
            e = "\r\n" if s.startswith("\r\n", i) else s[i] if s[i] in "\r\n" else ""
            if e:
                out.append(cur + (e if keep else "")); cur = ""; i += len(e)
            else:
                cur += s[i]; i += 1
        if cur: out.append(cur)
        return "[" + ", ".join('"%s"' % quote(x) for x in out) + "]"

    def seek(self, p, ret="self"):
        self.alive()
        np = p if p >= 0 else len(self.d) + p
        self.sync()
        if np < 0: raise EOFError
        self.pos, self.eof, self.posknown, self.last = np, False, True, ""
        return ret

    def tell(self):
        self.alive()
        return str(self.pos) if self.posknown else WILD

    def size(self):
        self.alive()
        return WILD if self.dirty else str(len(self.d))

    def geteof(self):
        self.alive()
        return WILD if self.eof is WILD else "true" if self.eof else "false"

    def flush(self):
        self.alive()
        if self.last == "r": raise Broken
        self.sync()
        return "self"

    def resize(self, n):
        self.alive()
        if self.last == "r" and self.w: pass
        self.sync()
        if not self.w: raise EOFError
        if n < len(self.d): del self.d[n:]
        else: self.d += bytes(n - len(self.d))
        self.disk = bytes(self.d)
        return "self"

    def close(self):
        self.sync()
        self.open = False
        return "self"

    def peek(self):
        return WILD if self.dirty else bufrep(self.disk)


def S(s): return s.encode("utf-8")


# key -> (source of the expression or statement, model)
OPS = {
    "W2": ('f.write("ab")', lambda f: f.write(b"ab")),
    "WB": ('f.write(buffer([1, 0, 200]), "z\\x{17c}", "", buffer())', lambda f: f.write(b"\x01\0\xc8" + S("z\u017c"))),
    "WX": ('f.write(big)', lambda f: f.write(b"0123456789" * (BIG // 10))),
    "WY": ('f.write(bigbuf, "-")', lambda f: f.write(bytes(i & 255 for i in range(BIG)) + b"-")),
    "W0": ('f.write()', lambda f: f.write(b"")),
    "P": ('f.print("q", 1, [2])', lambda f: f.write(b"q 1 [2]\n")),
    "P0": ('f.print()', lambda f: f.write(b"\n")),
    "PL": ('f.print_lines(["k", 3])', lambda f: (f.write(b"k\n3\n"), "void")[1]),
    "R": ('f.read()', lambda f: f.read(None)),
    "R2": ('f.read(2)', lambda f: f.read(2)),
    "RB": ('f.read(3, buffer([9]))', lambda f: f.read(3, b"\x09")),
    "RS": ('f.read_some(3)', lambda f: f.read(3)),
    "RT": ('f.read_some(1, buffer([7, 8]))', lambda f: f.read(1, b"\x07\x08")),
    "L": ('f.read_line()', lambda f: f.line()),
    "L2": ('f.read_line(2)', lambda f: f.line()),
    "LS": ('[f.read_lines()...]', lambda f: f.lines(False)),
    "LK": ('[f.read_lines(true, 1)...]', lambda f: f.lines(True)),
    "LG": ('[f.read_lines(false, 3)...]', lambda f: f.lines(False)),
    "S0": ('f.seek(0)', lambda f: f.seek(0)),
    "S2": ('f.seek(2)', lambda f: f.seek(2)),
    "S20": ('f.seek(20)', lambda f: f.seek(20)),
    "SE": ('f.seek(-1)', lambda f: f.seek(-1)),
    "SX": ('f.seek(-100000)', lambda f: f.seek(-100000)),
    "S=": ('{ f.position = 1\nreturn void }', lambda f: f.seek(1, "void")),
    "T": ('f.position', lambda f: f.tell()),
    "Z": ('f.size', lambda f: f.size()),
    "E": ('f.eof', lambda f: f.geteof()),
    "F": ('f.flush()', lambda f: f.flush()),
    "Z0": ('f.resize(0)', lambda f: f.resize(0)),
    "Z3": ('f.resize(3)', lambda f: f.resize(3)),
    "Z30": ('f.resize(30)', lambda f: f.resize(30)),
    "C": ('f.close()', lambda f: f.close()),
    "D": ('disk()', lambda f: f.peek()),
}
HEAD = """import io
const show = fun(i, fn) { try { const r = fn()
print(i, typeof r == "object" ? "self" : stringify(r)) } catch const e { print(i, "EXC") } }
const disk = fun { const g = io.open("f", "rb")
const b = g.read()
g.close()
return b }
"""
BIGS = """const bigbuf = buffer(%d)
for const i in range(%d) { bigbuf[i] = i & 255 }
var big = ""
for const i in range(%d) { big += "0123456789" }
""" % (BIG, BIG, BIG // 10)


def program(flags, ops):
    big = BIGS if any(o in ("WX", "WY") for o in ops) else ""
    body = "".join("show(%d, fun %s)\n" % (i, OPS[o][0] if OPS[o][0][0] == "{" else "{ return %s }" % OPS[o][0]) for i, o in enumerate(ops))
    # the file is closed and looked at in the end, whatever happened
    return HEAD + big + 'try { const f = io.file("f", "%s")\n%sshow("close", fun { return f.close() })\n} catch const e { print("open EXC") }\nshow("end", disk)\n' % (flags, body)


def expected(flags, content, ops):
    """(lines, final contents): a line is a text, WILD or None (not judged from there); contents None = not judged"""
    f = File(flags, content)
    if f.missing: return ["open EXC", "end EXC"], -1
    out = []
    for i, o in enumerate(ops):
        try:
            r = OPS[o][1](f)
            out.append(WILD if r is WILD else "%d %s" % (i, r))
        except EOFError: out.append("%d EXC" % i)
        except Broken:
            out.append(None)
            return out, None
    f.sync()
    out += ["close self", "end " + bufrep(f.disk)]
    return out, f.disk


def matches(exp, text):
    """reads the output against the expected lines; line texts may contain line ends"""
    rest = text
    for e in exp:
        if e is None: return True
        if e is WILD:
            k = rest.find("\n")
            if k < 0: return False
            rest = rest[k + 1:]
        else:
            if not rest.startswith(e + "\n"): return False
            rest = rest[len(e) + 1:]
    return rest == ""


def build():
    return kosbuild.build("iost", [os.path.join(kosbuild.VERIF, "mc", "h_io.c")], flags=["-O2"], hflags=["-O2"],
                          ldflags=["-static"] + ["-Wl,--wrap=" + w for w in WRAPS])


class Run:
    __slots__ = ("k", "mode", "status", "out", "file")


def drive(exe, cases, handle, left):
    """cases: iterable of (flags, content, ops, modes). handle(case, points, runs, [Run]) is called under a lock; it returns
    False to stop."""
    it = iter(cases)
    lock = threading.Lock()
    errs, stop = [], []

    def worker():
        d = tempfile.mkdtemp(prefix="kosio")
        p = None
        try:
            while not stop:
                with lock:
                    c = next(it, None)
                if c is None or left() < 3: break
                if p is None:
                    p = subprocess.Popen([exe, MODPATH, d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                src = program(c[0], c[2]).encode()
                cl = -1 if c[1] is None else len(c[1])
                p.stdin.write(b"x %d %d %s\n" % (len(src), cl, (c[3] or "-").encode()) + src + (c[1] or b""))
                p.stdin.flush()
                h = p.stdout.readline().split()
                if len(h) != 5: raise RuntimeError("driver failed on %r: %r %r" % (c, h, p.stderr.read()[-1000:] if p.poll() is not None else ""))
                data = p.stdout.read(int(h[4]))
                runs, i = [], 0
                while i < len(data):
                    j = data.index(b"\n", i)
                    w = data[i:j].split()
                    r = Run()
                    r.k, r.mode, r.status = int(w[1]), w[2].decode(), w[3].decode()
                    a, b = int(w[4]), int(w[5])
                    i = j + 1
                    r.out = data[i:i + a].decode("utf-8", "replace"); i += a
                    r.file = data[i:i + b] if b >= 0 else None
                    i += max(b, 0)
                    runs.append(r)
                with lock:
                    if not handle(c, int(h[2]), int(h[3]), runs): stop.append(1)
        except Exception as e: errs.append(e)
        finally:
            if p:
                p.stdin.close(); p.kill(); p.wait(); p.stdout.close(); p.stderr.close()
            shutil.rmtree(d, ignore_errors=True)
    th = [threading.Thread(target=worker) for _ in range(NCPU)]
    for t in th: t.start()
    for t in th: t.join()
    if errs: raise errs[0]
    return next(it, None) is None and not stop


def judge(case, runs):
    """the first complaint about a case's runs, or None"""
    flags, content, ops, modes = case
    base = runs[0]
    exp, fin = expected(flags, content, ops)
    if base.status != "ok" or not matches(exp, base.out):
        return "undisturbed: %s, output %r, expected %r" % (base.status, base.out, [e if isinstance(e, str) else "?" for e in exp])
    if fin is not None and (base.file if base.file is not None else -1) != fin: return "undisturbed: file holds %r, expected %r" % (base.file, fin)
    bl = base.out.split("\n")
    for r in runs[1:]:
        what = "call %d, disturbance %s: " % (r.k, r.mode)
        if r.status != "ok": return what + r.status + " " + r.out
        if r.mode in "12S": return what + "short transfers changed the result: %r %r, undisturbed %r %r" % (r.out, r.file, base.out, base.file)
        rl = r.out.split("\n")
        first = next((b for a, b in zip(bl, rl) if a != b), None)
        # an operation which is refused anyway may report the failure
        upto = rl if first is None else rl[:rl.index(first)]
        if any(x.endswith("EXC") for x in upto): pass
        elif first is None:
            if len(bl) != len(rl) or r.file != base.file: return what + "failure not reported, but the result differs: %r %r, undisturbed %r %r" % (r.out, r.file, base.out, base.file)
        elif not first.endswith("EXC"): return what + "failure not reported: %r instead of %r" % (r.out, base.out)
        if rl[-2:-1] and rl[-2].startswith("end <") and rl[-2] != "end " + bufrep(r.file or b""):
            return what + "the file holds %r, read back as %r" % (r.file, rl[-2])
    return None
