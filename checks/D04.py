#!/usr/bin/env python3
"""UTF-8: all short byte sequences through the decoder and encoder (C harness), then all sequences over classes of bytes through every way
text enters the system: buffers, source text, files, JSON, command line."""
import os, sys, itertools, subprocess, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases, kosbuild
from kosval import REP

def decode(s):
    """list of code points or None; codes up to 0x1FFFFF, as the language defines; longer forms of three and four bytes are tolerated"""
    out = []; i = 0
    while i < len(s):
        c = s[i]
        if c < 0x80: n = 1
        elif 0xC2 <= c <= 0xDF: n = 2; c &= 0x1F
        elif 0xE0 <= c <= 0xEF: n = 3; c &= 0x0F
        elif 0xF0 <= c <= 0xF7: n = 4; c &= 7
        else: return None
        if i + n > len(s): return None
        for x in s[i + 1:i + n]:
            if x & 0xC0 != 0x80: return None
            c = c << 6 | x & 63
        out.append(c); i += n
    return out
def encode(cs):
    o = bytearray()
    for c in cs:
        if c < 0x80: o.append(c)
        elif c < 0x800: o += bytes([0xC0 | c >> 6, 0x80 | c & 63])
        elif c < 0x10000: o += bytes([0xE0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
        else: o += bytes([0xF0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    return bytes(o)
def show(cs): return "E" if cs is None else "s" + "".join("%d." % c for c in cs)
def overlong(s):
    d = decode(s)
    return d is not None and encode(d) != s

CLS = [0x41, 0x7F, 0x80, 0x8F, 0x90, 0xA0, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF7, 0xF8, 0xFF]
EDGE = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF]

def run():
    ck = common.Check("D04")
    q = ck.quick
    exe = kosbuild.build("plain", [os.path.join(common.VERIF, "mc", "h_utf8.c")], flags=["-O2"], hflags=["-O2"])
    parts = 8
    def part(i): return subprocess.run([exe, str(i), str(parts), "5" if q else "7"], stdout=subprocess.PIPE, text=True)
    with cf.ThreadPoolExecutor(parts) as ex: rs = list(ex.map(part, range(parts)))
    for i, r in enumerate(rs):
        last = r.stdout.strip().split("\n")[-1]
        if r.returncode or not last.startswith("states="):
            ck.violation("decoder part %d" % i, r.stdout[:600] + " exit %d" % r.returncode, {"output": r.stdout[:2000]})
        else:
            kv = dict(x.split("=") for x in last.split())
            ck.states += int(kv["states"]); ck.transitions += int(kv["calls"]); ck.traces += int(kv["accepted"])
    ck.sample({"harness": [r.stdout.strip()[-100:] for r in rs[:2]]})

    scratch = tempfile.mkdtemp(prefix="kosd04")
    try:
        b = batch.Batch(preload="import io\nimport math\nimport threads\nimport json\n")
        cs = []
        seqs = [bytes(t) for n in (1, 2, 3) for t in itertools.product(CLS, repeat=n)]
        # four bytes and more: all leads of four byte forms, and valid characters next to everything
        c4 = [0x41, 0x80, 0x8F, 0x90, 0xBF, 0xC2]
        seqs += [bytes((a,) + t) for a in (0xE0, 0xE1, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8) for t in itertools.product(c4, repeat=3)]
        seqs += [encode([a]) + bytes([x]) + encode([c]) for a in EDGE for c in EDGE for x in (0x41, 0x80, 0xC2, 0xE1, 0xF1, 0xFF)]
        seqs += [b"abcdefgh"[:n] + s + b"ABCDEFGHI"[:m] for n in range(9) for m in range(9) for s in (b"\x80", b"\xc2", b"\xc3\xa9", b"\xe2\x98\x81", b"\xe2\x98", b"\xf0\x9f\x98\x80", b"\xf0\x9f\x98", b"\xff")]
        # buffers
        k = 200
        for i in range(0, len(seqs), k):
            part = seqs[i:i + k]
            prog = 'import json\n' + REP + '''
for const a in [%s] {
    const bf = buffer(a)
    try {
        const s = string(bf)
        print(rep(s))
        print(rep(buffer(s)))
        print(rep(string(buffer(s))), rep(string("x", bf, bf)), string(buffer(s)) == s)
    } catch const e { print("E") }
    try { print(rep(string(buffer([0x80, 0x80]), bf))) } catch const e { print("e") }
    try { print(rep(json.parse(buffer([0x22], a, [0x22])))) } catch const e { print("E") }
    try { print(rep(bf.unpack("s" + string(bf.size))[0])) } catch const e { print("E") }
}
''' % ", ".join("[" + ",".join(map(str, s)) + "]" for s in part)
            exp = []
            for s in part:
                d = decode(s)
                if d is None: exp.append("E")
                else:
                    exp += [show(d), "<" + "".join("%d " % x for x in encode(d)) + ">", "%s %s true" % (show(d), show([120] + d + d))]
                exp.append("e")
                exp.append("*" if any(c < 32 or c in (0x22, 0x5C) for c in (d or [])) else show(d))
                exp.append(show(d))
            cs.append(("buffer %d" % i, prog, exp))
        # code points
        step = 1 if not q else 37
        for a in range(0, 0x200000, 0x8000):
            prog = '''
for var c in range(%d, %d, %d) {
    const s = string([c])
    const b = buffer(s)
    if string(b) != s || s.code(0) != c || s.size != 1 { print(c) }
    const t = string([c, 65, c])
    if string(buffer(t)) != t || buffer(t).size != 2 * b.size + 1 || b.size != (c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4) { print(c) }
}
''' % (a, a + 0x8000, step)
            cs.append(("codes %x" % a, prog, []))
        # files
        for i in range(0, len(seqs), k):
            part = [s for s in seqs[i:i + k] if 10 not in s and 13 not in s and 0 not in s]
            f = os.path.join(scratch, "f%d" % i)
            with open(f, "wb") as fh: fh.write(b"".join(s + b"\n" for s in part))
            with open(f + "v", "wb") as fh: fh.write(b"".join(s + b"\n" for s in part if decode(s) is not None))
            out = os.path.join(scratch, "o%d" % i)
            open(out, "wb").close()
            prog = 'import io\n' + REP + '''
with const f = io.open("%s", "r") {
    for const i in range(%d) {
        try { print(rep(f.read_line())) } catch const e { print("E") }
    }
}
with const f = io.open("%sv", "r") {
    for const l in f.read_lines() { print(rep(l)) }
}
with const f = io.open("%s", "rw+") {
    for const l in [%s] { f.write(string(l)) }
    f.print(string([0xE9]), string([0x1FFFFF]))
    f.seek(0)
    print(rep(f.read()))
}
''' % (f, len(part), f, out, ", ".join("[" + ",".join(map(str, decode(s))) + "]" for s in part if decode(s)))
            exp = [show(d + [10] if d is not None else None) for d in map(decode, part)]
            exp += [show(d) for d in map(decode, part) if d is not None]
            w = b"".join(encode(d) for d in map(decode, part) if d) + b"\xc3\xa9 \xf7\xbf\xbf\xbf\n"
            exp.append("<" + "".join("%d " % x for x in w) + ">")
            cs.append(("file %d" % i, prog, exp))
        res = []
        for key, p, e in cs:
            def cmp(r, e=e):
                if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
                g = r.out.split("\n")[:-1]
                if len(g) != len(e): return "%d lines instead of %d: %s" % (len(g), len(e), g[:3])
                for j, (x, y) in enumerate(zip(g, e)):
                    if y != "*" and x != y: return "line %d: got %s expected %s" % (j, x[:300], y[:300])
            res.append((key, p, cmp, max(1, len(e))))
        cases.compare(ck, b, res, chunk=2)

        # source text: within a string, a raw string, comments, as an identifier, at the end
        wraps = [("string", b'print(rep("', b'"))\n', True), ("raw", b'print(rep(r"', b'"))\n', True), ("line comment", b'print(1) # x', b'\nprint(2)\n', False),
                 ("block comment", b'print(1) /* ', b' */\nprint(2)\n', False), ("interpolated", b'print(rep("\\(1)', b'\\(2)"))\n', True),
                 ("eof comment", b'print(1)\n#', b'', False)]
        sub = seqs if not q else [s for n in (1, 2) for s in (bytes(t) for t in itertools.product(CLS, repeat=n))] + seqs[len(CLS) + len(CLS)**2 + len(CLS)**3:]
        sub = [s for s in sub if 0 not in s and not any(c in (34, 92, 42, 47, 40, 10, 13, 0x85, 0x2028, 0x2029) for c in decode(s) or []) and not overlong(s) or decode(s) is None]
        # groups of valid ones in one program, invalid ones each alone
        progs, exps, keys = [], [], []
        for name, pre, post, val in wraps:
            good = [s for s in sub if decode(s) is not None]
            for i in range(0, len(good), 40):
                if name == "eof comment" : break
                progs.append(REP.encode() + b"".join(pre + s + post for s in good[i:i + 40]))
                e = []
                for s in good[i:i + 40]:
                    d = decode(s)
                    if val: e.append(show(([49] + d + [50]) if name == "interpolated" else d))
                    else: e += ["1", "2"]
                exps.append(e); keys.append("source %s %d" % (name, i))
            for s in sub:
                if decode(s) is None:
                    progs.append(REP.encode() + b"print(0)\n" + pre + s + post); exps.append(None); keys.append("source %s %s" % (name, s.hex()))
        rs = b.run(progs, chunk=64)
        for key, p, e, r in zip(keys, progs, exps, rs):
            ck.traces += 1; ck.transitions += len(e or [1])
            if r.status == "notrun": continue
            if e is None:
                # rejected before anything runs
                if "comment" in key and r.status == "ok" and r.out == ("0\n1\n2\n" if "eof" not in key else "0\n1\n"): continue  # ignored text
                if r.status != "exc" or not r.out.startswith("\nEXC:") or "UTF-8" not in r.out:
                    ck.violation(key, "malformed source not rejected: %s %r" % (r.status, r.out[:200]), {"program": p.decode("latin-1")})
            elif r.status != "ok" or r.out.split("\n")[:-1] != e:
                g = r.out.split("\n")
                bad = [(x, y) for x, y in zip(g, e) if x != y][:1]
                ck.violation(key, "%s %s" % (r.status, bad or r.out[-200:]), {"program": p.decode("latin-1"), "expected": e})
        # command line
        interp = kosbuild.build("interp", [os.path.join(kosbuild.REPO, "interpreter", "kos.c")], flags=["-O1"], hflags=["-O1"])
        argv = [s for s in ([bytes(t) for n in (1, 2) for t in itertools.product(CLS, repeat=n)] + seqs[-8 * 81::5] + [encode([a, c]) for a in EDGE[1:] for c in EDGE[1:]]) if 0 not in s]
        code = "import base\npublic const main = fun(args...) {\n for const a in args {\n  var s = \"s\"\n  for const i in base.range(a.size) { s += base.string(a.code(i), \".\") }\n  base.print(s)\n }\n}\n"
        env = dict(os.environ, KOSPATH=os.path.join(kosbuild.REPO, "modules"))
        def one(s):
            try: r = subprocess.run([interp, "-c", code, "first", s, "l\xc3\xa9"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
            except subprocess.TimeoutExpired: return s, None, b"", b"timeout"
            return s, r.returncode, r.stdout, r.stderr
        with cf.ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, argv))
        for s, rc, o, e in outs:
            d = decode(s); ck.traces += 1; ck.transitions += 1
            if d is None:
                ok = rc not in (0, None) and rc > 0 and o == b""
            else:
                l = [x for x in o.decode().split("\n") if x]
                ok = rc == 0 and show(d) in l and "s102.105.114.115.116." in l
            if not ok: ck.violation("argument %s" % s.hex(), "exit %s out %r err %r" % (rc, o[:200], e[:200]), {"argument": s.hex()})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ck.extra["bounds"] = "all byte sequences up to 3, 4-byte ones over 29 classes plus all valid ones, 8 alignments, runs up to 17; escapes: all strings over 13 symbols up to %d; entry points: all sequences over 20 classes up to 3" % (5 if q else 7)
    ck.assumptions = ["code points 0..0x1FFFFF (including surrogates) are representable, as documented for string()", "three and four byte forms longer than needed are tolerated (required by the repository's own tests)"]
    ck.finish()
if __name__ == "__main__": common.main(run)
