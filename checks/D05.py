#!/usr/bin/env python3
"""Number text: every mantissa/exponent/rounding class through the real parser and printer against the C library (mc/h_num.c), and all short
strings over the number alphabet through integer(), float(), number() and as literals against the grammar."""
import os, sys, re, math, itertools, struct, subprocess, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, kosbuild

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INT = re.compile(r"^([+-]?)(?:(0[xX])([0-9a-fA-F_]+)|(0[bB])([01_]+)|([0-9_]+))$")
FLT = re.compile(r"^[+-]?([0-9_]*)(?:\.([0-9_]*))?(?:([eEpP])[+-]?([0-9_]+))?$")
LITI = re.compile(r"^(?:0[xX][0-9a-fA-F_]+|0[bB][01_]+|0|[1-9][0-9_]*)$")
LITF = re.compile(r"^(?:0|[1-9][0-9_]*)(?:\.[0-9_]*)?(?:[eEpP][+-]?(?:0|[1-9][0-9_]*))?$")
UNJ = object()
def pint(s):
    """value, None (rejected) or UNJ"""
    m = INT.match(s)
    if not m: return None
    d = (m.group(3) or m.group(5) or m.group(6)).replace("_", "")
    if not d: return UNJ
    neg = m.group(1) == "-"
    b = 16 if m.group(2) else 2 if m.group(4) else 10
    v = int(d, b)
    if b == 10:
        if v > (1 << 63) - (0 if neg else 1): return None
    elif v >= 1 << 64: return None
    if neg: v = -v
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v
def pflt(s):
    m = FLT.match(s)
    if not m:
        return UNJ if re.match(r"^[+-]?[0-9_.]*[eEpP][+-]?[0-9xXbBa-fA-F_]*$", s) and re.search(r"[eEpP][+-]?0[xXbB]", s) else None
    a, b, c, e = m.groups()
    if not ((a or "") + (b or "")).replace("_", ""): return UNJ if s else None
    if e is not None and not e.replace("_", ""): return UNJ
    x = int(re.sub(r".*[eEpP]", "", s).replace("_", "")) if e is not None else 0
    if c in ("p", "P"):
        if x > 1023 or x < -1074:
            return UNJ if not re.search("[1-9]", (a or "") + (b or "")) else None
        try: return math.ldexp(float(re.split("[pP]", s)[0].replace("_", "")), x)
        except OverflowError: return None
    if x > 308 or x < -324:
        return UNJ if not re.search("[1-9]", (a or "") + (b or "")) else None
    v = float(s.replace("_", ""))
    return None if v in (float("inf"), float("-inf")) else v
def key(d):
    k = struct.unpack(">q", struct.pack(">d", d))[0]
    return -(1 << 63) - k if k < 0 else k

PRE = '''import kos
const rep = fun(x) {
    switch typeof x {
        case "integer" { return "i\\(x)" }
        case "float" {
            const b = buffer().pack(">f8", x)
            return "f\\(b.unpack(">i8")[0])"
        }
        default { return "?" }
    }
}
const try1 = fun(c, s) {
    try { return rep(c(s)) } catch const e { }
    return "E"
}
const conv = fun(s) { print(try1(integer, s) + " " + try1(float, s) + " " + try1(number, s)) }
'''
def fmt(v): return "i%d" % v if isinstance(v, int) else "f%d" % struct.unpack(">q", struct.pack(">d", v))[0]
def same(got, exp):
    if exp is UNJ: return True
    if exp is None: return got == "E"
    if isinstance(exp, int): return got == "i%d" % exp
    if not got.startswith("f"): return False
    g = struct.unpack(">d", struct.pack(">q", int(got[1:])))[0]
    return abs(key(g) - key(exp)) <= 1 and str(g)[0] == str(exp)[0]

def run():
    ck = common.Check("D05")
    q = ck.quick
    lvl = "0" if q else "1"
    exe = kosbuild.build("plain", [os.path.join(V, "mc", "h_num.c")], flags=["-O2"], hflags=["-O2"])
    jobs = [(p, s) for p in ("print", "decimal", "binary", "zeros", "integer") for s in range(8)]
    def one(j):
        try: r = subprocess.run([exe, j[0], str(j[1]), "8", lvl], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        except subprocess.TimeoutExpired: return j, -1, "BAD timeout\n"
        return j, r.returncode, r.stdout
    counts = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for j, rc, out in ex.map(one, jobs):
            ok = [l for l in out.split("\n") if l.startswith("OK ")]
            if ok:
                c = int(ok[0].split()[1]); counts[j[0]] = counts.get(j[0], 0) + c
                ck.states += c; ck.transitions += c; ck.traces += c
            if rc != 0:
                l = [l for l in out.split("\n") if l.startswith("BAD")] or ["exit %d %s" % (rc, out[-300:])]
                ck.violation("%s %s" % (j[0], l[0][:150]), l[0], {"how": "%s %s %d 8 %s" % (exe, j[0], j[1], lvl), "output": out[:3000]})
    # strings through the conversion classes
    b = batch.Batch(preload="import io\n")
    A = "019.eExXbaf_-+"
    strs = ["".join(t) for n in range(0, 5 if q else 6) for t in itertools.product("019.ex_-" if n > 3 else A, repeat=n)]
    strs += ["".join(t) for t in itertools.product("1.e-", repeat=6 if q else 7)]
    strs += ["".join(t) for n in range(1, 6 if q else 7) for t in itertools.product("13.P-_", repeat=n)]
    strs += ["%s%s%d" % (m, c, e) for m, c in (("1", "p"), ("-1.5", "P"), ("9007199254740993", "p"), ("0.1", "p"), ("0", "p")) for e in (range(-1090, 1040) if not q else list(range(-1090, -1000)) + list(range(-70, 70)) + list(range(950, 1040)))]
    tails = ["", ".", ".5", "e5", "e-5", "e+308", "e309", "e-324", "e-325", "_", "__1", "x", "e", ".e5", ".5e0", " ", "0" * 17, "0" * 300, "." + "0" * 400 + "1", "g", "p1", ".5.5", "e1e1", "e1.0", "\\0", "\\xb2", "\\x{660}"]
    heads = ["", "-", "+", "--", "+-", " ", "0", "00", "0x", "0X", "-0x", "0b", "0B", "_", "1_", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000",
             "0b" + "1" * 64, "0b" + "1" * 65, "18446744073709551616", "1" + "0" * 40, ".", "..", "0.0", "\\t1"]
    strs += [h + m + t for h in heads for m in ("", "1", "7f", "10") for t in tails]
    strs = list(dict.fromkeys(strs))
    G = 400
    def unesc(s): return s.replace("\\t", "\t").replace("\\0", "\0").replace("\\xb2", "\xb2").replace("\\x{660}", "\u0660")
    groups = [strs[i:i + G] for i in range(0, len(strs), G)]
    for g, r in zip(groups, b.run([PRE + "".join('conv("%s")\n' % s for s in g) for g in groups], chunk=4)):
        ck.traces += 1
        lines = r.out.split("\n")[:-1]
        if r.status != "ok" or len(lines) != len(g):
            ck.violation("strings " + g[0], "program ended with %s %s" % (r.status, r.out[-200:]), {"strings": g}); continue
        for s, l in zip(g, lines):
            ck.states += 1; ck.transitions += 3
            u = unesc(s); i = pint(u) if u.isascii() and "\0" not in u else None; f = pflt(u) if u.isascii() and "\0" not in u else None
            got = l.split(" ")
            num = i if INT.match(u) else f
            fi = f
            if INT.match(u) and re.match(r"^[+-]?0[xXbB]", u): fi = None       # float() takes decimal text
            for nm, gv, ev in (("integer", got[0], i), ("float", got[1], fi), ("number", got[2], num)):
                if not same(gv, ev):
                    ck.violation("%s(\"%s\")" % (nm, s), "gives %s expected %s" % (gv, ev if ev is None else fmt(ev)), {"string": s, "line": l}); break
    # literals in source text
    LA = "019.eExb_afp"
    lits = ["".join(t) for n in range(1, 4 if q else 5) for t in itertools.product(LA, repeat=n) if t[0] in "019"]
    lits += [x for x in (h + t for h in ("1", "0", "10", "9_9", "0x1", "0b1", "1.5", "0.", "00", "1e", "1e+", "0xg", "0b2", "0x", "0b", "9223372036854775807", "9223372036854775808", "0x7fffffffffffffff", "0xffffffffffffffff", "0x10000000000000000") for t in ("", "0", "_", "e5", "e-5", "e05", ".25", ".5e1", "x", "p0", "g", ".5.5", "e1e1", "e+_1", "e400", "e308", "e-324"))]
    lits = list(dict.fromkeys(lits))
    good, single = [], []
    for s in lits:
        if LITI.match(s): v = pint(s)
        elif LITF.match(s): v = pflt(s)
        elif "." in s or re.match(r"0[xX].*[eE][-+]", s) or re.search(r"[eE][+-]?_", s): v = UNJ     # member access or an expression; exponents starting with _ (pinned by tests)
        else: v = None
        (good if v is not None and v is not UNJ else single).append((s, v))
    for i in range(0, len(good), 200):
        g = good[i:i + 200]
        r = b.run([PRE + "".join("print(rep(%s))\nprint(rep(- %s))\n" % (s, s) for s, v in g)])[0]
        ck.traces += 1
        lines = r.out.split("\n")[:-1]
        if r.status != "ok" or len(lines) != 2 * len(g): single += g; continue
        for k, (s, v) in enumerate(g):
            ck.states += 1; ck.transitions += 2
            nv = (-v if v != -(1 << 63) else v) if isinstance(v, int) else -v
            if not same(lines[2 * k], v) or not same(lines[2 * k + 1], nv): ck.violation("literal " + s, "is %s, negated %s, expected %s" % (lines[2 * k], lines[2 * k + 1], fmt(v)), {"literal": s})
    single = [x for x in single if x[1] is not UNJ]
    for (s, v), r in zip(single, b.run([PRE + "print(rep(%s))\n" % s for s, v in single], chunk=64)):
        ck.traces += 1; ck.states += 1; ck.transitions += 1
        if r.status == "notrun": continue
        if v is None:
            if r.status != "exc" or "EXC:t:" not in r.out: ck.violation("literal " + s, "accepted: %s %s" % (r.status, r.out[:100]), {"literal": s})
        elif r.status != "ok" or not same(r.out.strip(), v): ck.violation("literal " + s, "%s %s expected %s" % (r.status, r.out[:100], fmt(v)), {"literal": s})
    ck.sample({"integer(\"-0b1_0\")": pint("-0b1_0"), "float(\"1_0e-1_0\")": pflt("1_0e-1_0"), "harness cases": counts})
    ck.extra["bounds"] = "harness cases %s; %d strings for the conversion classes; %d literals" % (counts, len(strs), len(lits))
    ck.assumptions = ["floats may differ from the nearest double by one unit in the last place", "exponents as written must be within -324..308 (by design)", "numbers without any digit and exponents in other bases are not judged (pinned by the repository's tests)", "digits of printed floats beyond 15 decimals are not required"]
    ck.finish()
if __name__ == "__main__": common.main(run)
