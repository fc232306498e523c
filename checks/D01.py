#!/usr/bin/env python3
"""Strings: every operation on all short strings over an alphabet of all code unit widths, in all internal representations, with all
indices, against sequences of code points; all short sequences of operations; long strings differing at each place."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases
from kosval import rep, src, REP, Err

WS = " \r\n\t\f\v\xa0\u2028\u2029\ufeff"
EOL = "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"
UP = {"\xe9": "\xc9", "\xff": "\u0178", "\xb5": "\u039c", "\u044f": "\u042f", "\u0178": "\u0178", "\u212a": "\u212a", "\u2601": "\u2601",
      "\xc9": "\xc9", "\xdf": "\xdf", "\U0001f600": "\U0001f600", "\xa0": "\xa0", "\x85": "\x85", "\u2028": "\u2028", "\ufeff": "\ufeff"}
UP["\u039c"] = "\u039c"; UP["\u042f"] = "\u042f"
LO = {"\xe9": "\xe9", "\xff": "\xff", "\xb5": "\xb5", "\u044f": "\u044f", "\u0178": "\xff", "\u212a": "k", "\u2601": "\u2601",
      "\xc9": "\xe9", "\xdf": "\xdf", "\U0001f600": "\U0001f600", "\xa0": "\xa0", "\x85": "\x85", "\u2028": "\u2028", "\ufeff": "\ufeff"}
LO["\u039c"] = "\u03bc"; LO["\u042f"] = "\u044f"

def upper(s): return "".join(c.upper() if ord(c) < 128 else UP[c] for c in s)
def lower(s): return "".join(c.lower() if ord(c) < 128 else LO[c] for c in s)

# ---- construction of the same string in all representations
PRE = REP + r'''
const kinds = [
    c => string(c),
    c => ("\x{1F600}" + string(c) + "\x{2601}")[1:-1],
    c => ("\x{2601}" + string(c))[1:],
    c => ("xxxxxxxxxxxxxxxxxxxx" + string(c) + "\xE9yyyyyyyyyyyyyyyyyyyy")[20:-21],
    fun(c) { var s = ""; for const x in c { s += string([x]) }; return s },
    fun(c) { const a = string(c[:c.size >> 1]); const b = string(c[c.size >> 1:]); return "\(a)\(b)" },
    c => string(buffer(string(c))),
    c => string(c -> map(x => x)),
    c => string(c).reverse().reverse(),
    fun(c) { const w = ("\x{1F600}aaaaaaaaaaaaaaaaaaaaaaa" + string(c) + "bbbbbbbbbbbbbbbbbbbbbbb"); return w[1:][23:-1][:-22] },
    c => string([c...]),
]
const T = fun(f) { try { return rep(f()) } catch const e { return "E" } }
const codes = fun(s) { const a = []; for const i in range(s.size) { a.push(s.code(i)) }; return a }
'''
# ';' does not end statements in Kos: one statement per line
PRE = PRE.replace('{ var s = ""; for const x in c { s += string([x]) }; return s }', '{\n        var s = ""\n        for const x in c { s += string([x]) }\n        return s\n    }')
PRE = PRE.replace('{ const a = string(c[:c.size >> 1]); const b = string(c[c.size >> 1:]); return "\\(a)\\(b)" }', '{\n        const a = string(c[:c.size >> 1])\n        const b = string(c[c.size >> 1:])\n        return "\\(a)\\(b)"\n    }')
PRE = PRE.replace('{ const w = (', '{\n        const w = (').replace('"bbbbbbbbbbbbbbbbbbbbbbb"); return w[1:][23:-1][:-22] }', '"bbbbbbbbbbbbbbbbbbbbbbb")\n        return w[1:][23:-1][:-22]\n    }')
PRE = PRE.replace('{ const a = []; for const i in range(s.size) { a.push(s.code(i)) }; return a }', '{\n    const a = []\n    for const i in range(s.size) { a.push(s.code(i)) }\n    return a\n}')
NK = 11

def klist(xs): return "[" + ", ".join("[" + ",".join(str(ord(c)) for c in x) + "]" for x in xs) + "]"
def words(alpha, n, m=0):
    for k in range(m, n + 1):
        for t in itertools.product(alpha, repeat=k): yield "".join(t)

def fl(x):
    import math
    return math.floor(x) if isinstance(x, float) else x

def index(s, i):
    i = fl(i)
    if i < -len(s) or i >= len(s): raise Err
    return s[i]
def slc(s, b, e):
    n = len(s)
    b = 0 if b is None else fl(b); e = n if e is None else fl(e)
    if b < 0: b += n
    if e < 0: e += n
    b = max(b, 0); e = min(e, n)
    return s[b:e] if e > b else ""
def clamp(p, lo, n):
    p = fl(p)
    if p < 0: p += n
    return min(max(p, lo), n)
def find(s, t, p=0):
    p = clamp(p, 0, len(s))
    return p if t == "" else s.find(t, p)
def rfind(s, t, p=None):
    p = len(s) if p is None else clamp(p, -1, len(s))
    p = min(p, max(len(s) - len(t), 0))
    if t == "": return p
    return -1 if p < 0 else s.rfind(t, 0, p + len(t))
def scan(s, t, p=0, inc=True):
    p = clamp(p, 0, len(s))
    if t == "": return p
    return next((i for i in range(p, len(s)) if (s[i] in t) == inc), -1)
def rscan(s, t, p=None, inc=True):
    p = len(s) if p is None else clamp(p, -1, len(s))
    if p == len(s): p -= 1
    if t == "": return p
    return next((i for i in range(p, -1, -1) if (s[i] in t) == inc), -1)
def split(s, sep=None, m=-1):
    if sep == "": raise Err
    if m == 0: return []
    if sep is not None:
        return s.split(sep, m - 1 if m > 0 else -1)
    out = []; pos = scan(s, WS, 0, False)
    while pos != -1:
        end = scan(s, WS, pos)
        if end == -1 or len(out) == m - 1: out.append(s[pos:]); break
        out.append(s[pos:end])
        pos = scan(s, WS, end, False)
    return out
def lines(s, keep):
    out = []; p = 0
    while p < len(s):
        e = p
        while e < len(s) and s[e] not in EOL: e += 1
        x = e + (2 if s[e:e + 2] == "\r\n" else 1) if e < len(s) else e
        out.append(s[p:x] if keep else s[p:e]); p = x
    return out
def just(s, n, f, left):
    if not isinstance(f, str) or len(f) != 1: raise Err
    if len(s) >= n: return s
    return s + f * (n - len(s)) if left else f * (n - len(s)) + s
def zfill(s, n, f="0"):
    if not isinstance(f, str) or len(f) != 1: raise Err
    if len(s) >= n: return s
    p = f * (n - len(s))
    return s[0] + p + s[1:] if s[:1] in ("+", "-") and s else p + s

def T(fn, *a):
    try: return rep(fn(*a))
    except Err: return "E"

def unary(s):
    return [rep(s), rep(len(s)), rep(all(ord(c) < 128 for c in s)), rep(s[::-1]), rep(upper(s)), rep(lower(s)), rep(s.strip(WS)), rep(s.lstrip(WS)),
            rep(s.rstrip(WS)), rep(split(s)), rep(lines(s, False)), rep(lines(s, True)), rep(list(s)), rep([ord(c) for c in s]),
            rep(s.encode("utf-8")), rep(7), rep(s + s), rep(s), rep(s), rep(s), rep([s + "!", True, False, True])]
UNARY = '''T(()=>s), T(()=>s.size), T(()=>s.ascii), T(()=>s.reverse()), T(()=>s.uppercase()), T(()=>s.lowercase()), T(()=>s.strip()), T(()=>s.lstrip()),
T(()=>s.rstrip()), T(()=>[s.split()...]), T(()=>[s.split_lines()...]), T(()=>[s.split_lines(true)...]), T(()=>[s.iterator()...]), T(()=>[s -> map(λ(c) -> (c.code()))...]),
T(()=>buffer(s)), T(fun { const o = {}
 o[string(c)] = 7
 return o[s] }), T(()=>s + s), T(()=>s[:]), T(()=>stringify(s)), T(()=>string(s)), T(()=>[s + "!", s == string(c), s < string(c), s <= string(c)])'''

def cases_unary(alpha, n, m=0, name="unary"):
    ws = list(words(alpha, n, m))
    U = UNARY.replace("λ(c) -> (c.code())", "x => x.code()")
    for i in range(0, len(ws), 24):
        part = ws[i:i + 24]
        prog = PRE + '''
for const c in %s {
    for const k in kinds {
        const s = k(c)
        print([%s]->join(","))
    }
}
''' % (klist(part), U)
        exp = []
        for w in part:
            exp += [",".join(unary(w))] * NK
        yield "%s %s" % (name, rep(part[0])), prog, exp

def cases_index(bases):
    for s in bases:
        n = len(s)
        I = list(range(-n - 2, n + 3)) + [None, 2**31, -2**31, 2**40, -2**40, 2**63 - 1, -2**63, 0.5, -0.5, 1.99, n - 0.5]
        I2 = [i for i in I if i is not None] + [None]
        prog = PRE + '''
const I = [%s]
const c = %s
for const k in kinds {
    const s = k(c)
    for const i in I {
        print([T(()=>s[i]), T(()=>s.code(i)), T(()=>s.get(i, "?"))]->join(","))
        for const j in I { print(T(()=>s[i:j])) }
    }
}
''' % (", ".join(src(i) for i in I), klist([s])[1:-1])
        exp = []
        def get(s, i):
            try: return index(s, i)
            except Err: return "?"
        for i in I:
            if i is None: exp.append("*")
            else: exp.append(",".join([T(index, s, i), T(lambda: ord(index(s, i))), T(get, s, i)]))
            for j in I: exp.append(T(slc, s, i, j))
        yield "index %s" % rep(s), prog, exp * NK

def cases_pairs(alpha, n, m, name):
    """all pairs; both strings in two representations (rotating through all combinations)"""
    ss = list(words(alpha, n)); ts = list(words(alpha, m))
    for si, s in enumerate(ss):
        P = list(range(-len(s) - 1, len(s) + 2))
        prog = PRE + '''
const c = %s
const P = %s
const ts = %s
var n = %d
for const d in ts {
    n += 1
    const s = kinds[n %% kinds.size](c)
    const t = kinds[(n / kinds.size + n) %% kinds.size](d)
    const o = {}
    o[s] = 1
    print([T(()=>s + t), T(()=>s == t), T(()=>s != t), T(()=>s < t), T(()=>s <= t), T(()=>s > t), T(()=>s >= t), T(()=>s.starts_with(t)), T(()=>s.ends_with(t)),
        T(()=>s.find(t)), T(()=>s.rfind(t)), T(()=>s.scan(t)), T(()=>s.rscan(t)), T(()=>[s.split(t)...]), T(()=>s.strip(t)), T(()=>s.lstrip(t)), T(()=>s.rstrip(t)), T(()=>t in o),
        T(()=>[s.split(t, 1)...]), T(()=>[s.split(t, 2)...]), T(()=>[s.split(t, 0)...])]->join(","))
    for const p in P {
        print([T(()=>s.find(t, p)), T(()=>s.rfind(t, p)), T(()=>s.scan(t, p)), T(()=>s.rscan(t, p)), T(()=>s.scan(t, p, false)), T(()=>s.rscan(t, p, false))]->join(","))
    }
}
''' % (klist([s])[1:-1], P, klist(ts), si)
        exp = []
        for t in ts:
            exp.append(",".join([rep(s + t), rep(s == t), rep(s != t), rep(s < t), rep(s <= t), rep(s > t), rep(s >= t), rep(s.startswith(t)), rep(s.endswith(t)),
                rep(find(s, t)), rep(rfind(s, t)), rep(scan(s, t)), rep(rscan(s, t)), T(split, s, t), rep(s.strip(t) if t else s), rep(s.lstrip(t) if t else s), rep(s.rstrip(t) if t else s),
                rep(s == t), T(split, s, t, 1), T(split, s, t, 2), T(split, s, t, 0)]))
            for p in P:
                exp.append(",".join(rep(x) for x in (find(s, t, p), rfind(s, t, p), scan(s, t, p), rscan(s, t, p), scan(s, t, p, False), rscan(s, t, p, False))))
        yield "%s %s" % (name, rep(s)), prog, exp

def cases_just(quick):
    ss = ["", "a", "\xe9", "\u2601", "\U0001f600", "ab", "-1", "+", "-", "+\u2601x", "-\xe9", "abc", "\u2601\xe9"]
    fills = [" ", "0", "\xe9", "\u2601", "\U0001f600", "", "ab", None, 1]
    N = [-1, 0, 1, 2, 3, 4, 5, 17, 40]
    prog = PRE + '''
for const c in %s {
    for const k in kinds {
        const s = k(c)
        for const n in %s {
            print([T(()=>s.ljust(n)), T(()=>s.rjust(n)), T(()=>s.zfill(n)), T(()=>s.repeats(n)), T(()=>s.repeats(n + 0.5)), T(()=>[s.split(void, n)...])]->join(","))
            for const f in [%s] { print([T(()=>s.ljust(n, f)), T(()=>s.rjust(n, f)), T(()=>s.zfill(n, f))]->join(",")) }
        }
    }
}
'''
    for s in ss:
        exp = []
        for n in N:
            def r(n):
                if n < 0: raise Err
                return s * n
            exp.append(",".join([T(just, s, n, " ", True), T(just, s, n, " ", False), T(zfill, s, n), T(r, n), T(r, n), T(split, s, None, n)]))
            for f in fills: exp.append(",".join([T(just, s, n, f, True), T(just, s, n, f, False), T(zfill, s, n, f)]))
        yield "just " + rep(s), prog % (klist([s]), N, ", ".join(src(f) for f in fills)), exp * NK

OPS = [("s[1:]", lambda s: s[1:]), ("s[:-1]", lambda s: s[:-1]), ('s + "\\x{2601}"', lambda s: s + "\u2601"), ('"\\xE9" + s', lambda s: "\xe9" + s),
       ('s.reverse()', lambda s: s[::-1]), ("s.repeats(2)", lambda s: s * 2), ("s.uppercase()", upper), ("s + s[:3]", lambda s: s + s[:3]),
       ('"a\\(s)b"', lambda s: "a" + s + "b"), ("s[2:-2]", lambda s: slc(s, 2, -2)), ('s + "\\x{1F600}z"', lambda s: s + "\U0001f600z"),
       ('s.ljust(9, "k")', lambda s: just(s, 9, "k", True)), ("string(buffer(s))", lambda s: s), ('[s.split("a")...] -> join("b")', lambda s: "b".join(split(s, "a")))]

def cases_seq(depth, starts):
    funs = ", ".join("(s => %s)" % o[0] for o in OPS)
    for st in starts:
        for first in range(len(OPS)):
            prog = PRE + '''
const ops = [%s]
const o = {}
const walk = fun(s, h, n) {
    print(h, rep(s), s.size, s.ascii, rep(buffer(s)))
    if n {
        for const i in range(ops.size) {
            const t = ops[i](s)
            o[t] = true
            if ! (t in o && t == string(codes(t)) && string(codes(t)) in o) { print("unequal " + h + " " + string(i)) }
            walk(t, h + string(i) + ".", n - 1)
        }
    }
}
walk(ops[%d](string(%s)), "", %d)
''' % (funs, first, klist([st])[1:-1], depth - 1)
            exp = []
            def walk(s, h, n):
                exp.append("%s %s %d %s %s" % (h, rep(s), len(s), "true" if all(ord(c) < 128 for c in s) else "false", rep(s.encode())))
                if n:
                    for i, (_, f) in enumerate(OPS): walk(f(s), h + str(i) + ".", n - 1)
            walk(OPS[first][1](st), "", depth - 1)
            yield "seq %s %d" % (rep(st), first), prog, exp

def cases_long(lens, offs):
    """strings equal up to one place, at all places, alignments and widths"""
    for pad in ["", "\xe9", "\u2601", "\U0001f600"]:
        for n in lens:
            base = "".join(chr(97 + i % 26) for i in range(n))
            prog = PRE + '''
const base = string(%s)
const sub = fun(o, wide, s) { return (wide + "0123456789abcdef"[:o] + s + wide)[wide.size + o : wide.size + o + s.size] }
for const o in %s {
    const s = sub(o, "%s", base)
    print(T(()=>s))
    for const i in range(base.size) {
        for const d in ["\\x60", "\\x80", "\\x{2601}", "\\x{1F600}"] {
            const t = base[:i] + d + base[i + 1:]
            const u = sub(7 - o & 7, d, t)
            const m = {}
            m[s] = 1
            m[u] = 2
            m[t] += 1
            print(s < t, s == t, t > s, u < s, u == t, s <= u, u >= s, t <= u, s.starts_with(t[:i]), u.ends_with(s[i + 1:]), u.find(s[i + 1:]), u.find(d), u.rfind(d), u.rfind(s[:i]), u.scan(d), u.rscan(s[:1]), m[s], m[t],
                   u.find(s), (s + u).find(u), (s + u).rfind(s), (u + s).find(t), (u + s).rfind(base))
        }
    }
}
''' % (klist([base])[1:-1], offs, src(pad)[1:-1])
            prog = prog.replace("7 - o & 7", "(7 - o) & 7")
            exp = []
            B = lambda x: "true" if x is True else "false" if x is False else str(x)
            for o in offs:
                s = base; exp.append(rep(s))
                for i in range(n):
                    for d in ["\x60", "\x80", "\u2601", "\U0001f600"]:
                        t = base[:i] + d + base[i + 1:]; u = t
                        exp.append(" ".join(map(B, [s < t, False, t > s, u < s, True, s <= u, u >= s, True, True, True, find(u, s[i + 1:]), find(u, d), rfind(u, d), rfind(u, s[:i]), scan(u, d), rscan(u, s[:1]), 1, 3,
                            -1, (s + u).find(u), 0, 0, n])))
            yield "long %r %d" % (pad, n), prog, exp

def cases_build():
    """string() of several arguments of all kinds, interpolation, size limit"""
    parts = [('"a"', "a"), ('""', ""), ('"\\x{2601}"', "\u2601"), ("[98, 0xE9]", "b\xe9"), ("[]", ""), ("[0x1F600, 99.9]", "\U0001f600c"), ("buffer([0xC3, 0xA9, 100])", "\xe9d"), ("42", "42"), ("-1", "-1"),
             ("1.5", "1.5"), ('["x", [0x2602], buffer([101])].iterator()', "x\u2602e"), ("[102, 103.5].iterator()", "fg"), ("buffer()", ""),
             ("void", None), ("[-1]", None), ("[0x200000]", None), ('["a"]', None), ("x => x", None), ("buffer([0xC3])", None), ("[void].iterator()", None)]
    exp, body = [], ""
    for n in (1, 2, 3):
        for t in itertools.product(parts, repeat=n):
            if n == 3 and hash(tuple(parts.index(x) for x in t)) is None: continue
            body += "print(T(()=>string(%s)))\n" % ", ".join(x[0] for x in t)
            exp.append("E" if any(x[1] is None for x in t) else rep("".join(x[1] for x in t)))
    bl = body.split("\n"); k = 400
    for i in range(0, len(exp), k):
        yield "build %d" % i, PRE + "\n".join(bl[i:i + k]) + "\n", exp[i:i + k]
    lim = []
    for w, c in (("a", 1), ("\\xE9", 1), ("\\x{2601}", 1), ("\\x{1F600}", 1), ("abc", 3)):
        lim.append(('const s = "%s".repeats(%d)\nprint(s.size, s.code(0), s.code(-1))' % (w, 65535 // c), "%d %d %d" % (65535 // c * c, ord(eval('"%s"' % w.replace("\\x{1F600}", "\\U0001F600").replace("\\x{2601}", "\\u2601"))[0]), ord(eval('"%s"' % w.replace("\\x{1F600}", "\\U0001F600").replace("\\x{2601}", "\\u2601"))[-1]))))
        lim.append(('print(T(()=>"%s".repeats(%d)))' % (w, 65535 // c + 1), "E"))
        lim.append(('print(T(()=>"%s".repeats(0x100000001)), T(()=>"%s".repeats(0x5555_5556)), T(()=>"".repeats(65535)), T(()=>"%s".repeats(1 << 62)))' % (w, w, w), "E E s E"))
        lim.append(('const s = "%s".repeats(%d)\nprint(T(()=>s + "bcd"), T(()=>"bcd" + s), T(()=>string(s, "bcd")), T(()=>"\\(s)bcd"), T(()=>(s + "").size))' % (w, 65535 // c), "E E E E i%d" % (65535 // c * c)))
        lim.append(('const s = "%s".repeats(%d)\nprint((s + "b").size, ("b" + s).size, string(s, "b").size, "\\(s)b".size)' % (w, 65533 // c), " ".join(["%d" % (65533 // c * c + 1)] * 4)))
    for i, (p, e) in enumerate(lim): yield "limit %d" % i, PRE + p + "\n", [e]

def cases_many(N):
    """concatenation of many pieces, wider ones at all places, in all forms"""
    sp = ["\xe9", "\u2601", "\U0001f600", "", "zz"]
    lines, exp = [], []
    for n in N:
        ps = [chr(97 + i % 26) * (1 + i % 3 % 2) for i in range(n)]
        for i in range(n):
            for k, x in enumerate(sp):
                q = ps[:]; q[i] = x
                if k == 1 and n > 2: q[(i + n // 2) % n] = sp[0]
                e = "".join(q)
                o = "%s %d %s %s" % (rep(e), len(e), "true" if e.isascii() else "false", rep(e.encode()))
                L = "[" + ", ".join(src(y) for y in q) + "]"
                lines.append("one(%s, fun(q) { return \"%s\" })" % (L, "".join("\\(q[%d])" % j for j in range(n)) if n < 24 else "\\(string(q...))"))
                exp.append(" | ".join([o] * 5))
    H = PRE + '''
const d = s => rep(s) + " " + string(s.size) + " " + string(s.ascii ? "true" : "false") + " " + rep(buffer(s))
const one = fun(q, f) {
    const r = q -> map(x => kinds[1](codes(x)))
    var a = ""
    for const x in q { a += x }
    print([d(string(q...)), d(f(q)), d(string(r...)), d(a), d(q -> join(""))] -> join(" | "))
}
'''
    k = 120
    for i in range(0, len(lines), k): yield "many %d" % i, H + "\n".join(lines[i:i + k]) + "\n", exp[i:i + k]

def run():
    ck = common.Check("D01")
    b = batch.Batch(preload="import io\nimport math\nimport threads\n", env={"LC_ALL": "C.UTF-8"})
    q = ck.quick
    cs = []
    cs += cases_unary(["a", " ", "\xe9", "\u2601", "\U0001f600"], 5 if q else 6)
    cs += cases_unary(["\n", "\r", "x", "\x85", "\u2028", "\ufeff"], 4 if q else 6, 1, "white")
    cs += cases_unary(["A", "k", "\xc9", "\xff", "\xb5", "\u044f", "\u212a", "\xdf"], 3, 1, "case")
    cs += cases_index(["", "a", "\xe9b", "ab\u2601", "\U0001f600xyz", "abcdefghijklmnopqrs", "\u2601bcdefghijkl", "\U0001f600bcdefg\xe9"][:None if not q else 8])
    cs += cases_pairs(["a", "b", "\u2601"], 5 if q else 6, 3, "pair16")
    cs += cases_pairs(["a", "\xe9", "\U0001f600"], 4 if q else 5, 3, "pair32")
    cs += cases_pairs([" ", "\xe9", "\xff"], 4 if q else 5, 3, "pair8")
    cs += cases_just(q)
    cs += cases_seq(4 if q else 5, ["", "ka", "abcdefghijklmnop", "\xe9\xff\xb5", "\u2601a", "\U0001f600aa"])
    cs += cases_long([1, 2, 7, 8, 9, 15, 16, 17, 24, 33] if q else range(1, 41), [0, 1, 3, 7] if q else list(range(8)))
    cs += cases_build()
    cs += cases_many([2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33] if q else range(2, 50))
    res = []
    for k, p, e in cs:
        if any(x == "*" for x in e):
            def cmp(r, e=e):
                if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
                g = r.out.split("\n")[:-1]
                if len(g) != len(e): return "%d lines instead of %d" % (len(g), len(e))
                for i, (x, y) in enumerate(zip(g, e)):
                    if y != "*" and x != y: return "line %d: got %s expected %s" % (i, x, y)
            res.append((k, p, cmp, len(e)))
        else: res.append((k, p, e))
    cases.compare(ck, b, res, chunk=4)
    ck.extra["bounds"] = "alphabets of 5-8 code points of all widths, lengths up to %d, %d representations, all index pairs around the bounds, all operation sequences up to %d" % (5 if q else 6, NK, 4 if q else 5)
    ck.sample({"program": cs[5][1][-900:], "expected": cs[5][2][:2]})
    ck.assumptions = ["character classification as in the C.UTF-8 locale; code points of planes 1 and up have no case", "empty sets given to scan return the start position as documented"]
    ck.finish()
if __name__ == "__main__": common.main(run)
