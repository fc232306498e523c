#!/usr/bin/env python3
"""Arrays and buffers: every C operation with every index combination and every history of operations up to a depth next to a plain
sequence (mc/h_seq.c, also under the address sanitizer); the same for the script level: constructors, operators, methods, pack and unpack."""
import os, sys, itertools, subprocess, struct, math
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases, kosbuild
from kosval import rep, src, REP, Err, toint, isnum

PRE = REP + '''
const T = fun(f) { try { return rep(f()) } catch const e { return "E" } }
const gen = fun(a) { const g = fun(a) { for const x in a { yield x } }
    return g(a) }
'''
def T(fn, *a):
    try: return rep(fn(*a))
    except Err: return "E"

def cpart(ck, jobs, san):
    fl = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if san else ["-O2"]
    exe = kosbuild.build("bsan" if san else "plain", [os.path.join(common.VERIF, "mc", "h_seq.c")], flags=fl, hflags=fl, ldflags=["-fsanitize=address"] if san else [])
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1")
    def one(j):
        part, shard, n, depth = j
        try: p = subprocess.run([exe, part, str(shard), str(n), str(depth)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=max(30, ck.left()), env=env)
        except subprocess.TimeoutExpired: return j, None, ""
        return j, p.returncode, p.stdout, p.stderr
    L = [(p, i, 8, d) for p, d in jobs for i in range(8)]
    with ThreadPoolExecutor(common.NCPU) as ex: res = list(ex.map(one, L))
    for r in res:
        j = r[0]
        if r[1] is None: ck.exhaustive = False; ck.violation("%s hang" % j[0], "no end"); continue
        l = r[2].strip().splitlines()
        if r[1] == 0 and l and l[-1].startswith("OK "):
            h, o, s = map(int, l[-1].split()[1:])
            ck.traces += h; ck.transitions += o; ck.states += s
            ck.extra["histories_c"] = ck.extra.get("histories_c", 0) + h
        else:
            b = [x for x in l if x.startswith("BAD")]
            e = [x for x in r[3].splitlines() if "ERROR" in x or " in KOS" in x or " in kos" in x][:6]
            ck.violation("%s depth %d" % (j[0], j[3]), b[0] if b else "ended with %s %s" % (r[1], " ".join(e)), {"command": " ".join([exe, j[0], str(j[1]), str(j[2]), str(j[3])]), "output": r[2][-2000:], "stderr": r[3][-2000:]})

# ---------------------------------------------------------------- script level: single operations with all indices
def fl(x): return math.floor(x) if isinstance(x, float) else x
def num(x):
    if not isnum(x): raise Err
    return toint(x)
def clampi(x, n):
    if x < 0: x += n
    return max(0, min(n, x))
def rd(a, i):
    i = num(i)
    if i < -len(a) or i >= len(a): raise Err
    return a[i]
def sl(a, x, y):
    x = 0 if x is None else num(x); y = len(a) if y is None else num(y)
    return a[clampi(x, len(a)):clampi(y, len(a))] if clampi(y, len(a)) > clampi(x, len(a)) else a[:0]
def byte(v):
    v = num(v)
    if not 0 <= v <= 255: raise Err
    return v
def put(a, i, v):
    a = list(a); i = num(i)
    if i < -len(a) or i >= len(a): raise Err
    a[i] = v
    return a
def fill(a, v, x=0, y=None):
    x = 0 if x is None else clampi(num(x), len(a)); y = len(a) if y is None else clampi(num(y), len(a))
    return a[:x] + type(a)([v]) * max(0, y - x) + a[max(x, y):]
def ins(a, x, y, it):
    x = 0 if x is None else clampi(num(x), len(a)); y = len(a) if y is None else clampi(num(y), len(a))
    return a[:x] + it + a[max(x, y):]

def cases_single(quick):
    IX = lambda n: list(range(-n - 2, n + 3)) + [None, 2**31, -2**31, 2**32, -2**32 - 1, 2**32 + 1, 2**63 - 1, -2**63, 0.5, -0.5, 1.99, -1.01, 1e18, 1e30, "1", True, []]
    for n in (0, 1, 2, 3, 5) if quick else range(8):
        a = [10 + i for i in range(n)]
        I = IX(n)
        for kind in ("array", "buffer"):
            isb = kind == "buffer"
            M = bytes(a) if isb else a
            W = (lambda f: T(lambda: bytes(byte(v) for v in f()))) if isb else (lambda f: T(f))
            mk = "buffer(%s)" % src(a) if isb else src(a)
            prog = PRE + '''
const I = [%s]
const mk = () => %s
const V = [0, 255, 7.9, 256, -1, "x", void]
const g7 = fun(x, y) { const b = mk()
    const r = b.fill(7, x, y)
    if r != b { throw 1 }
    return b }
for const i in I {
    print([T(()=>mk()[i]), T(()=>mk().get(i, "?")), T(()=>mk().get(i))] -> join(","))
    print(V -> map(fun(v) { return T(fun { const b = mk()
        b[i] = v
        return b }) }) -> join(","))
    print(T(fun { const b = mk()
        b[i] += 2
        return b }))
    for const j in I { print([T(()=>mk()[i:j]), T(()=>mk().slice(i, j)), T(()=>g7(i, j)), T(()=>mk().insert(i, j, mk())), T(()=>mk().insert(i, j, [])),
        T(fun { const b = mk()
            const c = b[i:j]
            c.insert(0, [1])
            b.insert(0, c)
            return b }),
        T(fun { const b = mk()
            return b.insert(i, j, b) })] -> join(",")) }
    print([T(()=>mk().insert(i, "xy")), T(()=>mk().insert(i, gen([1, 2, 3]))), T(()=>mk().insert(i, [])), T(()=>mk().insert(i, buffer([4]))), T(()=>mk().fill(8, i)), T(()=>mk().resize(i).size)] -> join(","))
}
''' % (", ".join(src(i) for i in I), mk)
            exp = []
            V = [0, 255, 7.9, 256, -1, "x", None]
            def get(i, d):
                if not isnum(i): raise Err
                try: return rd(M, i)
                except Err: return d
            for i in I:
                e = [T(rd, M, i)]
                # get() with other than integers is not documented
                exp.append((i, None) if not isinstance(i, int) or isinstance(i, bool) else ",".join(e + [T(get, i, "?"), T(get, i, None)]))
                exp.append(",".join(W(lambda: put(M, i, byte(v) if isb else v)) for v in V))
                exp.append(W(lambda: put(M, i, rd(M, i) + 2)))
                for j in I:
                    ok = all(isinstance(x, int) and not isinstance(x, bool) or x is None for x in (i, j))
                    r = [T(sl, M, i, j), T(sl, M, i, j), T(fill, M, 7, i, j)]
                    if ok or not isb:
                        one = [1] if not isb else b"\x01"
                        q = lambda f: T(f)
                        r += [q(lambda: ins(M, i, j, M)), q(lambda: ins(M, i, j, M[:0])), q(lambda: ins(M, 0, 0, one + sl(M, i, j))), q(lambda: ins(M, i, j, M))]
                        exp.append(",".join(r))
                    else: exp.append((",".join(r), None))
                ok = isinstance(i, int) and not isinstance(i, bool) or i is None
                if ok:
                    f = lambda s: (lambda: ins(M, len(M) if i is None else i, len(M) if i is None else i, s))
                    xy = b"xy" if isb else ["x", "y"]
                    def rs():
                        x = num(i)
                        if x < 0 or x >= 2**28: raise Err
                        return x
                    exp.append(",".join([T(f(xy)), T(f(type(M)([1, 2, 3]))), T(f(type(M)([]))), T(f(type(M)([4]))), T(fill, M, 8, i), T(rs) if i != 2**31 else "E"]))
                else: exp.append((i, None))
            def cmp(r, exp=exp):
                if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
                g = r.out.split("\n")[:-1]
                if len(g) != len(exp): return "%d lines instead of %d" % (len(g), len(exp))
                for k, (x, y) in enumerate(zip(g, exp)):
                    if isinstance(y, tuple):
                        if isinstance(y[0], str) and "," in y[0] and not x.startswith(y[0]): return "line %d: got %s expected %s" % (k, x, y[0])
                    elif x != y: return "line %d: got %s expected %s" % (k, x, y)
            yield "single %s %d" % (kind, n), prog, cmp, len(exp) * 4

# ---------------------------------------------------------------- histories at script level
class S: pass
def aop(f):
    return f
AOPS = [
 ("a.push(7)", lambda s: s.a.append(7) or len(s.a) - 1), ("a.push(1, [2], 3)", lambda s: s.a.extend([1, [2], 3]) or len(s.a) - 3), ("a.push()", lambda s: len(s.a)),
 ("a.push(b...)", lambda s: s.pushb()),
 ("a.pop()", lambda s: s.pop1()), ("a.pop(0)", lambda s: None), ("a.pop(2)", lambda s: s.popn(2)), ("a.pop(1)", lambda s: s.popn(1)),
 ("a.resize(1)", lambda s: s.set(s.a[:1] + [None] * (1 - len(s.a)))), ("a.resize(a.size + 2)", lambda s: s.set(s.a + [None] * 2)), ('a.resize(4, "x")', lambda s: s.set(s.a[:4] + ["x"] * (4 - len(s.a)))),
 ("a.resize(0)", lambda s: s.set([])), ("a.reserve(30)", lambda s: s.a), ("a[0] = 11", lambda s: s.put(0, 11)), ("a[-1] += 5", lambda s: s.add(-1, 5)), ("a[1] = b.size", lambda s: s.put(1, len(s.b))),
 ("a.insert(0, b)", lambda s: s.set(ins(s.a, 0, 0, s.b))), ("a.insert(1, 2, a)", lambda s: s.set(ins(s.a, 1, 2, s.a))), ('a.insert(-1, "pq")', lambda s: s.set(ins(s.a, -1, -1, ["p", "q"]))),
 ("a.insert(0, 2, gen([5, 6, 9]))", lambda s: s.set(ins(s.a, 0, 2, [5, 6, 9]))), ("a.insert(void, range(2))", lambda s: s.set(s.a + [0, 1])), ("a.insert(1, -1, gen([4]))", lambda s: s.set(ins(s.a, 1, -1, [4]))),
 ("a.insert(0, void, buffer([200]))", lambda s: s.set([200])), ("a.fill(3, 1, -1)", lambda s: s.set(fill(s.a, 3, 1, -1))),
 ("b = a[1:]", lambda s: s.setb(s.a[1:])), ("b = a[:-1]", lambda s: s.setb(s.a[:-1])), ("b = a", lambda s: s.alias()), ("a = [a..., b...]", lambda s: s.new(s.a + s.b)), ("a = array(b, a)", lambda s: s.new(s.b + s.a)),
 ("a.cas(0, 7, 8)", lambda s: s.cas(0, 7, 8)), ("a = [1, 2, 3]", lambda s: s.new([1, 2, 3])), ("swap", lambda s: s.swap()), ("a = array(\"hé\", buffer([9]), gen([a.size]))", lambda s: s.new([104, 233, 9, len(s.a)])),
 ("a.insert_array(0, 1, b)", lambda s: s.set(ins(s.a, 0, 1, s.b))), ("a.sort()", None), ("a = array(2, b)", lambda s: s.new2()),
]
AOPS = [o for o in AOPS if o[1]]
class A:
    def __init__(s, a): s.a = a; s.b = []
    def pop1(s):
        if not s.a: raise Err
        return s.a.pop()
    def popn(s, n):
        if len(s.a) < n: raise Skip
        r = s.a[-n:]; del s.a[-n:]
        return r
    def pushb(s):
        n = len(s.a); s.a.extend(list(s.b)); return n
    def set(s, v): s.a[:] = v; return s.a
    def setb(s, v): s.b = v; return v
    def put(s, i, v):
        if i >= len(s.a): raise Err
        s.a[i] = v; return v
    def add(s, i, v):
        if not s.a or not isinstance(s.a[i], int): raise Err
        s.a[i] += v; return s.a[i]
    def alias(s): s.b = s.a; return s.b
    def new(s, v): s.a = list(v); return s.a
    def new2(s): s.a = [s.b, s.b]; return s.a
    def cas(s, i, o, n):
        if not s.a: raise Err
        if s.a[i].__class__ is int and s.a[i] == o: s.a[i] = n; return o
        return s.a[i]
    def swap(s): s.a, s.b = s.b, s.a; return None
class Skip(Exception): pass

BOPS = [
 ("a.resize(1)", lambda s: s.size(1)), ("a.resize(a.size + 2, 5)", lambda s: s.size(len(s.a) + 2, 5)), ("a.resize(0)", lambda s: s.size(0)), ("a.resize(70, 1)", lambda s: s.size(70, 1)), ("a.reserve(100)", lambda s: s.a),
 ("a[0] = 11", lambda s: s.put(0, 11)), ("a[-1] += 5", lambda s: s.add(-1, 5)), ("a[1] = b.size", lambda s: s.put(1, len(s.b))), ("a[0] = 256", lambda s: s.put(0, 256)),
 ("a.insert(0, b)", lambda s: s.set(ins(bytes(s.a), 0, 0, bytes(s.b)))), ("a.insert(1, 2, a)", lambda s: s.set(ins(bytes(s.a), 1, 2, bytes(s.a)))), ('a.insert(-1, "pé")', lambda s: s.set(ins(bytes(s.a), -1, -1, "pé".encode()))),
 ("a.insert(0, 2, gen([5, 6, 9]))", lambda s: s.set(ins(bytes(s.a), 0, 2, b"\5\6\x09"))), ("a.insert(void, range(2))", lambda s: s.set(bytes(s.a) + b"\0\1")), ("a.insert(1, -1, [])", lambda s: s.set(ins(bytes(s.a), 1, -1, b""))),
 ("a.fill(3, 1, -1)", lambda s: s.set(fill(bytes(s.a), 3, 1, -1))), ("a.fill(9)", lambda s: s.set(b"\x09" * len(s.a))), ("a.copy_buffer(0, b)", lambda s: s.copy(0, s.b)), ("a.copy_buffer(1, a)", lambda s: s.copy(1, s.a)),
 ("a.copy_buffer(-1, a, 1)", lambda s: s.copy(-1, s.a, 1)), ("a.copy_buffer(void, a, -2, void)", lambda s: s.copy(0, s.a, -2)), ("a.copy_buffer(0, a, 1, -1)", lambda s: s.copy(0, s.a, 1, -1)),
 ("b = a[1:]", lambda s: s.setb(s.a[1:])), ("b = a[:-1]", lambda s: s.setb(s.a[:-1])), ("b = a", lambda s: s.alias()), ("swap", lambda s: s.swap()), ("a = buffer(b, a)", lambda s: s.new(s.b + s.a)),
 ("a = buffer(\"hé\", [9], gen([a.size]), b)", lambda s: s.new("hé".encode() + bytes([9, byte(len(s.a))]) + s.b)), ('a.pack("u1 >u2", 1, 2)', lambda s: s.set(s.a + b"\1\0\2")), ('a.pack("b3s", b, "é")', lambda s: s.set(s.a + (bytes(s.b) + b"\0\0\0")[:3] + "é".encode())),
 ('a.unpack("b2 u1")', lambda s: s.unp()), ('a.pack("b2", a)', lambda s: s.self2()),
]
class BB(A):
    def __init__(s, a): s.a = bytearray(a); s.b = bytearray()
    def size(s, n, v=0):
        s.a[:] = s.a[:n] + bytes([v]) * (n - len(s.a)); return s.a
    def put(s, i, v):
        if i >= len(s.a): raise Err
        s.a[i] = byte(v); return v
    def add(s, i, v):
        if not s.a: raise Err
        s.a[i] = byte(s.a[i] + v); return s.a[i]
    def new(s, v): s.a = bytearray(v); return s.a
    def copy(s, p, o, x=0, y=None):
        o = sl(bytes(o), x, y); p = clampi(p, len(s.a)); n = min(len(o), len(s.a) - p)
        s.a[p:p + n] = o[:n]; return s.a
    def unp(s):
        if len(s.a) < 3: raise Err
        return [bytes(s.a[:2]), s.a[2]]
    def self2(s):
        s.a += (bytes(s.a) + b"\0\0")[:2]; return s.a

def has_cycle(x): return False
def cases_hist(kind, ops, depth, starts):
    isb = kind == "buffer"
    def body(code):
        if code == "swap": return "fun(s) { const t = s.a\n s.a = s.b\n s.b = t }"
        c = code
        import re
        c = re.sub(r"\ba\b(?!\()", "s.a", re.sub(r"\bb\b(?![\d\"])", "s.b", c)) if '"' not in c else None
        if c is None:
            parts = re.split(r'("[^"]*")', code)
            c = "".join(p if p.startswith('"') else re.sub(r"\ba\b", "s.a", re.sub(r"\bb\b", "s.b", p)) for p in parts)
        if re.match(r"s\.[ab](\[[-\d]+\])? \+?= ", c):
            return "fun(s) { %s\n return %s }" % (c, re.split(r" \+?= ", c)[0])
        return "fun(s) { return %s }" % c
    fs = ",\n    ".join(body(o[0]) for o in ops)
    for st in starts:
        for first in range(len(ops)):
            mk = "buffer(%s)" % src(st) if isb else src(st)
            prog = PRE + '''
const ops = [
    %s
]
const d = %d
const idx = array(d, 0)
idx[0] = %d
var more = true
while more {
    const s = { a: %s, b: %s }
    var r = ""
    for const i in idx {
        try { r = rep(ops[i](s)) } catch const e { r = "E" }
    }
    try { r = r + " " + rep(s.a) + " " + rep(s.b) } catch const e { r = "cycle" }
    print(r)
    var k = d - 1
    while k > 0 && idx[k] == ops.size - 1 {
        idx[k] = 0
        k -= 1
    }
    if k { idx[k] += 1 }
    else { more = false }
}
''' % (fs, depth, first, mk, "buffer()" if isb else "[]")
            exp = []
            for tail in itertools.product(range(len(ops)), repeat=depth - 1):
                s = BB(st) if isb else A(list(st))
                r = ""; ok = True
                for i in (first,) + tail:
                    try: r = rep(ops[i][1](s))
                    except Err: r = "E"
                    except Skip: ok = False; break
                    except RecursionError: ok = False; break
                if ok:
                    try: exp.append("%s %s %s" % (r, rep(s.a), rep(s.b)))
                    except RecursionError: exp.append("cycle")
                else: exp.append(None)
            def cmp(r, exp=exp):
                if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
                g = r.out.split("\n")[:-1]
                if len(g) != len(exp): return "%d lines instead of %d" % (len(g), len(exp))
                for k, (x, y) in enumerate(zip(g, exp)):
                    if y is not None and x != y: return "history %d after %s: got %s expected %s" % (k, ops[first][0], x, y)
            yield "history %s %d %s" % (kind, len(st), ops[first][0]), prog, cmp, len(exp) * depth

# ---------------------------------------------------------------- constructors
def cases_make():
    parts = [("[1, 2.5]", [1, 2.5], b"\1\2"), ("[]", [], b""), ('"aé"', [97, 233], b"a\xc3\xa9"), ('""', [], b""), ("buffer([3, 255])", [3, 255], b"\3\xff"), ("buffer()", [], b""), ("gen([6, 7])", [6, 7], b"\6\7"), ("gen([])", [], b""),
             ("gen([256])", [256], None), ('["x"]', ["x"], None), ("[-1]", [-1], None), ("{}", [], None), ("{k: 5}", [["k", 5]], None), ("void", None, None), ("true", None, None), ("x => x", None, None), ('done', [], b""), ("range(70)", list(range(70)), bytes(range(70)))]
    body, exp = [], []
    for n in (1, 2, 3):
        for t in itertools.product(parts, repeat=n):
            if n == 3 and sum(len(x[0]) for x in t) > 34: continue
            A_ = ", ".join(x[0] for x in t)
            body.append("print(T(()=>array(%s)), T(()=>buffer(%s)))" % (A_, A_))
            f = lambda k: "E" if any(x[k] is None for x in t) else rep([y for x in t for y in x[1]] if k == 1 else b"".join(x[2] for x in t))
            exp.append(f(1) + " " + f(2))
    for n in [-1, 0, 1, 3, 2.9, -0.5, 2**31, 2**32, 2**40, "\"3\"", 300]:
        for v in [None, "0", "7", "255", "256", "-1", "1.5", '"x"', "void", "[1]"]:
            A_ = "%s" % n + ("" if v is None else ", " + v)
            m = n if not isinstance(n, str) else None
            big = isinstance(n, str) or math.floor(n) < 0 or n >= 2**31
            vv = {None: None, "void": None, '"x"': "x", "[1]": [1]}.get(v, 0)
            if v not in (None, "void", '"x"', "[1]"): vv = float(v) if "." in v else int(v)
            if isinstance(n, str): ea = rep([51]) if v is None else None; eb = rep(b"3") if v is None else None
            else:
                ea = "E" if big else rep([vv] * math.floor(n))
                eb = "E" if big or (v is not None and (not isnum(vv) or not 0 <= math.floor(vv) <= 255)) else rep(bytes([math.floor(vv) if v else 0]) * math.floor(n))
            if ea is None: continue
            body.append("print(T(()=>array(%s)), T(()=>buffer(%s)))" % (A_, A_)); exp.append(ea + " " + eb)
    H = PRE + "const done = gen([])\ntry { done() } catch const e { }\n"
    for i in range(0, len(body), 150): yield "make %d" % i, H + "\n".join(body[i:i + 150]) + "\n", exp[i:i + 150]

# ---------------------------------------------------------------- pack and unpack
def packval(c, size, v, big):
    if c in "ui":
        if not isnum(v): raise Err
        return (toint(v) & ((1 << 8 * size) - 1)).to_bytes(size, "big" if big else "little")
    if c == "f":
        if not isnum(v): raise Err
        x = float(v)
        try: r = struct.pack(">f" if size == 4 else ">d", x)
        except OverflowError: r = struct.pack(">f", math.copysign(math.inf, x))
        return r if big else r[::-1]
    if c == "s":
        if not isinstance(v, str): raise Err
        u = v.encode()
    else:
        if not isinstance(v, (bytes, bytearray)): raise Err
        u = bytes(v)
    return u if size is None else (u + bytes(max(0, size - len(u))))[:size]
def parse(fmt):
    """tokens: (count, char, size) or Err"""
    i = 0; out = []
    def digits():
        nonlocal i
        j = i
        while i < len(fmt) and fmt[i].isdigit() and fmt[i] < "\x80": i += 1
        return fmt[j:i]
    while True:
        while i < len(fmt) and fmt[i] in " \t\n": i += 1
        if i >= len(fmt): return out
        n = 1
        if fmt[i].isdigit():
            n = int(digits())
            while i < len(fmt) and fmt[i] in " \t\n": i += 1
            if i >= len(fmt): out.append(None); return out
        c = fmt[i]; i += 1
        if c not in "<>xuifbs": out.append(None); return out
        size = None
        if c in "uifbs":
            d = digits()
            if d: size = int(d)
            elif c != "s": out.append(None); return out
            if c in "ui" and size not in (1, 2, 4, 8) or c == "f" and size not in (4, 8): out.append(None if n else 0); return out
        out.append((n, c, size))
def pack(fmt, vals):
    big = False; r = b""; vals = list(vals)
    for t in parse(fmt):
        if not t: raise Err
        n, c, size = t
        if c in "<>": big = c == ">"; continue
        if (n * size if n and size is not None else n) >= 1 << 31: raise Err
        if c == "x": r += bytes(n); continue
        if n > len(vals): raise Err
        for _ in range(n): r += packval(c, size, vals.pop(0), big)
    return r
def unpack(fmt, buf, pos=0):
    big = False; out = []; pos = clampi(pos, len(buf))
    for t in parse(fmt):
        if not t: raise Err
        n, c, size = t
        if c in "<>": big = c == ">"; continue
        if c == "x": size = 1
        if c == "s" and size is None:
            if n != 1: raise Err
            size = len(buf) - pos
        if pos + n * size > len(buf): raise Err
        for _ in range(n):
            p = buf[pos:pos + size]; pos += size
            if c == "x": continue
            if c in "ui":
                v = int.from_bytes(p, "big" if big else "little", signed=c == "i")
                out.append(v - (1 << 64) if v >= 1 << 63 else v)
            elif c == "f": out.append(struct.unpack(">f" if size == 4 else ">d", p if big else p[::-1])[0])
            elif c == "b": out.append(p)
            else:
                try: out.append(p.decode())
                except UnicodeDecodeError: raise Err
    return out
def cases_pack(quick):
    ints = [0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, -32769, 2**31 - 1, 2**31, 2**32 - 1, -2**31 - 1, 2**63 - 1, -2**63, 0x0102030405060708, 1.9, -1.1, 0.5, -0.5, 1e10, 3.5e38, 1e-46, -0.0, 0.1, 16777217, 1e300]
    lines, exp = [], []
    H = PRE + "const P = fun(f, a...) { const b = buffer([77])\n const r = b.pack(f, a...)\n if r != b { throw 1 }\n return b[1:] }\nconst PA = fun(f, a...) { return buffer().pack(f, a) }\n"
    def both(fmt, vals):
        V = "".join(", " + ("buffer(%s)" % src(list(v)) if isinstance(v, bytes) else src(v)) for v in vals)
        lines.append("print(T(()=>P(%s%s)), T(()=>PA(%s%s)))" % (src(fmt), V, src(fmt), V))
        e = T(pack, fmt, vals); exp.append(e + " " + (e if vals and not isinstance(vals[0], list) else e))
    def back(fmt, buf, pos=None):
        if 0 in parse(fmt): return                 # size is not looked at when nothing is read
        lines.append("print(T(()=>buffer(%s).unpack(%s%s)))" % (src(list(buf)), src(fmt), "" if pos is None else ", %s" % src(pos)))
        exp.append(T(unpack, fmt, buf, 0 if pos is None else pos))
    codes = ["u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8"]
    for c in codes:
        for e in ("", "<", ">", "><", "> "):
            for v in ints:
                both(e + c, [v])
                try: back(e + c, pack(e + c, [v]))
                except Err: pass
            both(e + c, ["1"]); both(e + c, [None]); both(e + c, [])
        for pat in ([0x80] + [0] * 7, [0] * 7 + [0x80], [0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], [0xff] * 8, [1, 2, 3, 4, 5, 6, 7, 8], [0x7f, 0x80, 0, 0, 0, 0, 0, 0], [0x3f, 0x80, 0, 1, 9, 9, 9, 9], [0] * 8):
            for e in ("", ">"):
                for n in (8, 7, 3, 1, 0, 9): back(e + c, bytes((pat + [6])[:n]))
                for pos in (-9, -8, -1, 0, 1, 4, 8, 9, 99): back(e + c, bytes(pat), pos)
    # formats: all sequences of tokens
    toks = ["u1", "2i2", ">", "<", "x", "3x", "s", "s2", "0s", "b1", "b", "0u4", "2b0", " ", "f4", "s0", "u3", "9", "q", "2s", "b3", "2 u2"]
    vals = [258, -2, 3, "é☁", "k", b"\5\6", b"", 1.5]
    for n in (1, 2) if quick else (1, 2, 3):
        for t in itertools.product(toks, repeat=n):
            fmt = "".join(t)
            ok = "99" not in fmt
            for k in range(0, 5 if n < 3 else 2): both(fmt, vals[:k]) if ok else None
            if n < 3:
                for x in ([vals[3]], [vals[5]], [vals[3], vals[4]], [vals[5], vals[6]], [vals[0], vals[3]], [vals[3], vals[0]], [vals[0], vals[5]], [vals[3], vals[5], vals[0]], vals[3:6]): both(fmt, x)
            for buf in (b"", b"A", b"\xc3\xa9Z", b"\xc3\xa9ABC\0\0", bytes(range(40, 52))):
                if ok: back(fmt, buf)
                if n == 1:
                    for pos in (1, 2, -1): back(fmt, buf, pos)
    # sizes and counts whose product or sum does not fit
    for c in "xbsui":
        for cnt in ("2147483648", "65536", "4294967289", "4294967296", "99999999999999999999", "536870912"):
            for size in ("", "1", "2", "8", "65536", "2147483648", "4294967289", "4294967295", "4294967296", "99999999999"):
                if c == "x" and size: continue
                fmt = "u1 %s%s%s" % (cnt, c, size)
                for buf in (b"\7", b"\7\7\7\7\7\7\7\7\7\7"):
                    back(fmt, buf); back(fmt, buf, 1)
                if int(cnt) * int(size or 1) >= 2**32: both(fmt, [1, b"\5\6", b"\7"]); both(fmt, [1, "ab", "c"])
        for size in ("4294967290", "4294967296", "4294967231"):
            if c != "x" and c in "ui": continue
            if c != "x": back("u1" + c + size, b"\1\2\3\4")
    both("u1 4294967288x", [7])
    for i in range(0, len(lines), 250): yield "pack %d" % i, H + "\n".join(lines[i:i + 250]) + "\n", exp[i:i + 250]

def cases_locked():
    ops = ["a.fill(1)", "a.fill(1, 0, 1)", "a.resize(1)", "a.resize(0)", "a.resize(9)", "a.push(1)", "a.pop()", "a.pop(1)", "a.insert(0, [1])", "a.insert(0, 1, [])", "a[0] = 7", "a[-1] = 7", "a[0] += 1", "a.cas(0, a[0], 9)", "a.cas(0, 77, 9)", "a.reserve(100)", "a.sort()", "a.push(1, 2)", "a.insert(0, void, [5])", "a.insert(0, gen([5]))"]
    prog = "import kos\n" + PRE + "const a = kos.version\nconst was = rep(a)\n"
    for o in ops: prog += "try { %s\n print(\"ok\") } catch const e { print(\"E\") }\nprint(rep(a) == was)\nprint(T(() => a[0:1].push(9)))\n" % o
    yield "read-only array", prog, ["E", "true", "i1"] * len(ops)

def run():
    ck = common.Check("D02")
    q = ck.quick
    cpart(ck, [("aops", 4 if q else 5), ("bops", 5 if q else 7), ("ahist", 4), ("bhist", 4 if q else 5)], False)
    if not ck.viol: cpart(ck, [("aops", 2 if q else 3), ("bops", 3), ("ahist", 3), ("bhist", 3)], True)
    if not ck.viol:
        b = batch.Batch(preload="import io\n", timeout=20)
        cs = list(cases_locked()) + list(cases_single(q)) + list(cases_make()) + list(cases_pack(q))
        for st in ([], [10, 20], [1, 2, 3, 4, 5]):
            if st == [] and q: cs += cases_hist("array", AOPS, 2, [st]); cs += cases_hist("buffer", BOPS, 2, [st]); continue
            cs += cases_hist("array", AOPS, 3, [st]); cs += cases_hist("buffer", BOPS, 3, [st])
        cases.compare(ck, b, cs, chunk=2)
        ck.sample({"program": cs[-1][1][:900]})
    ck.extra["bounds"] = "C level: all index combinations of insert/slice/fill/copy for sizes up to %s and %s, all histories of %d array operations (38 kinds) and %d buffer operations (26 kinds); script level: all histories of 3 operations, %s" % (
        "4" if q else "5", "5" if q else "7", 4, 4 if q else 5, "all pairs of format tokens" if q else "all triples of format tokens")
    ck.assumptions = ["one thread (several threads: C02, C03)", "contents of an array or buffer after an operation on it failed are not defined"]
    ck.finish()
if __name__ == "__main__": common.main(run)
