#!/usr/bin/env python3
"""Iteration utilities: every pipeline of stages up to a depth, over every kind of source and with every way to consume it, next to
lazily evaluated Python generators. Each run logs when an element leaves the source and when a callback is called, so order,
laziness and number of calls are compared as well as the values."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases
from kosval import REP, rep, src, wrap

PRE = "import iter\n" + REP + '''
var log = ""
const key = fun(x) {
    switch typeof x {
        case "integer" { return x }
        case "string" { return x.size ? x.code() : 0 }
        case "array" { var s = x.size
            for const e in x { s += key(e) }
            return s }
        default { return 1 }
    }
}
const source = fun(n, bad) {
    const g = fun(n, bad) {
        for const i in range(n) {
            if i == bad { throw "bad" }
            log += "<" + string(i)
            yield i + 1
        }
        log += "<."
    }
    return g(n, bad)
}
var left = 1000
const call = fun(n, x) {
    log += n + rep(x)
    left -= 1
    if left == 0 { throw "call" }
}
const m = fun(x) { call("m", x)
    return [x] }
const odd = fun(x) { call("f", x)
    return key(x) & 1 }
const big = fun(x) { call("g", x)
    return key(x) > 2 }
const red = fun(a, x) { call("r", x)
    return a * 3 + key(x) }
const W = fun(f, limit) {
    log = ""
    left = limit
    var r = ""
    try { r = rep(f()) } catch const e { r = "E" }
    print(log + "=" + r)
}
'''
class Thrown(Exception): pass
LOG = []
LEFT = [0]
def key(x):
    if isinstance(x, bool) or x is None: return 1
    if isinstance(x, int): return x
    if isinstance(x, str): return ord(x[0]) if x else 0
    if isinstance(x, list): return len(x) + sum(map(key, x))
    return 1
def source(n, bad):
    for i in range(n):
        if i == bad: raise Thrown
        LOG.append("<%d" % i)
        yield i + 1
    LOG.append("<.")
def call(n, x):
    LOG.append(n + rep(x)); LEFT[0] -= 1
    if LEFT[0] == 0: raise Thrown
def m(x): call("m", x); return [x]
def odd(x): call("f", x); return key(x) & 1
def big(x): call("g", x); return key(x) > 2
def red(a, x): call("r", x); return wrap(a * 3 + key(x))
def it(v):
    if isinstance(v, (list, str, bytes)): return iter(v)
    if isinstance(v, (int, bool)) or v is None: return iter([v])
    return v
def isgen(v): return not isinstance(v, (list, str, bytes, int, bool)) and v is not None
# ---- model of the stages
def s_map(f, v):
    for x in it(v): yield f(x)
def s_filter(f, v):
    for x in it(v):
        if f(x): yield x
def s_enum(v):
    i = 0
    for x in it(v): yield [i, x]; i += 1
def s_zip(vs):
    its = [it(v) for v in vs]
    while True:
        o = []
        for i in its:
            try: o.append(next(i))
            except StopIteration: return
        yield o
def s_slice(v, a, b):
    if not isgen(v): return nonum(v)[slice(a, b)]
    a = a or 0
    if a < 0 or (b is not None and b < 0): return list(v)[slice(a, b)]
    def g(v, a, b):
        i = 0
        while i < a:
            try: next(v)
            except StopIteration: break
            i += 1
        while b is None or i < b:
            try: x = next(v)
            except StopIteration: return
            yield x
            i += 1
    return g(v, a, b)
def s_repeat(n, v):
    if n <= 0: return
    v = v if isinstance(v, (list, str, bytes)) else list(it(v))
    for _ in range(n):
        for x in v: yield x
def s_reverse(v):
    v = v if isinstance(v, (list, str, bytes)) else list(it(v))
    for i in range(len(v) - 1, -1, -1): yield v[i]
def s_indices(v):
    if isinstance(v, (list, str, bytes)):
        for i in range(len(v)): yield i
    else:
        for i, _ in enumerate(it(v)): yield i
class Cache:
    def __init__(s, v): s.v = v; s.c = []; s.init = False
    def __call__(s):
        if not isgen(s.v): return it(s.v)
        if s.init: return iter(s.c)
        def g():
            s.init = True
            for x in s.v: s.c.append(x); yield x
        return g()
def s_product(vs):
    if not vs: return iter([])
    if len(vs) == 1: return it(vs[0])
    gens = [Cache(v) for v in vs]; dim = len(vs)
    def p(g):
        if len(g) == 1:
            for x in g[0](): yield [x] + [None] * (dim - 1)
            return
        for x in g[-1]():
            for o in p(g[:-1]): o[len(g) - 1] = x; yield o
    return p(gens)
def s_cycle(v):
    c = Cache(v)
    while True:
        for x in c(): yield x
STAGES = [
 ("%s -> map(m)", lambda v: s_map(m, v)), ("map(m)(%s)", lambda v: s_map(m, v)), ("(%s).map(m)", lambda v: s_map(m, v)),
 ("%s -> filter(odd)", lambda v: s_filter(odd, v)), ("filter(big, %s)", lambda v: s_filter(big, v)), ("(%s).filter(odd)", lambda v: s_filter(odd, v)),
 ("%s -> enumerate", s_enum), ("zip(%s, [7, 8, 9])", lambda v: s_zip([v, [7, 8, 9]])), ('zip("xy", %s)', lambda v: s_zip(["xy", v])), ("zip(%s)", lambda v: v), ("zip(source(2, -1), %s, source(5, -1))", lambda v: s_zip([source(2, -1), v, source(5, -1)])),
 ("(%s)[1:3]", lambda v: s_slice(v, 1, 3)), ("(%s)[:2]", lambda v: s_slice(v, None, 2)), ("(%s)[2:]", lambda v: s_slice(v, 2, None)), ("(%s)[-2:]", lambda v: s_slice(v, -2, None)), ("(%s)[1:-1]", lambda v: s_slice(v, 1, -1)), ("(%s)[0:0]", lambda v: s_slice(v, 0, 0)), ("(%s)[3:2]", lambda v: s_slice(v, 3, 2)),
 ("%s -> iter.repeats(2)", lambda v: s_repeat(2, v)), ("iter.repeats(0, %s)", lambda v: s_repeat(0, v)), ("iter.repeats(1)(%s)", lambda v: s_repeat(1, v)),
 ("%s -> iter.reverse", s_reverse), ("indices(%s)", s_indices), ("iter.generator(%s)()", lambda v: Cache(v)()),
 ('iter.product(%s, "ab")', lambda v: s_product([v, "ab"])), ('iter.product("ab", %s)', lambda v: s_product(["ab", v])), ("iter.product(%s, source(2, -1), [3])", lambda v: s_product([v, source(2, -1), [3]])), ("iter.product(%s)", lambda v: s_product([v])),
 ("(%s).iterator()", it),
]
class Bad(Exception): pass
def nonum(v):
    if isinstance(v, (int, bool)): raise Bad               # numbers cannot be expanded, array(number) is something else
    return v
def nxt(g):
    try: return next(g)
    except StopIteration: raise Thrown
def t_first(v):
    if isinstance(v, (list, str, bytes)):
        if len(v): return v[0]
        raise Thrown
    return nxt(it(v))
def t_last(v):
    l = list(it(v))
    if not l: raise Thrown
    return l[-1]
def t_all(f, v):
    for x in it(v):
        if not f(x): return False
    return True
def t_any(f, v):
    for x in it(v):
        if f(x): return True
    return False
def t_red(v):
    a = 1
    for x in it(v): a = red(a, x)
    return a
def t_each(v):
    n = 0
    for x in it(v): m(x); n += 1
    return n
def t_brk(k, v):
    o = []
    for x in it(v):
        o.append(x)
        if len(o) == k: break
    return o
def t_two(v):
    g = it(v)
    a = t_brk(2, g)
    return [a, list(g)]
def t_over(v):
    g = it(v)
    l = list(g)
    try: next(g); raise AssertionError
    except StopIteration: return [l, "ended"]
def t_none(v): return 5
TERMS = [
 ("[(%s)...]", lambda v: list(it(nonum(v)))), ("array(%s)", lambda v: list(it(nonum(v))) if not isinstance(v, str) else [ord(c) for c in v]), ("first(%s)", t_first), ("last(%s)", t_last), ("%s -> count(odd)", lambda v: sum(1 for x in it(v) if odd(x))), ("count(1, %s)", lambda v: sum(1 for x in it(v) if type(x) is int and x == 1)),
 ("all(big, %s)", lambda v: t_all(big, v)), ("%s -> all(odd)", lambda v: t_all(odd, v)), ("all(1, %s)", lambda v: t_all(lambda x: type(x) is int and x == 1, v)), ("any(big, %s)", lambda v: t_any(big, v)), ("%s -> any(1)", lambda v: t_any(lambda x: type(x) is int and x == 1, v)), ("(%s).all(big)", lambda v: t_all(big, v)), ("(%s).any(odd)", lambda v: t_any(odd, v)), ("(%s).count(odd)", lambda v: sum(1 for x in it(v) if odd(x))), ("(%s).count()", lambda v: sum(1 for x in it(v))),
 ("%s -> reduce(red, 1)", t_red), ("reduce(red, 1, %s)", t_red), ("(%s).reduce(red, 1)", t_red), ("%s -> count_elements", lambda v: sum(1 for x in it(v))), ("%s -> each(m)", t_each), ("each(m, %s)", t_each), ("%s -> each()", lambda v: sum(1 for x in it(v))),
 ("%s -> map(key) -> sum", lambda v: sum(map(key, it(v)))), ("sum(%s -> map(key), 5)", lambda v: 5 + sum(map(key, it(v)))), ('%s -> map(x => string(key(x))) -> join("-")', lambda v: "-".join(str(key(x)) for x in it(v))), ('join("", %s -> map(x => rep(x)))', lambda v: "".join(rep(x) for x in it(v))),
 ("brk(1, %s)", lambda v: t_brk(1, v)), ("brk(2, %s)", lambda v: t_brk(2, v)), ("two(%s)", t_two), ("over(%s)", t_over), ("none(%s)", t_none),
]
TPRE = '''
const brk = fun(k, v) { const o = []
    for const x in v { o.push(x)
        if o.size == k { break } }
    return o }
const two = fun(v) { const g = v.iterator()
    const a = brk(2, g)
    return [a, [g...]] }
const over = fun(v) { const g = v.iterator()
    const l = [g...]
    try { g() } catch const e { return [l, "ended"] }
    return "not ended" }
const none = fun(v) { return 5 }
'''
SOURCES = [("source(%d, -1)" % n, lambda n=n: source(n, -1)) for n in range(0, 5)] + [("source(4, %d)" % b, lambda b=b: source(4, b)) for b in (0, 1, 2, 3)] + \
          [("[]", lambda: []), ("[5, 1, 2, 4]", lambda: [5, 1, 2, 4]), ("[[1], 2]", lambda: [[1], 2]), ('"abc"', lambda: "abc"), ('""', lambda: ""), ("buffer([4, 1])", lambda: bytes([4, 1])), ("3", lambda: 3), ("true", lambda: True), ("range(3)", lambda: iter(range(3)))]
def evaluate(srcf, stages, term, limit):
    del LOG[:]; LEFT[0] = limit
    try:
        v = srcf()
        for s in stages: v = s[1](v)
        r = rep(term[1](v))
    except Thrown: r = "E"
    return "".join(LOG) + "=" + r
def pipes(depth, sources, stages, terms, limits):
    for s in sources:
        for st in itertools.product(stages, repeat=depth):
            for t in terms:
                e = s[0]
                for x in st: e = x[0] % e
                for l in limits:
                    yield s, st, t, t[0] % e, l
def cases_pipes(name, gen, group=400):
    cur, exp, n = [], [], 0
    for s, st, t, e, l in gen:
        try: v = evaluate(s[1], st, t, l)
        except Bad: continue
        cur.append("W(() => %s, %d)" % (e, l)); exp.append(v)
        if len(cur) == group:
            yield "%s %d" % (name, n), PRE + TPRE + "\n".join(cur) + "\n", exp
            cur, exp, n = [], [], n + 1
    if cur: yield "%s %d" % (name, n), PRE + TPRE + "\n".join(cur) + "\n", exp

# ---------------------------------------------------------------- ranges and products with all bounds
def rng(a, b, s):
    o = []; x = a
    if s > 0:
        while x < b and len(o) < 40: o.append(x); x += s
    elif s < 0:
        while x > b and len(o) < 40: o.append(x); x += s
    return o
def cases_ranges(quick):
    N = range(-4, 5) if quick else range(-8, 9)
    M, L = 2**63 - 1, -2**63
    lines, exp = [], []
    def add(e, v): lines.append("print(rep([(%s)[0:40]...]))" % e); exp.append(rep(v[:40]))
    for a in N:
        add("range(%d)" % a, rng(0, a, 1))
        for b in N:
            add("range(%d, %d)" % (a, b), rng(a, b, 1))
            for s in N: add("range(%d, %d, %d)" % (a, b, s), rng(a, b, s))
    F = [-1.5, -0.25, 0.0, 0.5, 1.0, 2.75]
    for a in F + [1]:
        for b in F + [2]:
            for s in F + [1, -1]: add("range(%s, %s, %s)" % (src(a), src(b), src(s)), rng(a, b, s))
    E = [M, M - 1, M - 5, L, L + 1, L + 6, 0]
    for a in E:
        for b in E:
            for s in [1, 2, 3, 7, M, -1, -2, -5, L]: add("range(%s, %s, %s)" % (src(a), src(b), src(s)), rng(a, b, s))
    for i in range(-3, 5):
        add("iter.iota(%d)" % i, list(range(i, i + 40)))
    for a in E: add("iter.iota(%s)" % src(a), list(range(a, min(a + 40, M + 1))))
    add("iter.iota()", list(range(40)))
    add("iter.empty()", [])
    for dims in range(0, 5):
        for t in itertools.product(range(-1, 4 if dims < 4 else 3), repeat=dims):
            if dims == 1: v = list(range(max(0, t[0])))
            elif dims == 0 or min(t) <= 0: v = []
            else: v = [list(x[::-1]) for x in itertools.product(*[range(k) for k in t[::-1]])]
            lines.append("print(rep([iter.iproduct(%s)...]))" % ", ".join(map(str, t))); exp.append(rep(v))
            if dims: lines.append("print(rep([iter.product(%s)...]))" % ", ".join("range(%d)" % k for k in t)); exp.append(rep(v))
    its = ["[1, 2]", '"ab"', "source(2, -1)", "[]", "source(0, -1)", "buffer([9])", "7"]
    vals = {"[1, 2]": [1, 2], '"ab"': "ab", "[]": [], "buffer([9])": b"\x09", "7": 7}
    for dims in (1, 2, 3):
        for t in itertools.product(its, repeat=dims):
            vs = [source(int(x[7]), -1) if x[0] == "s" else vals[x] for x in t]
            lines.append("print(rep([iter.product(%s)...]))" % ", ".join(t)); exp.append(rep(list(s_product(vs))))
            vs = [source(int(x[7]), -1) if x[0] == "s" else vals[x] for x in t]
            if dims > 1: lines.append("print(rep([zip(%s)...]))" % ", ".join(t)); exp.append(rep(list(s_zip(vs))))
    for n in range(-2, 5):
        for x in its:
            v = source(int(x[7]), -1) if x[0] == "s" else vals[x]
            lines.append("print(rep([iter.repeats(%d, %s)...]))" % (n, x)); exp.append(rep(list(s_repeat(n, v))))
    for x in its:
        if x in ("[]", "source(0, -1)"): continue
        for k in range(0, 9):
            v = source(int(x[7]), -1) if x[0] == "s" else vals[x]
            lines.append("print(rep([iter.cycle(%s)[0:%d]...]))" % (x, k)); exp.append(rep(list(itertools.islice(s_cycle(v), k))))
    # slices of generators with all bounds
    B = [None] + list(range(-6, 7))
    for n in range(0, 6):
        for a in B:
            for b in B:
                S = lambda x: "" if x is None else str(x)
                lines.append("W(() => [source(%d, -1)[%s:%s]...], 0)" % (n, S(a), S(b)))
                del LOG[:]
                v = s_slice(source(n, -1), a, b); r = list(v)
                exp.append("".join(LOG) + "=" + rep(r))
    # arguments handed to the generator when it is resumed are its own business, next() starts nothing
    for sep in ('""', '","', '"--"'):
        for l in ([], ["a"], ["a", ""], ["", "", ""], [1, "b", 2.5], ["é", "☁", "z"]):
            s = sep[1:-1].join(str(x) for x in l)
            lines.append("print(rep(join(%s, %s)), rep(%s -> join(%s)))" % (sep, src(l), src(l), sep)); exp.append(rep(s) + " " + rep(s))
    for i in range(0, len(lines), 200): yield "bounds %d" % i, PRE + "\n".join(lines[i:i + 200]) + "\n", exp[i:i + 200]
    # objects: any order, every own visible property once
    yield "objects", PRE + '''
const o = { a: 1, b: 2, c: 3 }
print(rep(sort(o -> map(x => x[0] + string(x[1])), void)) == "x")
'''.replace("print(rep(sort(o -> map(x => x[0] + string(x[1])), void)) == \"x\")", '''
print([(o -> map(x => x[0] + string(x[1])))...].sort() -> join(","))
print(count_elements(o))
print(o.map(x => x[1]) -> sum)
print(first(o)[0] in o, last(o)[0] in o)
print([(enumerate(o) -> map(x => x[0]))...] -> join(","))
print([indices(o)...] -> join(","))
print([(zip(o, "xyz") -> map(x => x[1]))...] -> join(","))
print([(iter.repeats(2, o) -> map(x => x[1]))...] -> sum)
print([(iter.reverse(o) -> map(x => x[1]))...] -> sum)
for const f in [() => first({}), () => last({}), () => first(void), () => last(void), () => map(5), () => filter("x"), () => reduce(void, 1), () => join(5, [])] { W(f, 0) }
'''), ["a1,b2,c3", "3", "6", "true true", "0,1,2", "0,1,2", "x,y,z", "12", "6"] + ["=E"] * 8

def run():
    ck = common.Check("M05"); q = ck.quick
    b = batch.Batch(timeout=30)
    few = [x for x in SOURCES if x[0] in ("source(3, -1)", "source(4, 2)", "[5, 1, 2, 4]")]
    T = {t[0]: t for t in TERMS}
    tfew = [T[k] for k in ("[(%s)...]", "first(%s)", "two(%s)", "%s -> any(1)", "(%s).all(big)")]
    fams = [("bounds", cases_ranges(q)), ("depth 0", cases_pipes("depth 0", pipes(0, SOURCES, STAGES, TERMS, (0, 1, 2, 3, 4, 5)))), ("depth 1", cases_pipes("depth 1", pipes(1, SOURCES, STAGES, TERMS, (0, 1, 2, 3)))),
            ("depth 2", cases_pipes("depth 2", pipes(2, SOURCES, STAGES, TERMS, (0,) if q else (0, 1, 2, 3)))),
            ("depth 3", cases_pipes("depth 3", pipes(3, few if q else few + SOURCES[:2] + SOURCES[-4:], STAGES, tfew[:3] if q else tfew + TERMS[6:8], (0,))))]
    if not q: fams.append(("depth 4", cases_pipes("depth 4", pipes(4, few[:2], STAGES, tfew[:2], (0,)))))
    bounds = []
    for name, g in fams:
        n = 0
        while not ck.viol:
            part = list(itertools.islice(g, 256))
            if not part: break
            if ck.left() < 0: ck.exhaustive = False; break
            n += sum(len(c[2]) for c in part)
            cases.compare(ck, b, part, chunk=4)
            ck.sample({"family": name, "program": part[0][1][-300:], "expected": part[0][2][-2:]}, 8)
        bounds.append("%s: %d pipelines" % (name, n))
    ck.extra["bounds"] = "; ".join(bounds)
    ck.assumptions = ["order of an object's properties is not defined", "a cached generator abandoned half way is not started again", "zip and product of a single iterable give its elements themselves"]
    ck.finish()
if __name__ == "__main__": common.main(run)
