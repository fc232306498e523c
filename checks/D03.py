#!/usr/bin/env python3
"""Sorting: every array over small alphabets up to a length, every permutation, every mix of types, every throwing or
resizing key function, and every shape of call, next to insertion into an ordered list."""
import os, sys, itertools, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases, kosbuild
from kosval import REP

def ins(keys, less):
    """indices of the elements in stable ascending order"""
    out = []
    for i in range(len(keys)):
        j = len(out)
        while j and less(keys[i], keys[out[j - 1]]): j -= 1
        out.insert(j, i)
    return out

PRE = '''
const show = fun(a) { var s = ""
    for const x in a { s += string(x) }
    return s }
'''
# the keys are small values, elements are [key, position] pairs so that equal keys stay distinguishable
def cases_small(quick):
    doms = [("0, 1", 12 if quick else 14), ("0, 1, 2", 8 if quick else 10), ("0, 1, 2, 3", 7 if quick else 8), ('"a", "b", ""', 6 if quick else 7), ("1.5, -1, 0x4000000000000000", 6 if quick else 7), ("[1], [1, 0], []", 5 if quick else 6)]
    rank = {"0, 1": [0, 1], "0, 1, 2": [0, 1, 2], "0, 1, 2, 3": [0, 1, 2, 3], '"a", "b", ""': [1, 2, 0], "1.5, -1, 0x4000000000000000": [1, 0, 2], "[1], [1, 0], []": [1, 2, 0]}
    calls = [("keyed", "p.sort(x => x[0])", False), ("keyed down", "p.sort(x => x[0], true)", True), ("base", "sort(x => x[0], p)", False), ("base down", "sort(x => x[0], true, p)", True), ("curried", "p -> sort(x => x[0], false)", False), ("named", "p.sort(reverse = true, key = x => x[0])", True), ("curried down", "p -> sort(x => x[0], true)", True)]
    for d, n in doms:
        m = len(rank[d])
        for size in range(0, n + 1):
            for name, call, rev in calls if size <= n - 1 else calls[:2]:
                step = m ** max(0, size - 5)
                for part in range(step):
                    prog = PRE + '''
const D = [%s]
const n = %d
const idx = array(n, 0)
var rest = %d
for const i in range(%d) {
    idx[i] = rest %% D.size
    rest /= D.size
}
var more = true
while more {
    var i = 0
    const p = []
    for const v in idx {
        p.push([D[v], i])
        i += 1
    }
    const r = %s
    print(show(r -> map(x => x[1])))
    var k = n - 1
    while k >= %d && idx[k] == D.size - 1 {
        idx[k] = 0
        k -= 1
    }
    if k >= %d { idx[k] += 1 }
    else { more = false }
}
''' % (d, size, part, max(0, size - 5), call, max(0, size - 5), max(0, size - 5))
                    head = []; x = part
                    for _ in range(max(0, size - 5)): head.append(x % m); x //= m
                    exp = []
                    for t in itertools.product(range(m), repeat=size - len(head)):
                        ks = [rank[d][v] for v in head + list(t)]
                        o = ins(ks, lambda a, b: a < b)
                        exp.append("".join(map(str, o[::-1] if rev else o)))
                    yield "small %s size %d %s part %d" % (d, size, name, part), prog, exp
def cases_noarg(quick):
    """sorting by the elements themselves, all permutations and all sequences with repetition"""
    for n in range(0, 8 if quick else 9):
        perms = n > 5
        for first in range(n) if n > 5 else [0]:
            body = '''
const go = fun(a, used) {
    if a.size == %d {
        const p = a[:]
        const q = p.sort()
        if q != p { throw "other array" }
        print(show(p) + " " + show(sort(true, a)) + " " + show(sort(a)))
        return void
    }
    for const i in range(%d) {
        if %s {
            a.push(i)
            go(a, used | (1 << i))
            a.pop()
        }
    }
}
go(%s, %d)
''' % (n, n, "! (used & (1 << i))" if perms else "true", "[%d]" % first if perms else "[]", 1 << first if perms else 0)
            exp = []
            it = ((first,) + t for t in itertools.permutations([x for x in range(n) if x != first])) if perms else itertools.product(range(n), repeat=n)
            for t in it:
                s = "".join(map(str, sorted(t)))
                exp.append("%s %s %s" % (s, s[::-1], s))
            yield "elements %d first %d" % (n, first), PRE + body, exp
def cases_mixed(quick):
    """different types: the order must be that of the < operator"""
    vals = ["void", "false", "true", "0", "1", "1.0", "0.5", "0x7000000000000000", '""', '"a"', '"\\x{141}"', "[]", "[0]", '["a", 1]', "buffer([1])", "buffer()"]
    N = len(vals)
    n = 4 if not quick else 3
    for first in range(N):
        prog = PRE + '''
const D = [%s]
for const a in D { print(show(D -> map(b => a < b ? 1 : 0)), show(D -> map(b => b > a ? 1 : 0))) }
const n = %d
const idx = array(n, 0)
idx[0] = %d
var more = true
while more {
    const p = [(idx -> map(i => [D[i], i]))...]
    const q = idx[:]
    const a = p.sort(x => x[0])
    const b = q.sort(i => D[i], true)
    const c = sort([(idx -> map(i => D[i]))...])
    print((a -> map(x => string(x[1])) -> join(",")) + " " + (b -> map(string) -> join(",")) + " " + (c -> map(x => typeof x) -> join(",")))
    var k = n - 1
    while k > 0 && idx[k] == D.size - 1 {
        idx[k] = 0
        k -= 1
    }
    if k { idx[k] += 1 }
    else { more = false }
}
''' % (", ".join(vals), n, first)
        ty = lambda v: "void" if v == "void" else "boolean" if v in ("true", "false") else "string" if v[0] == '"' else "array" if v[0] == "[" else "buffer" if v[0] == "b" else "float" if "." in v else "integer"
        def cmp(r, first=first):
            if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
            L = r.out.split("\n")[:-1]
            if len(L) != N + N ** (n - 1): return "%d lines" % len(L)
            mat = []
            for l in L[:N]:
                a, b = l.split(" ")
                if a != b: return "< and > disagree: %s" % l
                mat.append([c == "1" for c in a])
            eq = lambda i, j: not mat[i][j] and not mat[j][i]
            for i, j, k in itertools.product(range(N), repeat=3):
                if mat[i][j] and mat[j][i] or mat[i][j] and mat[j][k] and not mat[i][k] or eq(i, j) and eq(j, k) and not eq(i, k): return "< is not an order of %s %s %s" % (vals[i], vals[j], vals[k])
            for t, l in zip(itertools.product(range(N), repeat=n - 1), L[N:]):
                ks = (first,) + t
                o = ins(ks, lambda a, b: mat[a][b])
                e = ",".join(str(ks[i]) for i in o) + " " + ",".join(str(ks[i]) for i in o[::-1]) + " " + ",".join(ty(vals[ks[i]]) for i in o)
                if l != e: return "%s: got %s expected %s" % ([vals[i] for i in ks], l, e)
        yield "mixed " + vals[first], prog, cmp, N ** (n - 1)
def cases_key(quick):
    """how often and in which order the key function is called; throwing and array-changing key functions at every call"""
    acts = ["throw 77", "a.resize(0)", "a.pop()", "a.push(99)", "a.resize(1)", "a.resize(40)", "a[0] = 50", "a.insert(0, [60, 61])", "a.resize(0) a.reserve(100)", "a.sort()", "a.resize(0) a.push(1, 2, 3, 4, 5, 6, 7, 8, 9)"]
    body, exp = [], []
    for n in range(0, 7):
        for perm in itertools.permutations(range(n)) if n <= 4 else [tuple(range(n)), tuple(reversed(range(n))), tuple((i * 2 + 1) % n for i in range(n))]:
            for rev in ("false", "true"):
                body.append("print(one([%s], %s))" % (", ".join(map(str, perm)), rev))
                s = sorted(perm, reverse=rev == "true")
                exp.append("%s %s" % ("".join(map(str, perm)) if n > 1 else "*", "".join(map(str, s))))
    prog = PRE + '''
const one = fun(a, rev) {
    var calls = ""
    const r = a.sort(fun(x, rest...) { calls += string(x)
        if rest.size { throw "more arguments" }
        return x }, rev)
    if r != a { throw "other array" }
    if a.size < 2 { calls = "*" }
    return calls + " " + show(a)
}
''' 
    for i in range(0, len(body), 60): yield "key calls %d" % i, prog + "\n".join(body[i:i + 60]) + "\n", exp[i:i + 60]
    for act in acts:
        lines, exp = [], []
        for n in range(1, 7):
            for k in range(1, n + 2):
                lines.append("print(act(%d, %d))" % (n, k))
                orig = [(i * 5 + 3) % 7 for i in range(n)]
                def e(n=n, k=k, orig=orig):
                    if n < 2: return "ok " + "".join(map(str, orig))
                    if k > n: return "ok " + "".join(map(str, sorted(orig)))
                    if act == "throw 77": return "E77 " + "".join(map(str, orig))
                    return None                     # the result is not defined, but nothing may crash
                exp.append(e())
        prog = PRE + '''
const act = fun(n, k) {
    const a = [(range(n) -> map(i => (i * 5 + 3) %% 7))...]
    var c = 0
    var r = "ok "
    try {
        a.sort(fun(x) { c += 1
            if c == k { %s }
            return x })
    }
    catch const e { r = "E" + string(e.value) + " " }
    const junk = [(range(50) -> map(i => [i]))...]
    junk.sort(x => -x[0])
    return r + (a -> map(x => typeof x == "integer" ? string(x) : typeof x) -> join(""))
}
''' % act.replace(") a.", ")\n a.")
        def cmp(r, exp=exp):
            if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
            L = r.out.split("\n")[:-1]
            if len(L) != len(exp): return "%d lines" % len(L)
            for i, (l, e) in enumerate(zip(L, exp)):
                if e is not None and l != e: return "line %d: got %s expected %s" % (i, l, e)
        yield "key function does %s" % act, prog + "\n".join(lines) + "\n", cmp, len(lines)
def cases_forms(quick):
    its = [("[3, 1, 2]", "123"), ('"cab"', "abc"), ("buffer([3, 1, 2])", "123"), ("range(4, 0, -1)", "1234"), ("gen()", "458"), ("[]", ""), ("{b: 1, a: 2}", "a,2;b,1"), ("[2, 2, 1, 1]", "1122"), ("nan", None)]
    body, exp = [], []
    for it, s in its:
        if s is None: continue
        form = "f" if not it.startswith("{") else "fo"
        rv = ";".join(s.split(";")[::-1]) if form == "fo" else s[::-1]
        for c, rev in (("sort(%s)", 0), ("sort(void, %s)", 0), ("sort(false, %s)", 0), ("sort(true, %s)", 1), ("sort(void, true, %s)", 1), ("sort(x => x, %s)", 0), ("sort(x => x, true, %s)", 1), ("sort()(%s)", 0), ("sort(true)(%s)", 1), ("sort(void, true)(%s)", 1), ("sort(x => x)(%s)", 0), ("(%s) -> sort()", 0), ("(%s) -> sort(void, false)", 0), ("(%s) -> sort(x => x, true)", 1)):
            if c == "sort(%s)" and it[0] in "rg": continue         # a function as only argument is the key
            body.append("print(%s(%s))" % (form, c % it)); exp.append(rv if rev else s)
    for c in ("[1, 2].sort(1)", '[2, 1].sort("x")', "[2, 1].sort(void, 1)", "[2, 1].sort(void, void)", "[1, true].sort(integer, 0)", "array.prototype.sort.apply({}, [])", 'array.prototype.sort.apply("ba", [])', "array.prototype.sort.apply(void, [])", "[1, 2].sort(x => x.a.b)", "kos.version.sort()", "kos.version.sort(x => -x, true)"):
        body.append("print(T(() => %s))" % c); exp.append("E")
    for c in ("[0.0 / 1, 1].sort(x => infinity - infinity).size", "[3, 1, 2].sort(x => infinity - infinity).size", "[(sort([3, nan, 1, nan, 2]) -> filter(x => x == x))...].size"):
        body.append("print(T(() => %s))" % c); exp.append({"[0": "2", "[3": "3", "[(": "3"}[c[:2]])
    yield "forms", "import kos\nimport math.infinity\nimport math.nan\n" + PRE + '''
const gen = fun { yield 5
    yield 8
    yield 4 }
const f = fun(a) { return a -> map(x => string(x)) -> join("") }
const fo = fun(a) { return a -> map(x => string(x[0]) + "," + string(x[1])) -> join(";") }
const T = fun(f) { try { return f() } catch const e { return "E" } }
''' + "\n".join(body) + "\n", exp

def big(ck, quick):
    """long arrays of the shapes that are worst for a recursive sort, with a small C stack"""
    exe = kosbuild.build("interp", [os.path.join(kosbuild.REPO, "interpreter", "kos.c")], flags=["-O2"], hflags=["-O2"])
    n = 12000 if quick else 30000
    src = '''
import base.range
import base.print
const n = %d
const shapes = [
    i => i, i => -i, i => 7, i => i %% 2, i => (i < n / 2) ? i : n - i, i => (i < n / 2) ? n - i : i, i => (i * 7919) %% n, i => i / 64, i => (i & 1) ? i : -i
]
public const main = fun(args...) {
    const f = shapes[base.integer(args[1])]
    const a = []
    for const i in range(n) { a.push([f(i), i]) }
    a.sort(x => x[0], args[2] == "1")
    const ok = fun(x, y) { return x[0] < y[0] || (x[0] == y[0] && x[1] < y[1]) }
    for const i in range(n - 1) {
        if ! (args[2] == "1" ? ok(a[i + 1], a[i]) : ok(a[i], a[i + 1])) { print("bad order at", i)
            return void }
    }
    print("sorted", a.size)
}
''' % n
    d = os.path.join(common.VERIF, "build"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "sortbig.kos"); open(p, "w").write("import base\n" + src)
    from concurrent.futures import ThreadPoolExecutor
    def one(j):
        # 900 KB of C stack: far more than any bounded recursion needs
        return j, subprocess.run(["bash", "-c", "ulimit -s 900; exec \"$0\" \"$@\"", exe, p, str(j[0]), str(j[1])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(60, ck.left()), env=dict(os.environ, KOSPATH=os.path.join(kosbuild.REPO, "modules")))
    with ThreadPoolExecutor(common.NCPU) as ex:
        for j, r in ex.map(one, [(i, v) for i in range(9) for v in (0, 1)]):
            ck.traces += 1; ck.transitions += n; ck.states += 1
            if r.stdout.strip() != "sorted %d" % n: ck.violation("long array shape %d reverse %d" % j, "ended with %d: %s %s" % (r.returncode, r.stdout[-200:], r.stderr[-300:]), {"program": src, "args": list(j)})

def run():
    ck = common.Check("D03"); q = ck.quick
    b = batch.Batch(timeout=20)
    cs = list(cases_small(q)) + list(cases_noarg(q)) + list(cases_mixed(q)) + list(cases_forms(q))
    cases.compare(ck, b, cs, chunk=8)
    if not ck.viol: cases.compare(ck, batch.Batch(san=True, timeout=30), list(cases_key(q)), chunk=2)
    if not ck.viol: big(ck, q)
    ck.sample({"program": cs[len(cs) // 2][1][:700], "expected": cs[len(cs) // 2][2][:5]})
    ck.extra["bounds"] = "all arrays up to length %s over 2, 3, 4 keys and over strings, mixed numbers and arrays as keys; all permutations up to length %d; all triples of 16 values of all types; all failure points of the key function" % ("12, 8, 7" if q else "14, 10, 8", 7 if q else 8)
    ck.assumptions = ["keys that do not compare (NaN, whole numbers above 2^53 against fractions) give no order, only a permutation", "contents after the key function changed the array are not defined"]
    ck.finish()
if __name__ == "__main__": common.main(run)
