"""Programs for the collection and failure engines: every built-in function with all argument tuples of a palette of freshly built
values, and hand-written programs for every language construct. Everything they use is created at run time, so that it can move."""
import itertools

# evaluated once, before the fork; programs import from it
PRELOAD = r'''
import io
import math
import json
import re
import datetime
import random
import threads
import iter
import kos
var cnt = 0
public const n = fun { cnt += 1
    return cnt }
public const S = (i) => "ab" + string(i)
public const W = (i) => "\x{2601}" + string(i)
public const X = (i) => "\x{1F600}" + string(i)
public const L = (i) => string(range(100) -> map(x => string(i)))
public const A = (i) => [S(i), i, [W(i)], void, 1.5 + i]
public const O = fun(i) { const o = { a: S(i), b: { c: W(i) } }
    o["k" + string(i)] = i
    return o }
public const B = (i) => buffer([i, 66, 67, 0xE2, 0x98, 0x81])
public const F = fun(i) { const z = S(i)
    return fun(x = S(9), y = [z]) { return [z, x, y] } }
public const G = fun(i) { const g = fun(y) { yield S(y)
    yield [W(y)]
    yield y }
    return g(i) }
public class C {
    constructor(v = 1) { this.v = S(v) }
    fun m(x) { return [this.v, x] }
}
public const I = (i) => 100000000000000000 + i
public const D = (i) => 0.25 + i
public const E = fun(i) { try { throw O(i) } catch const e { return e } }
public const show = fun(x) {
    try { return stringify(x) } catch const e { return "?" + stringify(e.value) }
}
public const list = fun(x) {
    const r = []
    for const e in x { r.push(e)
        if r.size > 8 { break } }
    return r
}
public const T = fun(f) {
    try {
        const r = f()
        print(typeof r, show(r))
        if typeof r == "function" { print(show(list(r))) }
        if typeof r == "object" { for const k, v in shallow(r) { print(k, show(v)) } }
    }
    catch const e { print("E", show(e.value), e.backtrace.size) }
}
'''
IMPORT = "import preload.*\n"
PAL = ["S(1)", "W(2)", "A(3)", "O(4)", "B(5)", "F(6)", "G(7)", "I(8)", "2", "D(1)", "void", "C(3)"]
SMALL = ["S(1)", "W(2)", "A(3)", "O(4)", "B(5)", "F(6)", "G(7)", "2"]
BASE = """all any array boolean buffer count count_elements deep each enumerate exception filter first float function generator hex indices integer
join last map method number object range reduce shallow sort string stringify sum zip print thread""".split()
METH = {
  "S(1)": "code ends_with find get iterator ljust lowercase lstrip repeats reverse rfind rjust rscan rstrip scan slice split split_lines starts_with strip uppercase zfill".split(),
  "W(1)": "find rfind split slice repeats zfill scan lowercase uppercase".split(),
  "A(1)": "cas fill get insert insert_array iterator pop push reserve resize slice sort map filter reduce any all count".split(),
  "B(1)": "copy_buffer fill get insert iterator pack reserve resize slice unpack".split(),
  "O(1)": "all any count filter get iterator map reduce".split(),
  "F(1)": "apply iterator map".split(),
  "G(1)": "apply iterator next slice map filter reduce".split(),
  "I(1)": "hex".split(),
  "C(1)": "m get iterator map".split(),
}
OTHER = {"iter": "cycle empty generator iota iproduct product repeats reverse".split(), "json": "dump parse parse_array".split(), "math": "abs floor max min pow sqrt is_nan".split(),
         "re": ["re", "re_uncached"], "datetime": ["datetime"], "kos": ["execute", "raw_lexer", "lexer"], "random": ["random"]}
PROPS = {"S(1)": ["size", "ascii"], "A(1)": ["size"], "B(1)": ["size"], "F(1)": ["name", "line", "module", "instructions", "size", "registers", "prototype"], "G(1)": ["state", "name"], "E(1)": ["value", "backtrace", "print"],
         "C": ["prototype", "name"]}

def calls(two=True, big=False):
    pal1 = PAL
    for f in BASE:
        yield f + "()"
        for a in pal1: yield "%s(%s)" % (f, a)
        if two:
            for a, b in itertools.product(SMALL, repeat=2): yield "%s(%s, %s)" % (f, a, b)
    for o, ms in METH.items():
        for m in ms:
            yield "%s.%s()" % (o, m)
            for a in pal1: yield "%s.%s(%s)" % (o, m, a)
            if two:
                for a, b in itertools.product(SMALL, repeat=2): yield "%s.%s(%s, %s)" % (o, m, a, b)
    for mod, fs in OTHER.items():
        for f in fs:
            yield "%s.%s()" % (mod, f)
            for a in pal1: yield "%s.%s(%s)" % (mod, f, a)
            if two:
                for a, b in itertools.product(SMALL, repeat=2):
                    yield "%s.%s(%s, %s)" % (mod, f, a, b)
    for o, ps in PROPS.items():
        for p in ps: yield "%s.%s" % (o, p)
MODS = "".join("import %s\n" % m for m in ("iter", "json", "math", "re", "datetime", "kos", "random"))
BADTEXT = ("thread(", "iter.cycle(", "iter.generator(")
def _skip(e):
    # endless or unspecified: random without a seed, infinite generators collected whole, thread constructor ids
    return e in ("random.random()", "datetime.datetime()", "iter.iota()") or ("count(" in e and False)
def call_programs(group=1, two=True):
    cur = []
    for e in calls(two):
        if _skip(e): continue
        cur.append("T(() => %s)\n" % e)
        if len(cur) == group:
            yield "call " + cur[0][8:-2], IMPORT + MODS + "".join(cur); cur = []
    if cur: yield "call", IMPORT + MODS + "".join(cur)

HAND = r'''
#closures
const mk = fun(a) { var b = S(a)
    return [fun { return b }, fun(x) { b = b + string(x) }, fun { const c = W(a)
        return fun { return [b, c] } }] }
const q = mk(1)
q[1](S(2))
print(q[0](), show(q[2]()()))
#loop closures
const fs = []
for const i in range(4) { const s = S(i)
    fs.push(() => s + string(i)) }
for const f in fs { print(f()) }
#generators
const g = fun(a) { for const i in range(3) { const x = yield [S(a + i)]
    print("got", show(x)) } }
const h = g(5)
print(show(h()), show(h(W(1))), show(h(O(2))))
try { h()
 h() } catch const e { print("end") }
#generator in class
class K {
    constructor { this.x = A(1) }
    fun each { for const e in this.x { yield [e, S(1)] } }
}
for const e in K().each() { print(show(e)) }
#nested generators
const w = fun(n) { if n > 0 { yield S(n)
    for const x in w(n - 1) { yield "<" + x } } }
for const x in w(4) { print(x) }
#exceptions
const t = fun(n) { if n == 0 { throw O(1) }
    const keep = S(n)
    try { t(n - 1) } catch const e { throw [keep, e.value] } }
try { t(3) } catch const e { print(show(e.value), e.backtrace.size) }
#finally and defer
const d = fun(x) { defer { print("d", S(x)) }
    with { a: S(x), release: fun { print("rel", this.a) }, acquire: fun { print("acq", this.a) } } {
        if x == 2 { throw W(x) }
        return [S(x)] } }
print(show(d(1)))
try { d(2) } catch const e { print(e.value) }
#default arguments
const f = fun(a, b = S(1), c = [S(2)], rest...) { return [a, b, c, rest] }
print(show(f(S(3))), show(f(S(3), S(4), S(5), S(6), A(7))))
print(show(f(a = S(1), c = W(2))))
#spread
const f = fun(args...) { return args }
print(show(f(A(1)..., S(2), list(G(3))...)))
const x, y = A(4)
print(show([A(1)..., x, y, S(2)...]))
#many arguments
const f = fun(a1, a2, a3, a4, a5, a6, a7, a8, a9, b1, b2, b3, b4, b5, b6, b7, b8, b9, c1, c2, c3, c4, c5, c6, c7, c8, c9, d1, d2, d3, d4, d5, d6, d7, d8, d9) { return [a1, d9, b5, d4] }
print(show(f(S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8), S(9), S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8), S(9), S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8), S(9), S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8), S(9))))
#string building
var s = ""
for const i in range(40) { s += string(i) + "\x{2601}" }
print(s, "\(s.size) \(S(1)) \(A(2)[0])", s.slice(10, 20) + s.slice(-5, void))
#long strings
const s = L(1) + L(2) + W(3)
print(s.size, s.slice(50, 150) + S(1), s.find("2"), (s.repeats(3)).size, s.split("1").size)
#interpolation
const o = O(3)
print("a\(o.a)b\(o.b.c)c\([S(1), W(2)])d\(G(3))")
#objects
const o = { }
for const i in range(20) { o[S(i)] = W(i) }
for const i in range(10) { delete o[S(i * 2)] }
for const i in range(5) { o["n" + string(i)] = [i] }
const k = [shallow(o)...] -> map(x => x[0] + show(x[1])) -> sort(x => x)
print(show(list(k)))
#accessors
class P {
    constructor { this.q = S(1) }
}
const o = object(P())
print(o.q)
o.q = W(2)
print(o.q, "q" in o)
#class chain
class Ba {
    constructor(x) { this.x = [x]
        this.z = S(7) }
    fun get2 { return [this.x, this.z] }
    fun over { return "base" + this.z }
}
class De extends Ba {
    constructor(x, y) { super(S(x))
        this.y = y }
    fun over { return [super.over(), this.y] }
}
const o = De(1, A(2))
print(show(o.get2()), show(o.over()), o instanceof Ba)
#prototype walk
const f = fun { this.a = S(1) }
const C2 = class { constructor { this.a = A(1) } }
C2.prototype.zz = A(3)
const o = C2()
print(show(o.zz), show([deep(o)...].size > 0))
#arrays
const a = []
for const i in range(70) { a.push([S(i)]) }
while a.size > 3 { a.pop() }
a.insert(1, 2, A(1))
a.insert_array(0, 1, [W(1), W(2)])
a.resize(20, S(3))
a.fill(O(1), 5, 7)
print(show(a), show(a.slice(2, 6)))
#sort objects
const a = range(25) -> map(i => { k: (i * 7) % 5, v: S(i) }) -> array
a.sort(x => x.k)
print(show(a -> map(x => x.v) -> join(",")))
a.sort(x => "s\(x.v)", true)
print(show(a -> map(x => x.v) -> join(",")))
#sort throws
const a = range(25) -> map(i => S(i)) -> array
try { a.sort(fun(x) { if x == "ab17" { throw W(1) }
    return S(x) }) } catch const e { print(e.value) }
print(a.size)
#buffers
const b = buffer()
b.pack("<u2i4f8", 1, -2, 2.5)
b.pack("<s5", S(1))
b.fill(0x41, 3, 5)
print(show(b.unpack("<u2i4f8")), show(string(B(65))), b.size, show(b.slice(0, 4)))
const c = buffer(3000)
c.copy_buffer(10, b)
c.insert(5, 6, b)
c.resize(20)
print(show(c))
#iterators
print(show(list(zip(A(1), G(2), S(3)))), show(list(enumerate(G(1)))), show(list(S(1) -> map(x => [x]) -> filter(x => true))))
print(show(list(iter.product(A(1), S(2)))), show(list(iter.iproduct([[S(1)], G(2)]))), show(list(iter.cycle(G(1)))), show(list(iter.reverse(A(1)))))
print(reduce((a, b) => a + b, "", [S(1), W(2)]), show(first(G(1))), show(last(G(1))), show(count(x => true, G(1))))
#json
const o = json.parse("{\"a\":[1,2.5,\"\\u2601x\",null,true,{\"b\":[]}],\"c\":\"" + S(1) + "\"}")
print(show(o), show(string(json.dump(o)...)))
#regex
const r = re.re_uncached("(a+)(\x{2601}|b)*" + S(1).slice(0, 1) + "?")
const m = r.find("xx" + "aaab\x{2601}a" + S(2))
print(m.match, show(m.groups), show(m.match_groups))
try { re.re_uncached("(a" + S(1)) } catch const e { print(e.value) }
#cached regex
for const i in range(3) { print(show(re.re("b" + string(i % 2)).find(S(i % 2)).match)) }
#datetime
const d = datetime.datetime(1600000000000000)
print(show([shallow(d)...].size > 3), "\(d.year)-\(d.month)-\(d.day)")
#lexer
for const t in kos.raw_lexer("a + 0x1f \"s\\(b)t\" # c\n") { if t.token == ")" { break }
    print(show([t.token, t.type])) }
#execute
print(show(kos.execute("var x = [1, \"" + S(1) + "\"]\nx")))
try { kos.execute("x = ") } catch const e { print(typeof e.value) }
try { kos.execute("throw [\"" + S(1) + "\"]") } catch const e { print(show(e.value)) }
#execute with module name
const m = kos.execute("public const q = fun { return \"" + S(1) + "\" }\nq", "zz")
print(m())
#pipes to threads
const t = (fun(a, b) { return [a, b, this.k, S(4)] }).async({ k: W(1) }, [S(1), A(2)])
print(show(t.wait()))
#thread exception
const t = (fun(a) { throw [a, S(1)] }).async(void, [W(2)])
try { t.wait() } catch const e { print(show(e.value)) }
try { t.wait() } catch const e { print(show(e.value)) }
#threads with allocation
const w = fun(n) { const r = []
    for const i in range(30) { r.push(S(n) + string(i)) }
    return r[29] }
const a = w.async(void, [1])
const b = w.async(void, [2])
print(a.wait(), b.wait())
#files
const p = io.pipe()
p.write.write(S(1), "\n", B(66).slice(0, 3), "\n")
p.write.print(A(1), W(2))
p.write.close()
for const l in p.read.read_lines() { print(show(l)) }
#switch
for const v in [S(1), W(1), 1, void] { switch v { case S(1) { print("s") } case W(1), void { print("w") } default { print("d") } } }
#operators
var s = S(1)
s += W(2)
const o = O(5)
o.a += S(6)
o["b"].c += X(7)
o.k5 += I(1)
print(s, show(o), I(1) * 2 + D(3), S(1) < W(1), S(1) == "ab" + "1", typeof A(1), [S(1)] == [S(1)])
#big numbers
var x = 1
for const i in range(30) { x = x * 3 + I(i) }
print(x, x.hex(), D(3) * 2.5, -I(1))
#apply
const f = F(3)
print(show(f.apply(void, [S(1), W(2)])), show((fun { return this }).apply(O(1), [])), show(A(1) -> (x => x)))
#string conversions
print(integer("1" + string(5)), float("2.5" + string(1)), string(65 + 0, 1.5, S(1)), buffer(S(1)), string(B(65)), show(array(S(1))), show(array(G(1))), show(number("0x1" + "f")))
#string methods chain
const s = [(W(1) + "," + S(2) + ", " + X(3)).split(",")...]
print(show(s), show(s -> map(x => x.uppercase().reverse().ljust(8).strip()) -> join(";")))
#recursion
const f = fun(n, acc) { if n == 0 { return acc }
    return f(n - 1, [S(n), acc]) }
print(show(f(20, void)))
#deep stack
const f = fun(n) { return n ? [f(n - 1)] : S(1) }
print(show(f(60)))
#stack overflow
const f = fun(n) { return f([n]) }
try { f(1) } catch const e { print(e.value) }
#global state
var gg = A(1)
const put = fun(x) { gg = [gg.size, x] }
put(S(1))
put(O(2))
print(show(gg))
#exception objects
const e1 = E(1)
print(show(e1.value), e1.backtrace.size, typeof e1.backtrace[0])
try { throw e1 } catch const e { print(e == e1, show(e.value)) }
try { (fun { S(1)() })() } catch const e { print(show(e.value)) }
try { print(S(1).nothing) } catch const e { print(show(e.value)) }
try { print(A(1)[99]) } catch const e { print(show(e.value)) }
#error texts
for const f in [() => integer(W(1)), () => A(1).get(O(1)), () => S(1) + 1, () => O(1)(), () => float(S(3)), () => buffer(A(1)), () => json.parse(W(1)), () => string(F(1)), () => A(1).sort(1), () => { a: 1 }.b.c, () => C.prototype.m.apply(void, [1])] {
    try { print(show(f())) } catch const e { print(show(e.value)) } }
#shared prototypes
const a = [C(1), C(2), C(3)]
C.prototype.extra = W(1)
print(show(a -> map(x => [x.extra, x.m(S(1))]) -> array))
#unpacking
const a, b, c = G(3)
print(show([a, b, c]))
#slices
const s = L(3)
const v = [s[1:5], s[50:], s[-10:-2], W(1)[0:1], A(1)[1:3], B(1)[1:], G(1).slice(0, 2)]
print(show(v[:6]), show(list(v[6])))
#modules
const m = kos.execute("import base\nbase")
print(m.name, typeof m.map, typeof m.get("filter"))
#random
const r = random.random(I(5))
print(r.integer(), r.integer(1, 100), r.float() < 1, show(r.shuffle(A(1)).size))
#queue
const q = threads.queue()
q.push(S(1))
q.push(A(2))
print(show(q.pop()), show(q.pop()))
const st = threads.stack()
st.push(W(1))
print(show(st.pop()))
const mx = threads.mutex()
with mx { print(S(1)) }
#print
print(A(1), O(1), W(2), void, true, B(1), 1.5)
print_lines(A(1), S(2))
#instance and typeof
print(C(1) instanceof C, S(1) instanceof string, A(1) instanceof array, typeof G(1), G(1) instanceof generator, E(1) instanceof exception)
#regs in loops
var a = void
var b = void
for const i in range(6) { b = a
    a = [S(i), b ? b[0] : W(i)] }
print(show(a), show(b))
#constants
const K1 = ["lit", 1.25, 12345678901234567, "\x{2601}lit"]
print(show(K1), show(() => "inner\x{1F600}"), show((() => ["lit", { x: "lit" }])()))
#finalizers
for const i in range(5) { const f = io.pipe()
    f.write.write(S(i))
    f.write.close()
    print(show(f.read.read_line())) }
#stringify nested
const o = O(1)
o.d = [B(1), D(1), I(1), { e: [] }, X(1)]
print(stringify(o), stringify(S(1)), string(stringify(A(1)), S(1)))
#integer parse
for const s in ["1" + "2", "0x" + "ff", "-" + "5", "1_0", "9223372036854775807" + "", "x" + "1"] { try { print(integer(s)) } catch const e { print(show(e.value)) } }
#object functions
const o = O(4)
print(show(o.get("a")), show(list(o.map(x => [x]))), show(list(o.filter(x => true))), show(o.reduce((a, b) => [a, b], void)), show(o.count(x => true)), show("a" in o), show(delete o.a))
#dynamic module load
const m = module.load("math")
print(typeof m, typeof m.exports)
try { module.load("no" + S(1)) } catch const e { print(show(e.value)) }
#method and class
const f = method(C(1), fun(o, x) { return [o, x] })
print(typeof f)
print(typeof f)
'''
def hand_programs():
    cur = None
    for l in HAND.split("\n"):
        if l.startswith("#"):
            if cur: yield cur[0], IMPORT + MODS + "import io\nimport threads\n" + "\n".join(cur[1]) + "\n"
            cur = ("hand " + l[1:], [])
        elif cur: cur[1].append(l)
    yield cur[0], IMPORT + MODS + "import io\nimport threads\n" + "\n".join(cur[1]) + "\n"
