#!/usr/bin/env python3
"""Generators: all bodies up to a nesting depth with yields at all places, resumed by every protocol and every sequence of resumers, two
instances interleaved in all ways; compared with coroutines of the model. Plus loops over ranges in the optimised and the plain form."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases, stmts
from stmts import Brk, Cont, Ret, ends

class Thr(Exception):
    def __init__(self, v): self.v = v
TRANSFER = (Thr, Ret, Brk, Cont)

def yields(n):
    """yields in the function itself"""
    if n[0] in ("y", "yy", "sub"): return True
    return any(yields(x) for x in n[1:] if isinstance(x, tuple))
def valid(n):
    if n[0] == "sub": return yields(n[1]) and valid(n[1])
    return all(valid(x) for x in n[1:] if isinstance(x, tuple))

class Inst:
    """activation: p and n are those of the outermost generator"""
    def __init__(self, case, p):
        self.case, self.p, self.n, self.state = case, p, 0, "ready"
        self.gen = case.body(self)
    def resume(self, v):
        if self.state == "running": raise Thr("RUN")
        if self.state == "done": raise Thr("END")
        first = self.state == "ready"
        self.state = "running"
        try: r = next(self.gen) if first else self.gen.send(v)
        except StopIteration: self.state = "done"; raise Thr("END")
        except Thr: self.state = "done"; raise
        except Ret: self.state = "done"; raise Thr("END")
        self.state = "active"
        return r

def st(v): return "void" if v is None else str(v)

class Case:
    def __init__(self, tree, mode):
        self.tree, self.mode = tree, mode
        self.lines = []; self.n = 0; self.out = []
        self.body = self.block(tree, 1)
    def fresh(self): self.n += 1; return self.n
    def emit(self, s, ind): self.lines.append("    " * ind + s)
    def block(self, node, ind):
        a = self.fresh(); self.emit("t(%d)" % a, ind)
        x = self.render(node, ind)
        b = self.fresh(); self.emit("t(%d)" % b, ind)
        e = ends(node)
        def run(i):
            self.out.append(a)
            yield from x(i)
            self.out.append(b)
        return run
    def render(self, node, ind):
        k = node[0]; out = self.out
        if k == "t":
            a = self.fresh(); self.emit("t(%d)" % a, ind)
            def run(i):
                out.append(a)
                return; yield
            return run
        if k == "y":
            a = self.fresh()
            self.emit("n += 1", ind); self.emit("rec(yield p * 10000 + %d + n)" % (a * 100), ind)
            def run(i):
                i.n += 1
                r = yield i.p * 10000 + a * 100 + i.n
                out.append("r" + st(r))
            return run
        if k == "yy":
            a = self.fresh(); self.emit("t(st(yield p) + st(yield %d) + st(p + n))" % a, ind)
            def run(i):
                r = yield i.p
                s = yield a
                out.append(st(r) + st(s) + st(i.p + i.n))
            return run
        if k == "re":
            self.emit("try { t(me[p]()) } catch const ze { t(ev(ze)) }", ind)
            def run(i):
                out.append("!RUN")
                return; yield
            return run
        if k in ("ret", "thr", "brk", "cont"):
            a = self.fresh()
            self.emit({"ret": "return;", "thr": "throw p * 1000 + %d" % a, "brk": "break", "cont": "continue"}[k], ind)
            def run(i):
                if k == "ret": raise Ret(None)
                if k == "thr": raise Thr(i.p * 1000 + a)
                raise Brk() if k == "brk" else Cont()
                yield
            return run
        if k == "if":
            self.emit("if c(%s) {" % ("true" if node[1] else "false"), ind); a = self.block(node[2], ind + 1)
            self.emit("} else {", ind); b = self.block(node[3], ind + 1); self.emit("}", ind)
            return a if node[1] else b
        if k == "seq":
            a = self.render(node[1], ind); b = self.render(node[2], ind)
            def run(i): yield from a(i); yield from b(i)
            return run
        if k in stmts.LOOPS:
            j = self.fresh()
            if k == "for": self.emit("for const i%d in [10, 20] {" % j, ind); self.emit("t(i%d)" % j, ind + 1)
            elif k == "while": self.emit("var i%d = 0" % j, ind); self.emit("while i%d < 2 {" % j, ind); self.emit("i%d += 1" % j, ind + 1)
            elif k == "repeat": self.emit("var i%d = 0" % j, ind); self.emit("repeat {", ind); self.emit("i%d += 1" % j, ind + 1)
            else:
                self.emit("for const i%d in range(1, 3) {" % j, ind); self.emit("t(i%d)" % j, ind + 1)
            a = self.block(node[1], ind + 1)
            self.emit("} while i%d < 2" % j if k == "repeat" else "}", ind)
            def run(i):
                for v in (1, 2):
                    if k == "for": out.append(v * 10)
                    if k == "loop": out.append(v)
                    try: yield from a(i)
                    except Brk: break
                    except Cont: pass
            return run
        if k == "try":
            self.emit("try {", ind); a = self.block(node[1], ind + 1); e = self.fresh()
            self.emit("} catch const e%d {" % e, ind); self.emit("t(ev(e%d))" % e, ind + 1); b = self.block(node[2], ind + 1); self.emit("}", ind)
            def run(i):
                try: yield from a(i)
                except Thr as x: v = x.v
                else: return
                out.append("!" + st(v))
                yield from b(i)
            return run
        if k in ("defer", "defer1"):
            self.emit("do {", ind); self.emit("defer {", ind + 1); d = self.block(node[1], ind + 2); self.emit("}", ind + 1)
            a = self.block(node[2], ind + 1); self.emit("}", ind)
            def run(i):
                try: yield from a(i)
                except TRANSFER:
                    yield from d(i)
                    raise
                yield from d(i)
            return run
        if k == "sub":
            s = self.fresh()
            self.emit("const s%d = fun {" % s, ind); a = self.block(node[1], ind + 1); self.emit("}", ind)
            self.emit("for const x in s%d() { rec(yield x) }" % s, ind)
            def run(i):
                g = a(i); first = True
                while True:
                    try: v = next(g)
                    except (StopIteration, Ret): return
                    r = yield v
                    out.append("r" + st(r))
            return run
        raise ValueError(k)

    def expected(self):
        del self.out[:]
        MODES[self.mode](self)
        r = " ".join(st(x) for x in self.out)
        self.events = len(self.out)
        del self.out[:]
        return r
    def call(self, g, v):
        try: self.out.append(g.resume(v))
        except Thr as x: self.out.append("!" + st(x.v))
    # --- protocols
    def calls(self):
        g = Inst(self, 1); o = self.out
        o.append("init"); o.append(g.state)
        extra = 0; k = 0
        while extra < 3 and k < 40:
            k += 1
            self.call(g, k * 7); o.append(g.state)
            if g.state == "done": extra += 1
    def loop(self, g):
        """for x in g { t(x) } until done"""
        o = self.out
        try:
            while True:
                if g.state == "done": raise Thr("END")
                try: v = g.resume(None)
                except Thr as x:
                    if x.v == "END": break
                    raise
                o.append(v)
        except Thr as x: o.append("!" + st(x.v))
        else: o.append("fin")
    def loops(self):
        o = self.out
        g = Inst(self, 1); self.loop(g); o.append(g.state); self.loop(g)
        g = Inst(self, 2)
        try:
            if g.state == "done": raise Thr("END")
            o.append(g.resume(None))          # loop left at the first element
        except Thr as x:
            if x.v != "END": o.append("!" + st(x.v))
        o.append(g.state)
        self.call(g, 70); self.loop(g); self.spread(g)
        g = Inst(self, 3); self.spread(g); self.spread(g)
        g = Inst(self, 4); self.call(g, 5); self.spread(g)
    def spread(self, g):
        a = []
        try:
            while g.state != "done":
                try: a.append(g.resume(None))
                except Thr as x:
                    if x.v == "END": break
                    raise
        except Thr as x: self.out.append("!" + st(x.v))
        else: self.out.append("[" + ", ".join(map(str, a)) + "]")
        self.out.append(g.state)
    def inter(self):
        for w in itertools.product((0, 1), repeat=INTER[0]):
            gs = [Inst(self, 1), Inst(self, 2)]
            for k, x in enumerate(w):
                self.call(gs[x], k)
                self.out.append(gs[1 - x].state)
    def ways(self):
        for w in itertools.product(range(WAYS), repeat=INTER[1]):
            g = Inst(self, 1)
            for k, x in enumerate(w):
                self.call(g, k + 3)
            self.out.append(g.state)
MODES = {"calls": Case.calls, "loops": Case.loops, "inter": Case.inter, "ways": Case.ways}
INTER = [5, 3]
WAYS = 8
DRIVER = {
 "calls": '''t(f.state)
const g = f(1)
me[1] = g
t(g.state)
var extra = 0
var k = 0
while extra < 3 && k < 40 { k += 1
    try { t(g(k * 7)) } catch const e { t(ev(e)) }
    t(g.state)
    if g.state == "done" { extra += 1 } }
''',
 "loops": '''var g = f(1)
me[1] = g
lp(g)
t(g.state)
lp(g)
g = f(2)
me[2] = g
try { for const x in g { t(x)
    break } } catch const e { t(ev(e)) }
t(g.state)
try { t(g.next(70)) } catch const e { t(ev(e)) }
lp(g)
sp(g)
g = f(3)
me[3] = g
sp(g)
sp(g)
g = f(4)
me[4] = g
try { t(g.next(5)) } catch const e { t(ev(e)) }
sp(g)
''',
 "inter": '''for const w in range(2 ** @) {
    const gs = [f(1), f(2)]
    me[1] = gs[0]
    me[2] = gs[1]
    for const k in range(@) {
        const x = (w >> (@ - 1 - k)) & 1
        try { t(gs[x](k)) } catch const e { t(ev(e)) }
        t(gs[1 - x].state)
    }
}
'''.replace("2 ** @", "1 << @"),
 "ways": '''for const w1 in ways { for const w2 in ways { for const w3 in ways {
    const g = f(1)
    me[1] = g
    try { t(w1(g, 3)) } catch const e { t(ev(e)) }
    try { t(w2(g, 4)) } catch const e { t(ev(e)) }
    try { t(w3(g, 5)) } catch const e { t(ev(e)) }
    t(g.state)
} } }
'''}
PRE = r'''
var o = []
const me = [void, void, void, void, void]
const st = fun(x) { return typeof x == "void" ? "void" : string(x) }
const t = fun(x) { o.push(st(x)) }
const rec = fun(x) { o.push("r" + st(x)) }
const c = fun(x) { return x }
const ev = fun(e) { const v = e.value
    if v instanceof generator_end { return "!END" }
    if typeof v == "string" && v == "generator is running" { return "!RUN" }
    return "!" + st(v) }
const lp = fun(g) { try { for const x in g { t(x) }
    t("fin") } catch const e { t(ev(e)) } }
const sp = fun(g) { try { const a = [g...]
    var s = ""
    for const x in a { s += (s == "" ? "" : ", ") + st(x) }
    t("[" + s + "]") } catch const e { t(ev(e)) }
    t(g.state) }
const dp = fun(g, v, d) { const a = d
    const b = a + 1
    const q = d > 0 ? dp(g, v, d - 1) : g(v)
    return b - a == 1 ? q : void }
const wide = fun(g, v) { const a = [1, 2, 3, 4, 5, 6, 7, 8]
    const b, cc, d, e, f, h, i, j = a
    const q = g(v)
    if b + cc + d + e + f + h + i + j != 36 { throw "registers" }
    return q }
const fromgen = fun(g, v) { const h = fun { yield g(v) }
    const i = h()
    return i() }
const ways = [fun(g, v) { return g(v) }, fun(g, v) { return g.next(v) }, fun(g, v) { return dp(g, v, 5) }, fun(g, v) { return (async g(v)).wait() },
    wide, fromgen, fun(g, v) { return g.apply(void, [v]) }, fun(g, v) { return (async dp(g, v, 2)).wait() }]
const done = fun {
    var s = ""
    for const x in o { s += (s == "" ? "" : " ") + x }
    print(s)
    o = []
}
'''
class Lang:
    valid = staticmethod(lambda t: stmts.valid(t) and yields(t) and valid(t))
    @staticmethod
    def group_program(cs):
        out = [PRE]
        for c in cs:
            out.append("do {\nconst f = fun(p) {\n    var n = 0\n" + "\n".join(c.lines) + "\n}\n" + DRIVER[c.mode].replace("@", str(INTER[0])) + "done()\n}\n")
        return "".join(out)

# --- loops over ranges: the compiler treats range() specially
def ranges(ck, b):
    def seq(a, e, s):
        r = []; x = a
        while (x < e if s > 0 else x > e if s < 0 else False):
            r.append(x); x += s
            if len(r) > 40: break
        return r
    vals = [0, 1, 2, 3, -1, -2, 5, 2.5, -0.5]
    steps = ["1", "2", "3", "-1", "-2", "0", "0.5", "-0.75", "0.0", "-0.0", "v(1)", "v(-1)", "v(0)", "kS", "kZ", "1 - 3", "v(2)"]
    sval = {"v(1)": 1, "v(-1)": -1, "v(0)": 0, "kS": 2, "kZ": 0, "1 - 3": -2, "v(2)": 2}
    fm = lambda x: str(x)
    cs = []
    for form in ("const", "var", "assign", "captured", "changed", "global", "nested"):
        for fn in ("range", "base.range", "rng", "(range)"):
            for style in (0, 1):
                head = ["import io\nimport base", "const v = fun(x) { return x }", "const kS = 2\nconst kZ = 0", "const rng = range", "var o = []", "public var pg = 0",
                        "const end = fun { var s = \"\"\nfor const x in o { s += string(x) + \" \" }\nprint(s)\no = [] }"]
                lines = []; exp = []
                def loop(args, want, pre=[]):
                    a = args
                    it = "%s(%s)" % (fn, a)
                    cap = "if o.size > 40 { break }\n"
                    if form == "const": t = "for const x in %s { o.push(x)\n%s}" % (it, cap)
                    elif form == "var": t = "for var x in %s { o.push(x)\n%s}" % (it, cap)
                    elif form == "changed": t = "for var x in %s { o.push(x)\nx += 7\no.push(x)\n%s}" % (it, cap); want = [y for x in want for y in (x, x + 7)]
                    elif form == "assign": t = "do { var x = 9\nfor x in %s { o.push(x)\n%s}\no.push(typeof x == \"void\" ? \"V\" : \"X\") }" % (it, cap); want = want + ["V"]
                    elif form == "global": t = "for pg in %s { o.push(pg)\n%s}\no.push(typeof pg == \"void\" ? \"V\" : \"X\")" % (it, cap); want = want + ["V"]
                    elif form == "captured": t = "do { var q = void\nfor var x in %s { q = fun { x += 1\nreturn x }\no.push(x)\no.push(q())\n%s} }" % (it, cap); want = [y for x in want for y in (x, x + 1)]
                    else: t = "for const y in range(2) { for const x in %s { if v(x) == 1 { continue }\ntry { o.push(x)\n if x == 3 { break } } catch const e { } }\no.push(y) }" % it; \
                        one = list(itertools.takewhile(lambda x: x != 3, want)); one = [x for x in one if x != 1] + ([3] if 3 in want else []); want = one + [0] + one + [1]
                    want = pre + want
                    lines.append("do {\n" + t + "\n}\nend()")
                    exp.append("".join(fm(x) + " " for x in want).rstrip(" ") + (" " if want else ""))
                s = (lambda x: "(%s)" % fm(x)) if style == 0 else (lambda x: "v(%s)" % fm(x))
                for e in vals:
                    loop(s(e), seq(0, e, 1))
                    for a in vals: loop("%s, %s" % (s(a), s(e)), seq(a, e, 1))
                small = vals if form == "const" else [0, 3, -2, 2.5]
                for a in small:
                    for e in small:
                        for x in steps:
                            q = sval.get(x); q = float(x) if q is None and "." in x else int(x) if q is None else q
                            loop("%s, %s, %s" % (s(a), s(e), x), seq(a, e, q))
                loop("[0, 3]...", seq(0, 3, 1)); loop("3, [5]...", seq(3, 5, 1))
                loop("0, 6, [2]...", seq(0, 6, 2)); loop("0, 6, 4, o.push(77)", seq(0, 6, 4), [77]) if form != "nested" else None
                for i in range(0, len(lines), 90):
                    if fn == "(range)" and form != "const": continue
                    cs.append(("range %s %s %d part %d" % (form, fn, style, i), "\n".join(head + lines[i:i + 90]), exp[i:i + 90]))
    cases.compare(ck, b, cs)
    return sum(len(c[2]) for c in cs)

# --- what a resumed generator receives: the first argument, whatever the form of the call
def received(ck, b):
    vals = ["41", "42", "43"]
    cs = []
    forms = []
    for n in range(4):
        for k in range(n + 1):             # the first k arguments plain, the others spread from arrays cut at all places
            plain = vals[:k]
            rest = vals[k:n]
            cuts = [[rest]] + [[rest[:i], rest[i:]] for i in range(len(rest) + 1)] + [[[], rest, []]]
            for c in ([[]] if k == n else []) + cuts:
                a = ", ".join(plain + ["[%s]..." % ", ".join(x) for x in c])
                forms.append(("%s(" + a + ")", n)); forms.append(("%s.next(" + a + ")", n)); forms.append(("(async %s(" + a + ")).wait()", n))
                forms.append(("pass(%s, " + a + ")" if a else "pass(%s)", n))
        forms.append(("%s.apply(void, [" + ", ".join(vals[:n]) + "])", n)); forms.append(("%s.apply({}, [" + ", ".join(vals[:n]) + "])", n))
        forms.append(("(async %s.apply(void, [" + ", ".join(vals[:n]) + "])).wait()", n))
        if n: forms.append(("(" + vals[0] + "->(%s))", 1))
        if n > 1: forms.append(("pass2(" + vals[0] + ", " + vals[1] + ", %s)", 2))
    gens = [("fun { t(yield 1)\nt(yield 2)\nt(yield 3) }", "()"), ("fun(a) { t(yield 1)\nt(yield 2)\nt(yield a) }", "(3)"), ("fun(a, b...) { var x = yield 1\nt(x)\nx = yield 2\nt(x)\nt(yield b[0]) }", "(1, 3)"),
            ("fun { const f = fun { yield 0 }\nconst i = f()\nt(yield 1)\ni()\nt(yield 2)\nt(yield 3) }", "()")]
    for gi, (g, a) in enumerate(gens):
        for pi in range(3):                # which of the resumptions
            body, exp = [], []
            for f, n in forms:
                calls = ["g()", "g()", "g()", "g()"]
                calls[pi] = f % "g"
                body.append("do { const g = mk%s\n%s\ndone() }" % (a, "\n".join("t(%s)" % x for x in calls[:3]) + "\ntry { g() } catch const e { t(\"E\") }"))
                rec = ["void"] * 4
                if pi and n: rec[pi] = "41"
                exp.append("1 %s 2 %s 3 void E" % (rec[1], rec[2]))
            H = PRE + "const pass = fun(g, a...) { return g(a...) }\nconst pass2 = fun(a...) { const g = a.pop()\nreturn g(a...) }\nconst mk = %s\n" % g
            for i in range(0, len(body), 40):
                cs.append(("received %d %d %d" % (gi, pi, i), H + "\n".join(body[i:i + 40]) + "\n", exp[i:i + 40]))
    cases.compare(ck, b, cs)
    return sum(len(c[2]) for c in cs)

def run():
    ck = common.Check("L06")
    b = batch.Batch(preload="import io\nimport threads\n")
    nr = ranges(ck, b)
    if not ck.viol: nr += received(ck, b)
    if not ck.viol:
        leaf = [("y",), ("yy",), ("t",), ("ret",), ("thr",), ("brk",), ("cont",), ("re",)]
        kinds = ("if", "seq", "for", "while", "repeat", "loop", "try", "defer", "sub")
        core = ("seq", "for", "loop", "try", "defer", "sub")
        side = [("y",), ("t",), ("thr",), ("ret",), ("brk",)]
        fams = [("calls", stmts.build(0, leaves=leaf)), ("calls", stmts.build(1, leaves=leaf, kinds=kinds)), ("loops", stmts.build(1, leaves=leaf, kinds=kinds)),
                ("calls", stmts.build(2, leaves=leaf, kinds=kinds, side=side)), ("loops", stmts.build(2, leaves=leaf, kinds=kinds, side=side)),
                ("inter", stmts.build(1, leaves=leaf, kinds=kinds)), ("ways", stmts.build(1, leaves=[("y",), ("yy",), ("thr",), ("ret",), ("re",)], kinds=("seq", "for", "loop", "try", "defer", "sub"))),
                ("inter", stmts.build(2, leaves=[("y",), ("thr",), ("yy",)], kinds=core, side=[("y",)]))]
        l3 = [("re",), ("y",), ("thr",), ("ret",), ("brk",), ("yy",)] if ck.quick else leaf
        fams += [("calls", stmts.build(3, leaves=l3, kinds=core, side=[("y",), ("thr",)] if ck.quick else side)), ("loops", stmts.build(3, leaves=[("y",), ("thr",), ("brk",), ("ret",)] if ck.quick else leaf, kinds=core, side=[("y",), ("thr",)] if ck.quick else side)),
                 ("ways", stmts.build(2, leaves=[("y",), ("thr",), ("ret",)], kinds=core, side=[("y",)]))]
        if not ck.quick: fams += [("inter", stmts.build(3, leaves=[("y",), ("thr",)], kinds=core, side=[("y",)])), ("calls", stmts.build(4, leaves=[("y",), ("thr",)], kinds=("seq", "for", "try", "defer", "sub"), side=[("y",)]))]
        cases.statement_families(ck, b, Lang, fams, lambda t, name: Case(t, name), group=lambda name: 2 if name == "ways" else 8 if name == "inter" else 20)
        ck.extra["bounds"] = "%d loops over ranges and forms of resuming calls; " % nr + ck.extra.get("bounds", "")
    ck.assumptions = ["a loop over an iterator that had already ended before the loop signals the end by the documented exception (the repository's own tests require it)",
                      "leaving a loop early does not run what the abandoned generator has deferred"]
    ck.finish()
common.main(run)
