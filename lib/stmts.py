"""Small statement language: exhaustive generator, reference interpreter, Kos renderer.
Nodes (tuples):
 ("t",) ("ret",) ("thr",) ("err",) ("brk",) ("cont",) ("fall",)
 ("if", c, A, B) ("for", A) ("while", A) ("repeat", A) ("loop", A) ("zero", A)
 ("try", A, B) ("defer", D, A) ("defer2", D1, D2, A) ("with", A) ("switch", v, A, B, C) ("call", A) ("do", A)
Every A is a node; it is rendered with a trace before and after."""
import itertools

LEAVES = [("t",), ("ret",), ("thr",), ("err",), ("brk",), ("cont",), ("fall",)]
LOOPS = ("for", "while", "repeat", "loop")
SLOTS = {"if": 2, "for": 1, "while": 1, "repeat": 1, "loop": 1, "zero": 1, "try": 2, "defer": 2, "defer2": 3, "with": 1, "with2": 1, "switch": 3, "call": 1, "do": 1, "seq": 2, "ifx": 1, "sw3": 3, "swd": 3, "swm": 3, "elif": 3, "elifx": 2, "sub": 1, "defer1": 2}
# labels of the sections of each form of switch
SW = {"switch": [(1,), (2,), None], "sw3": [(1,), (2,), (3,)], "swd": [None, (1, 4), (2,)], "swm": [(1, 2), None, (3,)]}
HEADS = {"if": [True, False], "switch": [1, 2, 3], "ifx": [True, False], "sw3": [1, 2, 3, 9], "swd": [1, 2, 9], "swm": [2, 3, 9], "elif": [0, 1, 2], "elifx": [0, 1, 2]}

def valid(n, loop=False, sw=False, fall=False):
    k = n[0]
    if k == "brk": return loop or sw
    if k == "cont": return loop
    if k == "fall": return fall
    if k in ("t", "ret", "thr", "err"): return True
    kids = n[2:] if k in HEADS else n[1:]
    if k in LOOPS or k == "zero": return valid(kids[0], True, False, fall)
    if k in SW:
        return all(valid(c, loop, True, i < 2) and not midjump(c) for i, c in enumerate(kids))
    if k in ("call", "sub"): return valid(kids[0])
    return all(valid(c, loop, sw, fall) for c in kids)

KINDS = tuple(k for k in SLOTS if k not in ("sub", "defer1"))
def build(level, leaves=LEAVES, kinds=KINDS, side=None):
    """All nodes with nesting `level`: one slot holds a node of level-1, the other slots hold leaves."""
    if level == 0:
        for l in leaves: yield l
        return
    side = side or leaves
    inner = list(build(level - 1, leaves, kinds, side))
    for k in kinds:
        ns = SLOTS[k]
        for h in HEADS.get(k, [None]):
            pre = (k,) if h is None else (k, h)
            seen = set()
            for pos in range(ns):
                for x in inner:
                    for oth in itertools.product(side, repeat=ns - 1):
                        kids = oth[:pos] + (x,) + oth[pos:]
                        n = pre + kids
                        if level == 1:
                            if n in seen: continue
                            seen.add(n)
                        yield n

def last(n):
    return last(n[2]) if n[0] == "seq" else n
def ends(n):
    return n[0] in ("ret", "thr", "err", "brk", "cont", "fall") or n[0] == "seq" and ends(n[2])
def midjump(n):
    """break / fallthrough followed by a statement directly in a case block: not allowed by the grammar."""
    if n[0] == "seq": return last(n[1])[0] in ("brk", "fall") or midjump(n[1]) or midjump(n[2])
    return False

class Ret(Exception):
    def __init__(self, v): self.v = v
class Thr(Exception):
    def __init__(self, v, line, stack): self.v, self.lines = v, [line] + stack[::-1]
class Brk(Exception): pass
class Cont(Exception): pass
class Fall(Exception): pass

class Case:
    """Renders and interprets one tree. cond(style) renders conditions."""
    def __init__(self, tree, cond=None, backtrace=True, final=False):
        self.tree = tree
        self.cond = cond or (lambda c, n: "c(%s)" % ("true" if c else "false"))
        self.lines = []
        self.n = 0
        self.out = []
        self.bt = backtrace
        self.stack = []
        x = self.render(tree, 1)
        if final:           # nothing left behind may catch what is thrown afterwards
            a = self.fresh(); l = self.emit("throw t(%d)" % a, 1)
            def run(): x(); self.out.append(a); raise Thr(a, l, self.stack)
            self.ast = run
        else: self.ast = x

    def fresh(self):
        self.n += 1
        return self.n
    def emit(self, s, ind):
        self.lines.append("    " * ind + s)
        return len(self.lines)            # relative to the line of `base`

    # render returns an executable closure
    def block(self, node, ind, case=False):
        a = self.fresh(); self.emit("t(%d)" % a, ind)
        x = self.render(node, ind)
        if ends(node):
            b = None
            # unreachable code after a transfer must not matter
            d = self.fresh()
            if not (case and last(node)[0] in ("brk", "fall")): self.emit("t(%d)" % d, ind)
            def run(): self.out.append(a); x()
            return run
        b = self.fresh(); self.emit("t(%d)" % b, ind)
        def run():
            self.out.append(a); x(); self.out.append(b)
        return run

    def render(self, node, ind):
        k = node[0]
        out = self.out
        if k == "t":
            a = self.fresh(); self.emit("t(%d)" % a, ind)
            return lambda: out.append(a)
        if k == "ret":
            a = self.fresh(); self.emit("return t(%d)" % a, ind)
            def run(): out.append(a); raise Ret(a)
            return run
        if k == "thr":
            a = self.fresh(); l = self.emit("throw t(%d)" % a, ind)
            def run(): out.append(a); raise Thr(a, l, self.stack)
            return run
        if k == "err":
            l = self.emit("c(void).x.y", ind)
            def run(): raise Thr("E", l, self.stack)
            return run
        if k == "brk":
            self.emit("break", ind)
            def run(): raise Brk()
            return run
        if k == "cont":
            self.emit("continue", ind)
            def run(): raise Cont()
            return run
        if k == "fall":
            self.emit("fallthrough", ind)
            def run(): raise Fall()
            return run
        if k == "do":
            self.emit("do {", ind); a = self.block(node[1], ind + 1); self.emit("}", ind)
            return a
        if k == "if":
            c = node[1]
            self.emit("if %s {" % self.cond(c, self.fresh()), ind); a = self.block(node[2], ind + 1)
            self.emit("} else {", ind); b = self.block(node[3], ind + 1); self.emit("}", ind)
            return a if c else b
        if k == "seq":
            a = self.render(node[1], ind); b = self.render(node[2], ind)
            def run(): a(); b()
            return run
        if k == "ifx":
            self.emit("if %s {" % self.cond(node[1], self.fresh()), ind); a = self.block(node[2], ind + 1); self.emit("}", ind)
            return a if node[1] else (lambda: None)
        if k in LOOPS or k == "zero":
            i = self.fresh()
            if k == "for":
                self.emit("for const i%d in [10, 20] {" % i, ind); self.emit("t(i%d)" % i, ind + 1)
            elif k == "zero":
                self.emit("while %s {" % self.cond(False, i), ind)
            elif k == "while":
                self.emit("var i%d = 0" % i, ind); self.emit("while i%d < 2 {" % i, ind); self.emit("i%d += 1" % i, ind + 1)
            elif k == "repeat":
                self.emit("var i%d = 0" % i, ind); self.emit("repeat {", ind); self.emit("i%d += 1" % i, ind + 1)
            else:
                self.emit("var i%d = 0" % i, ind); self.emit("loop {", ind); self.emit("i%d += 1" % i, ind + 1)
                self.emit("if i%d > 2 { break }" % i, ind + 1)
            a = self.block(node[1], ind + 1)
            self.emit("} while i%d < 2" % i if k == "repeat" else "}", ind)
            if k == "zero": return lambda: None
            def run():
                for v in (10, 20):
                    if k == "for": out.append(v)
                    try: a()
                    except Brk: break
                    except Cont: pass
            return run
        if k == "try":
            e = self.fresh()
            self.emit("try {", ind); a = self.block(node[1], ind + 1)
            self.emit("} catch const e%d {" % e, ind); self.emit("ex(e%d, base)" % e, ind + 1); b = self.block(node[2], ind + 1); self.emit("}", ind)
            def run():
                try: a()
                except Thr as x:
                    self.ex(x)
                    y = None
                else: return
                b()
            return run
        if k == "defer":
            self.emit("do {", ind); p = self.fresh(); self.emit("t(%d)" % p, ind + 1)
            self.emit("defer {", ind + 1); d = self.block(node[1], ind + 2); self.emit("}", ind + 1)
            a = self.block(node[2], ind + 1); self.emit("}", ind)
            def run():
                out.append(p)
                try: a()
                finally: d()
            return run
        if k == "defer2":
            self.emit("do {", ind)
            self.emit("defer {", ind + 1); d1 = self.block(node[1], ind + 2); self.emit("}", ind + 1)
            m = self.fresh(); self.emit("t(%d)" % m, ind + 1)
            self.emit("defer {", ind + 1); d2 = self.block(node[2], ind + 2); self.emit("}", ind + 1)
            a = self.block(node[3], ind + 1); self.emit("}", ind)
            def run():
                try:
                    out.append(m)
                    try: a()
                    finally: d2()
                finally: d1()
            return run
        if k in ("with", "with2"):
            p = self.fresh()
            if k == "with":
                self.emit("with res(%d) {" % p, ind)
                names = [p]
            else:
                q = self.fresh()
                self.emit("with const w%d = res(%d), res(%d) {" % (p, p, q), ind)
                names = [p, q]
            a = self.block(node[1], ind + 1); self.emit("}", ind)
            def run(ns=tuple(names)):
                if not ns: return a()
                out.append("a%d" % ns[0])
                try: run(ns[1:])
                finally: out.append("r%d" % ns[0])
            return run
        if k in ("elif", "elifx"):
            w = node[1]; bl = []
            for i in range(len(node) - 2):
                h = "if %s {" % self.cond(w == i, self.fresh()) if i < 2 else "{"
                self.emit(("} else " if i else "") + h, ind); bl.append(self.block(node[2 + i], ind + 1))
            self.emit("}", ind)
            return bl[w] if w < len(bl) else (lambda: None)
        if k in SW:
            v = node[1]; labels = SW[k]
            self.emit("switch %s {" % self.switchval(v), ind)
            bl = []
            for i in range(3):
                self.emit("case %s {" % ", ".join(map(str, labels[i])) if labels[i] else "default {", ind)
                bl.append(self.block(node[2 + i], ind + 1, case=True))
                self.emit("}", ind)
            self.emit("}", ind)
            at = next((i for i, l in enumerate(labels) if l and v in l), None)
            if at is None: at = labels.index(None) if None in labels else 3
            def run():
                i = at
                while i < 3:
                    try: bl[i]()
                    except Brk: return
                    except Fall: i += 1; continue
                    return
            return run
        if k == "call":
            g = self.fresh()
            self.emit("const g%d = fun {" % g, ind); a = self.block(node[1], ind + 1); self.emit("}", ind)
            l = self.emit("t(g%d())" % g, ind)
            def run():
                self.stack.append(l)
                try: a()
                except Ret as r: self.stack.pop(); out.append(r.v)
                except Thr: self.stack.pop(); raise
                else: self.stack.pop(); out.append("void")
            return run
        raise ValueError(k)

    def switchval(self, v): return "c(%d)" % v
    def ex(self, x):
        self.out.append("%s@%s" % (x.v, ",".join(map(str, x.lines))) if self.bt else str(x.v))


    def expected(self):
        del self.out[:]
        try: self.ast()
        except Ret as r: self.out.append("=%s" % r.v)
        except Thr as x:
            self.out.append("!%s@%s" % (x.v, ",".join(map(str, x.lines))) if self.bt else "!%s" % x.v)
        else: self.out.append("=void")
        return " ".join(map(str, self.out))

PRELUDE = r'''
var o = []
const t = fun(x) { o.push(x)
    return x }
const c = fun(x) { return x }
const res = fun(k) { return { acquire: fun { o.push("a" + string(k)) }, release: fun { o.push("r" + string(k)) } } }
const st = fun(x) { return typeof x == "void" ? "void" : string(x) }
const show = fun(e, base) {
    var s = ""
    for const b in e.backtrace[:-1] { s += (s == "" ? "" : ",") + string(b.line - base) }
    return (typeof e.value == "integer" ? string(e.value) : "E") + "@" + s
}
const ex = fun(e, base) { o.push(show(e, base)) }
const done = fun(pre, v) {
    o.push(pre + st(v))
    var s = ""
    for const x in o { s += (s == "" ? "" : " ") + st(x) }
    print(s)
    o = []
}
'''

def group_program(cases):
    out = [PRELUDE]
    for c in cases:
        # base is published so that escaping exceptions can be shown too
        out.append("do {\nvar bb = 0\nconst f = fun {\n    const base = __line__ + 1\n    bb = base\n" + "\n".join(c.lines) + "\n}\n"
                   "try { done(\"=\", f()) } catch const e { done(\"!\", show(e, bb)) }\n}\n")
    return "".join(out)
