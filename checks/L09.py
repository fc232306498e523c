#!/usr/bin/env python3
"""Assignment and evaluation order: all expressions up to a size over every expression form that can build, call, read, fail or change the
target, assigned to variables of every storage kind; the trace and the target afterwards are compared with a reference evaluator."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases

class Thr(Exception): pass
class Unspec(Exception): pass
class Fn:
    def __init__(self, ret): self.ret = ret
class D(dict): pass

PRE = r'''const o = []
const show = fun(x) {
    switch typeof x {
        case "array" {
            if x.size > 9 { return "big" }
            var s = "["
            for const e in x { s += show(e) + "," }
            return s + "]"
        }
        case "object" {
            var s = "{"
            for const k in ["a", "b", "m"] { if k in x { s += k + ":" + show(x[k]) + "," } }
            return s + "}"
        }
        case "void" { return "void" }
        case "function" { return "f(" + show(x()) + ")" }
        default { return stringify(x) }
    }
}
const L = fun(n) { o.push(n)
    return n }
const T = fun(n) { o.push(0 - n)
    throw n }
const H = fun(n, f) { o.push(n)
    return f }
const F1 = fun(a) { o.push("f1")
    return [a] }
const F2 = fun(a, b) { o.push("f2")
    return [b, a] }
const F5 = fun(a, b, c, d, e) { o.push("f5")
    return [e, d] }
const X5 = fun(a, b, c, d, e) { o.push("x5")
    throw 5 }
const X1 = fun(a) { o.push("x1")
    throw 1 }
const OB = { m: fun(a, b) { o.push("m")
    return [a, b, this.k] }, k: 4, t: fun(a) { throw 3 } }
const acc = { }
const done = fun(x) {
    var s = ""
    for const e in o { s += stringify(e) + " " }
    o.resize(0)
    print(s + "= " + show(x))
}
'''
NUM = (int,)
def isnum(x): return isinstance(x, int) and not isinstance(x, bool)
def show(x, d=0):
    if d > 12: raise Unspec()
    if x is None: return "void"
    if x is True: return "true"
    if x is False: return "false"
    if isinstance(x, list):
        if len(x) > 9: return "big"
        return "[" + "".join(show(e, d + 1) + "," for e in x) + "]"
    if isinstance(x, D):
        return "{" + "".join(k + ":" + show(x[k], d + 1) + "," for k in "abm" if k in x) + "}"
    if isinstance(x, Fn): return "f(" + show(x.ret(), d + 1) + ")"
    return str(x)
def truthy(x): return not (x is None or x is False or (isnum(x) and x == 0))
def typename(x):
    if x is None: return "void"
    if isinstance(x, bool): return "boolean"
    if isnum(x): return "integer"
    if isinstance(x, str): return "string"
    if isinstance(x, list): return "array"
    if isinstance(x, D): return "object"
    return "function"

# form: (arity, template, evaluation on thunks + state)
def seq(*xs): return [x() for x in xs]
def opt(c, f): return f if c else None
def add(a, b):
    if isnum(a) and isnum(b): return a + b
    if isinstance(a, str) and isinstance(b, str): return a + b
    raise Thr()
def neg(a):
    if isnum(a): return -a
    raise Thr()
def throws(o, mark):
    o.append(mark); raise Thr()
def call(o, mark, v): o.append(mark); return v
def interp(a):
    if isinstance(a, (Fn, list, D)): raise Unspec()
    return show(a)
def refine(d, k):
    if isinstance(d, D): return d.get(k) if k in d else thr()
    raise Unspec()
def thr(): raise Thr()
def tern(c, a, b): return a() if truthy(c()) else b()
def conj(a, b):
    x = a()
    return b() if truthy(x) else x
def disj(a, b):
    x = a()
    return x if truthy(x) else b()
def eq(a, b):
    if isinstance(a, (list, D, Fn)) and isinstance(b, (list, D, Fn)): raise Unspec()
    return type(a) == type(b) and a == b
def slot(lst, i): return lst[i]
def mkfn(v): return Fn(lambda: v)
def lateval(st, x): return Fn(x)

FORMS = {
    "arr1": (1, "[{0}]", lambda o, x: [x()]),
    "arr2": (2, "[{0}, {1}]", lambda o, x, y: seq(x, y)),
    "arr5": (2, "[1, 2, {0}, 4, {1}]", lambda o, x, y: [1, 2] + [x()] + [4] + [y()]),
    "spread": (2, "[{0}, [3, {1}]...]", lambda o, x, y: [x(), 3, y()]),
    "spread0": (2, "[[{0}]..., {1}]", lambda o, x, y: [x(), y()]),
    "obj1": (1, "{{a: {0}}}", lambda o, x: D(a=x())),
    "obj2": (2, "{{a: {0}, b: {1}}}", lambda o, x, y: D(zip("ab", seq(x, y)))),
    "call1": (1, "F1({0})", lambda o, x: call(o, "f1", [x()])),
    "call2": (2, "F2({0}, {1})", lambda o, x, y: (lambda a, b: call(o, "f2", [b, a]))(x(), y())),
    "call5": (2, "F5(1, 2, 3, {0}, {1})", lambda o, x, y: (lambda a, b: call(o, "f5", [b, a]))(x(), y())),
    "callx5": (2, "X5({0}, 2, 3, {1}, 5)", lambda o, x, y: (seq(x, y), throws(o, "x5"))[1]),
    "callx1": (1, "X1({0})", lambda o, x: (x(), throws(o, "x1"))[1]),
    "callsp": (2, "F2([{0}, {1}]...)", lambda o, x, y: (lambda a, b: call(o, "f2", [b, a]))(x(), y())),
    "callnm": (2, "F2(b = {0}, a = {1})", lambda o, x, y: (lambda b, a: call(o, "f2", [b, a]))(x(), y())),
    "callnx": (1, "X1(a = {0})", lambda o, x: (x(), throws(o, "x1"))[1]),
    "meth": (2, "OB.m({0}, {1})", lambda o, x, y: call(o, "m", seq(x, y) + [4])),
    "meth0": (1, "{{m: {0}, k: 6}}.m", lambda o, x: x()),
    "meth5": (2, "OB.m({0}, {1}, 3, 4, 5)", lambda o, x, y: call(o, "m", seq(x, y) + [4])),
    "callee": (2, "H({0}, F1)({1})", lambda o, x, y: (lambda a, b: (a, call(o, "f1", [b]))[1])((lambda a: (o.append(show(a)) if not isinstance(a, (list, D, Fn)) else bad(), a)[1])(x()), y())),
    "apply": (1, "({0}) -> F1", lambda o, x: call(o, "f1", [x()])),
    "and": (2, "({0}) && ({1})", lambda o, x, y: conj(x, y)),
    "or": (2, "({0}) || ({1})", lambda o, x, y: disj(x, y)),
    "tri": (3, "({0}) ? ({1}) : ({2})", lambda o, x, y, z: tern(x, y, z)),
    "not": (1, "! ({0})", lambda o, x: not truthy(x())),
    "neg": (1, "- H(1, {0})", lambda o, x: neg((lambda a: call(o, 1, a))(x()))),
    "add": (2, "H(1, {0}) + H(2, {1})", lambda o, x, y: add((lambda a: call(o, 1, a))(x()), (lambda a: call(o, 2, a))(y()))),
    "plain+": (2, "({0}) + ({1})", None),
    "eq": (2, "H(1, {0}) == ({1})", lambda o, x, y: eq((lambda a: call(o, 1, a))(x()), y())),
    "typeof": (1, "typeof ({0})", lambda o, x: typename(x())),
    "interp": (2, "\"<\\({0})|\\({1})>\"", lambda o, x, y: "<%s|%s>" % tuple(interp(a) for a in seq(x, y))),
    "index": (2, "[7, {0}, {1}][1]", lambda o, x, y: seq(x, y)[0]),
    "index2": (2, "[7, {0}][L({1}) ? 1 : 0]", None),
    "slice": (2, "[7, {0}, {1}][1:]", lambda o, x, y: seq(x, y)),
    "prop": (2, "{{a: {0}, b: {1}}}.b", lambda o, x, y: seq(x, y)[1]),
    "optprop": (1, "{{a: {0}}}.?a", lambda o, x: x()),
    "optno": (1, "{{a: {0}}}.?b", lambda o, x: (x(), None)[1]),
    "inop": (1, "\"a\" in {{a: {0}}}", lambda o, x: (x(), True)[1]),
    "fundef": (1, "fun(a = {0}) {{ return a }}", lambda o, x: mkfn(x())),
    "fundef2": (2, "fun(a = {0}, b = {1}) {{ return [a, b] }}", lambda o, x, y: (lambda a: Fn(lambda: list(a)))(seq(x, y))),
    "lambda": (1, "() => [{0}]", "late"),
    "async": (2, "(async F2({0}, {1})).wait()", lambda o, x, y: (lambda a, b: call(o, "f2", [b, a]))(x(), y())),
    "asyncm": (2, "(async OB.m({0}, {1})).wait()", lambda o, x, y: call(o, "m", seq(x, y) + [4])),
}
for k in ("plain+", "index2", "async", "asyncm"): pass
def bad(): raise Unspec()
del FORMS["plain+"], FORMS["index2"]
SMALL = ["arr1", "arr2", "obj2", "call1", "call5", "callx5", "callnm", "callnx", "meth5", "callee", "and", "tri", "neg", "add", "fundef", "index", "interp", "spread", "callsp", "lambda"]

# leaves: v (target), w, c (constant), e (effect), T (fails), S (assigns the target through a closure), G (reads it through one)
STYLES = ("param", "local", "const2", "captured", "capparam", "module", "modcap", "public", "member", "element", "nested")
# other uses of the expression: compound assignment, several targets, return (tail call) and yield
STYLES2 = ("cparam", "ccap", "cmember", "multi", "swap", "return", "retry", "yield", "yieldcap", "argument", "throw", "newvar")
CAPT = ("yieldcap", "captured", "capparam", "modcap", "nested", "member", "element", "public")

class Case:
    def __init__(self, tree, style):
        self.tree, self.style = tree, style
        self.n = 0
        self.o = self.out = []
        self.box = [1]
        self.late = False
        self.has_lambda = False
        try:
            self.src, self.run = self.render(tree)
            self.exp = self.evaluate()
        except Unspec:
            raise
    def target(self): return {"member": "acc.p", "element": "acc.q[2]"}.get(self.style, "v")
    def render(self, t):
        o, box = self.o, self.box
        if t == "v": return self.target(), lambda: box[0]
        if t == "w": return "w", lambda: 8
        if t == "c": return "3", lambda: 3
        if t == "z": return "void", lambda: None
        if t == "e":
            self.n += 1; n = self.n * 10
            return "L(%d)" % n, lambda: call(o, n, n)
        if t == "T":
            self.n += 1; n = self.n * 10
            return "T(%d)" % n, lambda: throws(o, -n)
        if t == "S":
            self.n += 1; n = self.n * 10 + 5
            def run():
                box[0] = n; return n
            return "S(%d)" % n, run
        if t == "G": return "G()", lambda: box[0]
        ar, tpl, fn = FORMS[t[0]]
        if fn == "late":
            self.has_lambda = True
            s, f = self.render(t[1])
            return tpl.format(s), lambda: Fn(lambda: [f()])
        xs = [self.render(x) for x in t[1:]]
        return tpl.format(*[x[0] for x in xs]), lambda: fn(o, *[x[1] for x in xs])
    def evaluate(self):
        o, box = self.o, self.box
        vals = []
        s = self.style
        ret = None
        try:
            v = self.run()
            if s in ("cparam", "ccap", "cmember"): o.append(1); box[0] = add(box[0], v)
            elif s in ("return", "retry"): ret = [v]
            elif s == "argument": ret = call(o, "f2", [v, 8])
            elif s == "throw": ret = ["t", v]
            elif s in ("yield", "yieldcap"): ret = [v]; o.append("y"); box[0] = 55
            else: box[0] = v
        except Thr:
            o.append("!")
            if s in ("return", "argument", "throw"): ret = None
        v1 = box[0]
        if s == "multi": v1 = [v1, 8 if "!" not in o else 8]
        elif s == "swap": v1 = [v1, 8] if "!" in o else [8, v1]
        elif s in ("return", "argument", "throw"): v1 = ret
        elif s in ("retry",): v1 = [ret, v1]
        elif s in ("yield", "yieldcap"): v1 = [ret, v1]
        if self.has_lambda: # run from show only
            o2 = list(o)
            s = show(v1)
            if len(o) != len(o2): raise Unspec()
            return " ".join(map(str, o)) + (" " if o else "") + "= " + s
        return "".join(str(x) + " " for x in o) + "= " + show(v1)
    def expected(self): return self.exp
    def lines(self, k):
        e, s = self.src, self.style
        tg = self.target()
        body = ["try { %s = %s }" % (tg, e), "catch const x { o.push(\"!\") }"]
        clos = ["const S = fun(x) { %s = x" % tg, "return x }", "const G = fun { return %s }" % tg]
        if s == "param": return ["do {", "const f = fun(v, w) {"] + body + ["return v }", "done(f(1, 8))", "}"]
        if s == "cparam": return ["do {", "const f = fun(v, w) {", "try { v += H(1, %s) }" % e, body[1], "return v }", "done(f(1, 8))", "}"]
        if s == "ccap": return ["do {", "const f = fun(v, w) {"] + clos + ["try { v += H(1, %s) }" % e, body[1], "return v }", "done(f(1, 8))", "}"]
        if s == "cmember": return ["do {", "const f = fun(v, w) {", "acc.p = v", "try { acc.p += H(1, %s) }" % e, body[1], "return acc.p }", "done(f(1, 8))", "}"]
        if s == "multi": return ["do {", "const f = fun(v, w) {", "var u = 8", "try { v, u = [%s, w] }" % e, body[1], "return [v, u] }", "done(f(1, 8))", "}"]
        if s == "swap": return ["do {", "const f = fun(v, w) {", "try { v, w = [w, %s] }" % e, body[1], "return [v, w] }", "done(f(1, 8))", "}"]
        if s == "return": return ["do {", "const f = fun(v, w) { return %s }" % e, "const g = fun {", "try { return [f(1, 8)] }", body[1], "return void }", "done(g())", "}"]
        if s == "retry": return ["do {", "const f = fun(v, w, u) {", "try { u.push(v)", "return [[%s], v] }" % e, body[1], "return [void, v] }", "done(f(1, 8, []))", "}"]
        if s == "argument": return ["do {", "const f = fun(v, w) {", "try { return F2(w, %s) }" % e, body[1], "return void }", "done(f(1, 8))", "}"]
        if s == "throw": return ["do {", "const f = fun(v, w) { throw [\"t\", %s] }" % e, "const g = fun {", "try { f(1, 8) }", "catch const x {", "if typeof x.value == \"array\" { return x.value }", "o.push(\"!\")", "return void } }", "done(g())", "}"]
        if s == "newvar": return ["do {", "const f = fun(v, w) {", "try { var u = %s" % e, "v = u }", body[1], "return v }", "done(f(1, 8))", "}"]
        if s in ("yield", "yieldcap"):
            return ["do {", "const r = [void, void]", "const f = fun(v, w) {"] + (clos if s == "yieldcap" else []) + ["try { v = yield %s }" % e, body[1], "r[1] = v", "}",
                    "const g = f(1, 8)", "try { r[0] = [g()]", "o.push(\"y\")", "g(55) }", "catch const x { }", "done(r)", "}"]
        if s == "local": return ["do {", "const f = fun(w) {", "var v = 1"] + body + ["done(v) }", "f(8)", "}"]
        if s == "const2": # a declaration in a loop body, then a copy
            return ["do {", "const f = fun(w) {", "var r = 1", "for const i in range(2) {", "const v = r", "if i { break }", "try { const u = %s" % e, "r = u }", "catch const x { o.push(\"!\") }", "}", "done(r) }", "f(8)", "}"]
        if s == "captured": return ["do {", "const f = fun(w) {", "var v = 1"] + clos + body + ["done(v) }", "f(8)", "}"]
        if s == "capparam": return ["do {", "const f = fun(v, w) {"] + clos + body + ["done(v) }", "f(1, 8)", "}"]
        if s == "nested": return ["do {", "const f = fun(v, w) {"] + clos + ["const g = fun {"] + body + ["}", "g()", "done(v) }", "f(1, 8)", "}"]
        if s == "member": return ["do {", "const f = fun(w) {", "acc.p = 1"] + clos + body + ["done(acc.p) }", "f(8)", "}"]
        if s == "element": return ["do {", "const f = fun(w) {", "acc.q = [0, 0, 1]"] + clos + body + ["done(acc.q[2]) }", "f(8)", "}"]
        if s == "module": return ["do {", "var v = 1", "const w = 8"] + body + ["done(v)", "}"]
        if s == "modcap": return ["do {", "var v = 1", "const w = 8"] + clos + body + ["done(v)", "}"]
        if s == "public": # global of the module
            ren = lambda l: __import__("re").sub(r"\bv\b", "pv%d" % k, l)
            return ["public var pv%d = 1" % k, "do {", "const w = 8"] + [ren(x) for x in clos + body] + ["done(pv%d)" % k, "}"]
class Lang:
    @staticmethod
    def valid(t): return True
    @staticmethod
    def group_program(cs):
        return PRE + "".join("\n".join(c.lines(k)) + "\n" for k, c in enumerate(cs))

def leaves_of(t):
    if isinstance(t, str): yield t
    else:
        for x in t[1:]: yield from leaves_of(x)
def fit(t, style):
    l = set(leaves_of(t))
    if style not in CAPT: return "S" not in l and "G" not in l
    return True
def late_ok(t):
    """effects in a lambda happen when it is called; only plain leaves there"""
    if isinstance(t, str): return True
    if t[0] == "lambda" and not set(leaves_of(t)) <= {"w", "c", "z"}: return False
    return all(late_ok(x) for x in t[1:])
def level(inner, leaf, forms):
    for f in forms:
        n = FORMS[f][0]
        for pos in range(n):
            for x in inner:
                for oth in itertools.product(leaf, repeat=n - 1):
                    yield (f,) + oth[:pos] + (x,) + oth[pos:]
def uniq(g):
    seen = set()
    for t in g:
        if t not in seen: seen.add(t); yield t

def run():
    ck = common.Check("L09")
    b = batch.Batch(preload="import io\n")
    def mk(t, name):
        style = name.split()[0]
        if not late_ok(t) or not fit(t, style): return None
        if style == "swap" and "lambda" in repr(t): return None     # would read w after the assignment
        if "async" in t[0] and name.split()[1] != "1": return None
        try: return Case(t, style)
        except Unspec: return None
    allf = sorted(FORMS)
    LV = ["v", "w", "c", "z", "e", "T", "S", "G"]
    fams = []
    one = list(uniq(level(LV, LV, allf)))
    in1 = list(uniq(level(["v", "e", "T", "S"], ["v", "e", "S"], SMALL)))
    in2 = list(uniq(level(["v", "e", "T", "S", "G"], ["v", "e", "S", "T", "w"], [f for f in allf if "async" not in f])))
    main = [f for f in allf if "async" not in f]
    for s in STYLES + STYLES2:
        fams.append((s + " 1", lambda: iter(one)))
        fams.append((s + " 2", lambda: level(in1, ["v"] , main)))
        if s in CAPT: fams.append((s + " 2s", lambda: level(in1, ["S"], SMALL)))
        if s in ("param", "captured", "return") or not ck.quick: fams.append((s + " 2f", lambda: level(in2, ["v", "e", "T"] if not ck.quick else ["v"], main)))
        if not ck.quick:
            if s in CAPT: fams.append((s + " 2g", lambda: level(in2, ["S", "G"], SMALL)))
            fams.append((s + " 3", lambda: level(list(level(in1, ["v"], ["arr2", "call5", "call1", "tri", "obj2", "and"])), ["v"], ["arr1", "obj1", "call1", "call5", "and", "tri", "neg", "fundef", "index"])))
    cases.statement_families(ck, b, Lang, [(n, g()) for n, g in fams], mk, group=lambda name: 16)
    ck.assumptions = ["operands are evaluated left to right (doc/design.md: arguments left to right, each completely)"]
    ck.finish()
if __name__ == "__main__": common.main(run)
