#!/usr/bin/env python3
"""Scoping: all programs up to a size over declarations, assignments, reads and calls of two names in nested blocks, functions, closures
called later, loops, handlers and parameters; values read are compared with an environment model, ill-formed programs must be rejected."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases

class Bad(Exception): pass      # program must be rejected
class Skip(Exception): pass     # value not specified (loop variable after its loop)
UNSPEC = object()

class Decl:
    def __init__(self, const, fun): self.const, self.fun = const, fun

class Act:
    """activation of a function: its own cells"""
    def __init__(self, parent, key): self.parent, self.key, self.cells = parent, key, {}
    def find(self, fkey):
        a = self
        while a.key != fkey: a = a.parent
        return a

class Case:
    def __init__(self, tree, style, module):
        self.tree, self.style, self.module = tree, style, module
        self.n = self.fn = 0; self.uses = set(); self.later = False
        self.out = []
        self.err = False
        try:
            src, run = self.block(tree, [{}], 0)
        except Bad:
            self.err = True; self.lines = Raw().block(tree, style)
            return
        tail = []
        if self.later: tail = ["var zk = 0", "while zk < fs.size && zk < 6 {", "fs[zk]()", "fs[zk]()", "zk += 1 }"]
        self.lines = (["const fs = []"] if self.later else []) + src + tail
        act = Act(None, 0)
        self.fs = []
        self.depth = 0
        run(act)
        k = 0
        while k < len(self.fs) and k < 6:
            self.fs[k](); self.fs[k](); k += 1
    def expected(self):
        return "ERR" if self.err else " ".join(str(x) for x in self.out) + " ="
    def num(self, style=None):
        self.n += 1
        return self.n * 10, ("%d" if (self.style + self.n * (self.style == 2)) % 2 == 0 else "v(%d)") % (self.n * 10)
    def lookup(self, env, x):
        for s in reversed(env):
            if x in s: return s[x]
        raise Bad()
    def declare(self, env, x, const, f):
        if x in env[-1]: raise Bad()
        d = Decl(const, f); env[-1][x] = d
        return d
    def block(self, body, env, f):
        src, runs = [], []
        for st in body:
            s, r = self.stmt(st, env, f)
            src += s; runs.append(r)
        def run(act):
            for r in runs: r(act)
        return src, run
    def get(self, d, act):
        v = act.find(d.fun).cells[d]
        if v is UNSPEC: raise Skip()
        return v
    def fun(self, body, env, f, params=()):
        """new function; returns source lines of the body and maker(act) -> callable"""
        self.fn += 1
        g = self.fn
        psc = {}
        pd = []
        for p in params: d = Decl(False, g); psc[p] = d; pd.append(d)
        src, run = self.block(body, env + [psc, {}], g)
        def maker(act):
            def call(*args):
                a = Act(act, g)
                for d, x in zip(pd, args): a.cells[d] = x
                run(a)
            return call
        return src, maker
    def stmt(self, st, env, f):
        k = st[0]; out = self.out
        if k in "DK":
            n, s = self.num()
            x = st[1]
            d = self.declare(env, x, k == "K", f)
            def run(act): act.cells[d] = n
            return ["%s %s = %s" % ("const" if k == "K" else "var", x, s)], run
        if k in "AI":
            x = st[1]
            d = self.lookup(env, x)
            if d.const: raise Bad()
            if k == "A":
                n, s = self.num()
                def run(act): act.find(d.fun).cells[d] = n
                return ["%s = %s" % (x, s)], run
            def run(act):
                v = self.get(d, act)
                act.find(d.fun).cells[d] = v + 1
            return ["%s += 1" % x], run
        if k == "R":
            d = self.lookup(env, st[1])
            def run(act):
                v = self.get(d, act)
                out.append("fn" if callable(v) else v)
            return ["r(%s)" % st[1]], run
        if k == "C":
            d = self.lookup(env, st[1])
            def run(act):
                v = self.get(d, act)
                if not callable(v) or self.depth >= 2: out.append("nc"); return
                self.depth += 1; v(); self.depth -= 1
            return ["call(%s)" % st[1]], run
        if k == "do":
            s, r = self.block(st[1], env + [{}], f)
            return ["do {"] + s + ["}"], r
        if k == "fun2":
            s, mk = self.fun(st[1], env, f)
            self.n += 1; g = "g%d" % self.n
            def run(act):
                c = mk(act); c(); c()
            return ["const %s = fun {" % g] + s + ["}", "%s()" % g, "%s()" % g], run
        if k in BLK:
            s, r = self.block(st[1], env + [{}] * (k != "deferred") + [{}] * (k == "deferred"), f)
            h, t, times = BLK[k]
            def run(act):
                for i in range(times): r(act)
            return h.split("|") + s + t.split("|"), run
        if k in FNS:
            s, mk = self.fun(st[1], env, f)
            self.n += 1; g = "g%d" % self.n
            h, t = FNS[k]
            return (h.replace("@", g)).split("|") + s + t.replace("@", g).split("|"), lambda act: mk(act)()
        if k == "later":
            self.later = True
            s, mk = self.fun(st[1], env, f)
            return ["fs.push(fun {"] + s + ["})"], lambda act: self.fs.append(mk(act))
        if k == "F":
            x = st[1]
            d = self.declare(env, x, True, f)
            s, mk = self.fun(st[2], env, f)
            def run(act): act.cells[d] = mk(act)
            return ["fun %s {" % x] + s + ["}"], run
        if k in ("forc", "forv"):
            sc = {}
            n1, s1 = self.num(); n2, s2 = self.num()
            d = Decl(k == "forc", f); sc[st[1]] = d
            s, r = self.block(st[2], env + [sc, {}], f)
            def run(act):
                for n in (n1, n2): act.cells[d] = n; r(act)
                act.cells[d] = UNSPEC
            return ["for %s %s in [%s, %s] {" % ("const" if k == "forc" else "var", st[1], s1, s2)] + s + ["}"], run
        if k == "catch":
            sc = {}
            n1, s1 = self.num()
            d = Decl(True, f); sc[st[1]] = d
            s, r = self.block(st[2], env + [sc, {}], f)
            def run(act): act.cells[d] = n1; r(act); act.cells[d] = UNSPEC
            # the caught value is the thrown one wrapped in an exception object
            return ["try { throw %s } catch const %s {" % (s1, st[1])] + s + ["}"], run
        if k == "par":
            n1, s1 = self.num()
            s, mk = self.fun(st[2], env, f, [st[1]])
            self.n += 1; g = "g%d" % self.n
            def run(act): mk(act)(n1)
            return ["const %s = fun(%s) {" % (g, st[1])] + s + ["}", "%s(%s)" % (g, s1)], run
        raise ValueError(k)

# other blocks: text before, text after, times executed
BLK = {"if": ("if v(true) {", "}", 1), "else": ("if v(false) { } else {", "}", 1), "loop": ("loop {", "break }", 1), "sw": ("switch v(1) { case 1 {|v(0)", "} }", 1),
       "def": ("switch v(1) { case 2 { v(0) } default {|v(0)", "} }", 1), "try": ("try {", "} catch const ze { o.push(-1) }", 1), "with": ("with { acquire: fun { }, release: fun { } } {", "}", 1),
       "defer": ("do { defer {", "} }", 1), "repeat": ("repeat {", "} while v(false)", 1), "iff": ("if true {", "}", 1), "elsef": ("if false { } else {", "}", 1)}
# other functions, called once
FNS = {"gen": ("const @ = fun {", "yield 1 }|@()()"), "meth": ("const @ = class { fun m {", "} }|@().m()"), "ctor": ("const @ = class { constructor {", "} }|@()"),
       "dflt": ("const @ = fun(z = fun {", "}) { return z }|@()()"), "imm": ("v(fun {", "})()"), "arrow": ("const @ = { p: [fun {", "}] }|@.p[0]()")}

class Raw:
    """source of an ill-formed program, without resolving names"""
    def block(self, body, style):
        src = []
        for st in body:
            k = st[0]
            if k in "DK": src.append("%s %s = %d" % ("const" if k == "K" else "var", st[1], 10))
            elif k == "A": src.append("%s = 20" % st[1])
            elif k == "I": src.append("%s += 1" % st[1])
            elif k == "R": src.append("r(%s)" % st[1])
            elif k == "C": src.append("call(%s)" % st[1])
            elif k == "do": src += ["do {"] + self.block(st[1], style) + ["}"]
            elif k == "fun2": src += ["const zg = fun {"[:9] + str(len(src)) + " = fun {"] + self.block(st[1], style) + ["}"]
            elif k in BLK: src += BLK[k][0].split("|") + self.block(st[1], style) + BLK[k][1].split("|")
            elif k in FNS: src += (FNS[k][0].replace("@", "zg%d" % id(st))).split("|") + self.block(st[1], style) + FNS[k][1].replace("@", "zg%d" % id(st)).split("|")
            elif k == "later": src += ["o.push(fun {"] + self.block(st[1], style) + ["})"]
            elif k == "F": src += ["fun %s {" % st[1]] + self.block(st[2], style) + ["}"]
            elif k in ("forc", "forv"): src += ["for %s %s in [1, 2] {" % ("const" if k == "forc" else "var", st[1])] + self.block(st[2], style) + ["}"]
            elif k == "catch": src += ["try { throw 1 } catch const %s {" % st[1]] + self.block(st[2], style) + ["}"]
            elif k == "par": src += ["o.push(fun(%s) {" % st[1]] + self.block(st[2], style) + ["})"]
        return src

class Lang:
    PRE = r'''
const o = []
const v = fun(x) { return x }
var depth = 0
const r = fun(x) { o.push(typeof x == "function" ? "fn" : (typeof x == "object" ? x.value : x)) }
const call = fun(x) {
    if typeof x == "function" && depth < 2 { depth += 1
        x()
        depth -= 1 }
    else { o.push("nc") }
}
const done = fun {
    var s = ""
    for const x in o { s += string(x) + " " }
    print(s + (s.size ? "=" : " ="))
    o.resize(0)
    depth = 0
}
'''
    @staticmethod
    def valid(t): return True
    @staticmethod
    def group_program(cs):
        if cs[0].module:
            tail = "" if cs[0].err else "\ndone()\n"
            head = 'print("ran")\n' if cs[0].err else ""
            return Lang.PRE + head + "\n".join(cs[0].lines) + tail
        out = [Lang.PRE]
        if cs[0].err: out.append('print("ran")\n')
        for c in cs: out.append("const zf%d = fun {\n" % id(c) + "\n".join(c.lines) + "\n}\nzf%d()\ndone()\n" % id(c))
        return "".join(out)

LEAF = ["D", "K", "A", "I", "R", "C"]
NAMED = ["forc", "forv", "catch", "par", "F"]
PLAIN = ["do", "fun2", "later"]
def seqs(n, leaf, plain, named, names, top=True, memo=None):
    """all statement sequences with exactly n statements"""
    if memo is None: memo = {}
    if n in memo: return memo[n]
    if n == 0: return [()]
    res = []
    for first in range(1, n + 1):
        heads = []
        if first == 1:
            heads = [(l, x) for l in leaf for x in names]
        else:
            for body in seqs(first - 1, leaf, plain, named, names, False, memo):
                heads += [(p, body) for p in plain] + [(m, x, body) for m in named for x in names]
        tails = seqs(n - first, leaf, plain, named, names, False, memo) if n > first else [()]
        for h in heads:
            for t in tails: res.append((h,) + t)
    memo[n] = res
    return res
def lazy(n, leaf, plain, named, names):
    memo = {}
    for first in range(1, n + 1):
        tails = seqs(n - first, leaf, plain, named, names, False, memo) if n > first else [()]
        if first == 1: heads = [(l, x) for l in leaf for x in names]
        else: heads = (h for body in seqs(first - 1, leaf, plain, named, names, False, memo)
                       for h in [(p, body) for p in plain] + [(m, x, body) for m in named for x in names])
        for h in heads:
            for t in tails: yield (h,) + t

def first_name(t):
    for st in t:
        if len(st) > 1 and isinstance(st[1], str): return st[1]
        for x in st[1:]:
            if isinstance(x, tuple):
                f = first_name(x)
                if f: return f
    return None
def has(t, kinds):
    return any(st[0] in kinds or any(isinstance(x, tuple) and has(x, kinds) for x in st[1:]) for st in t)
def useful(t): return has(t, ("R", "C"))

def run():
    ck = common.Check("L05")
    b = batch.Batch(preload="import io\n")
    def mk(t, name):
        if first_name(t) == "b": return None
        module = name.startswith("module") or name.startswith("reject module")
        try: c = Case(t, {"lit": 0, "run": 1, "mix": 2}[name.split()[-1]], module)
        except Skip: return None
        if c.err != name.startswith("reject"): return None
        if not c.err and not useful(t): return None
        return c
    N = "ab"
    allk = (LEAF, PLAIN, NAMED, N)
    def upto(n, *a): return itertools.chain(*(lazy(i, *a) for i in range(1, n + 1)))
    fams = [("function lit", upto(4, *allk)), ("function run", upto(4, *allk)),
            ("module mix", upto(3, *allk)), ("module lit", upto(3, *allk)),
            ("reject module lit", upto(3, *allk)), ("reject function lit", upto(3, *allk)),
            ("module mix", lazy(4, ["D", "K", "A", "R"], PLAIN, ["forc", "F"], N)),
            ("reject module lit", lazy(4, ["D", "A", "R"], PLAIN, ["forc", "F"], N)),
            ("function mix", lazy(5, ["D", "A", "R"], PLAIN, ["forv", "par"], N)),
            ("function lit", lazy(5, ["D", "K", "R"], ["do", "fun2"], ["F"], N)),
            ("function run", lazy(6, ["D", "I", "R"], ["fun2", "later"], ["forv"], "a")),
            ("function mix", lazy(6, ["D", "A", "R"], ["do", "fun2"], [], N))]
    blk, fns = sorted(BLK), sorted(FNS)
    fams += [("function mix", upto(4, ["D", "A", "R"], blk + fns, [], N)), ("function lit", upto(4, ["D", "K", "R"], blk + fns, [], N)),
             ("module run", upto(3, ["D", "A", "R"], blk + fns, ["F"], N)), ("reject module lit", upto(3, ["D", "A", "R"], blk + fns, [], N)),
             ("function run", lazy(5, ["D", "I", "R"], ["later", "fun2"] + blk[:5] + fns, [], "a")), ("function run", lazy(5, ["D", "I", "R"], ["later", "do"] + blk[5:], ["par"], "a"))]
    fams += [("function mix", lazy(5, *allk))]
    if not ck.quick:
        fams += [("function mix", lazy(5, ["D", "A", "R"], blk + fns + ["later"], ["par", "F"], N)), ("function mix", lazy(6, ["D", "A", "R"], ["fun2", "later"], ["F", "forv"], N)), ("module lit", lazy(4, *allk)), ("reject module lit", lazy(4, *allk)),
                 ("function run", lazy(6, ["D", "A", "R"], PLAIN, ["par"], N)), ("function lit", lazy(7, ["D", "I", "R"], ["do", "fun2", "later"], [], "a"))]
    cases.statement_families(ck, b, Lang, fams, mk, group=lambda name: 1 if "module" in name or "reject" in name else 24)
    ck.assumptions = ["variables belong to a function activation; iterations of a loop in the same activation share them (as the repository's tests require)",
                      "the value of a captured loop or catch variable after its statement is not specified"]
    ck.finish()
common.main(run)
