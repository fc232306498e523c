#!/usr/bin/env python3
"""Argument binding: every signature (required/default/ellipsis, each parameter unused/read/captured/assigned) times every call shape and
form, compared with the binding rules; including signatures around the limit of register arguments."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases
from kosval import rep, REP

USES = "-rwcm"      # unused, read, assigned then read, read by a closure, modified by a closure
PRE = REP + r'''
const v = fun(x) { return x }
const o = {}
const rt = fun(x) {
    switch typeof x {
        case "void" { return "void" }
        case "integer" { return "int" }
        case "object" { return x == o ? "o" : "other" }
        default { return typeof x }
    }
}
'''

class Sig:
    def __init__(self, nreq, ndef, use, ell, this, kind):
        self.nreq, self.ndef, self.use, self.ell, self.this, self.kind = nreq, ndef, use, ell, this, kind
        self.n = nreq + ndef
        used = [i for i, u in enumerate(use) if u != "-"]
        self.neff = self.n if ell in "rc" else (used[-1] + 1 if used else 0)
        self.reqeff = min(nreq, self.neff)
    def source(self):
        ps = ["p%d" % i for i in range(self.nreq)] + ["p%d = %s" % (i, ("%d" if i % 2 else "v(%d)") % (100 + i)) for i in range(self.nreq, self.n)]
        if self.ell != "n": ps.append("e...")
        pre, res = [], []
        for i, u in enumerate(self.use):
            if u == "w": pre.append("p%d += 1000" % i)
            if u == "m": pre.append("const q%d = fun { p%d += 500 }\nq%d()" % (i, i, i))
            if u == "c": pre.append("const c%d = fun { return p%d }" % (i, i)); res.append("c%d()" % i)
            elif u != "-": res.append("p%d" % i)
        if self.ell == "r": res.append("e")
        if self.ell == "c": pre.append("const ce = () => e"); res.append("ce()")
        if self.this == "r": res.append("rt(this)")
        if self.this == "c": pre.append("const ct = () => rt(this)"); res.append("rt(this)")
        body = "\n".join(pre) + ("\n" if pre else "")
        out = "[" + ", ".join(res) + "]"
        args = "(" + ", ".join(ps) + ")" if ps else ""
        if self.kind == "ctor": return "const f = class { constructor%s {\n%sthis.r = %s } }\n" % (args, body, out)
        return "const f = fun%s {\n%s%s %s }\n" % (args, body, "yield" if self.kind == "gen" else "return", out)
    def result(self, vals, extra, this):
        """vals: values by position, missing ones None"""
        r = []
        for i, u in enumerate(self.use):
            if u == "-": continue
            x = vals[i] if vals[i] is not None else 100 + i
            r.append(x + {"w": 1000, "m": 500}.get(u, 0))
        if self.ell in "rc": r.append(list(extra))
        if self.this != "-": r.append("other" if self.kind == "ctor" else this)
        return rep(r)
    def pos(self, args, this):
        if len(args) < self.reqeff: return "E"
        vals = [args[i] if i < len(args) else None for i in range(self.n)]
        return self.result(vals, args[self.n:], this)
    def named(self, d, this):
        if any(not (k.startswith("p") and int(k[1:]) < self.n) for k in d): return "E"
        vals = [d.get("p%d" % i) for i in range(self.n)]
        if any(vals[i] is None for i in range(self.reqeff)): return "E"
        return self.result(vals, [], this)

def call_text(kind, form, args):
    """expression whose value is the result array"""
    if form == "plain": e = "f(%s)" % args
    elif form == "tail": e = "(fun { return f(%s) })()" % args
    elif form == "method": e = "o.f(%s)" % args
    elif form == "elem": e = "o[v(\"f\")](%s)" % args
    elif form == "async": e = "(async f(%s)).wait()" % args
    elif form == "asyncm": e = "(async o.f(%s)).wait()" % args
    elif form == "array": e = "[f][0](%s)" % args
    if kind == "gen": return (e + "()") if not form.startswith("async") else None
    if kind == "ctor": return "(%s).r" % e
    return e
THIS = {"plain": "void", "tail": "void", "method": "o", "elem": "o", "async": "void", "asyncm": "o"}

def spreads(args):
    """all ways to write the list with up to two spread segments (possibly empty)"""
    n = len(args); s = [str(a) for a in args]
    for i in range(n + 1):
        for j in range(i, n + 1):
            one = s[:i] + ["[" + ", ".join(s[i:j]) + "]..."] + s[j:]
            yield ", ".join(one)
            for k in range(j, n + 1):
                for l in range(k, n + 1):
                    if (k == l and i == j): continue
                    yield ", ".join(s[:i] + ["[" + ", ".join(s[i:j]) + "]..."] + s[j:k] + ["[" + ", ".join(s[k:l]) + "]..."] + s[l:])

def calls(sig, quick, big):
    kind = sig.kind
    n = sig.n
    forms = ["plain", "tail", "method"] + ([] if big else ["elem"])
    if kind == "ctor": forms = ["plain", "tail"]
    if n <= 1 and kind == "fun" and not big: forms += ["async", "asyncm"]
    lens = range(0, n + 3) if not big else sorted(set(x for x in (0, sig.nreq - 1, sig.nreq, sig.nreq + 1, 30, 31, 32, 33, n - 2, n - 1, n, n + 1, n + 3) if x >= 0))
    for k in lens:
        args = list(range(1, k + 1))
        txt = ", ".join(str(a) if a % 2 else "v(%d)" % a for a in args)
        for form in forms:
            e = call_text(kind, form, txt)
            if e: yield e, sig.pos(args, THIS[form])
        if kind != "gen" or True:
            e = "f.apply(5, [%s])" % txt
            if kind == "gen": yield e + "()", sig.pos(args, "int")
            elif kind == "ctor":
                # apply on a constructor binds the given object
                yield "f.apply({}, [%s]).r" % txt, sig.pos(args, "void")
            else: yield e, sig.pos(args, "int")
        sp = spreads(args) if not big and k <= (3 if quick else 4) and n <= 2 else ["[%s]..." % txt, ", ".join(filter(None, ["[%s]..." % ", ".join(map(str, args[:k // 2])), ", ".join(map(str, args[k // 2:]))])),
               ", ".join(map(str, args[:k // 2])) + (", " if k > 1 else "") + "[%s]..." % ", ".join(map(str, args[k // 2:]))]
        for s in sp:
            yield call_text(kind, "plain", s), sig.pos(args, "void")
        if k and not big: yield call_text(kind, "method" if kind != "ctor" else "plain", "range(1, %d)..." % (k + 1)), sig.pos(args, "o")
    names = ["p%d" % i for i in range(n)]
    def nm(d, form):
        e = call_text(kind, form, ", ".join("%s = %d" % (k, x) for k, x in d.items()))
        return e, sig.named(d, THIS[form])
    if not big:
        for r in range(n + 1):
            for sub in itertools.combinations(range(n), r):
                if r and n:
                    for perm in (itertools.permutations(sub) if r <= 3 else [sub]):
                        d = {"p%d" % i: 50 + i for i in perm}
                        for form in (forms[:3] if list(perm) == sorted(perm) else forms[:1]): yield nm(d, form)
        yield nm({"z9"[:0] + "p9": 1}, "plain")
        if n: yield nm({"p0": 1, "p9": 2}, "plain")
        if sig.ell != "n":
            yield call_text(kind, "plain", ", ".join(["p%d = 1" % i for i in range(n)] + ["e = 3"])), "E"
    else:
        full = {k: 50 + i for i, k in enumerate(names)}
        yield nm(full, "plain")
        yield nm(dict(reversed(list(full.items()))), "plain")
        for i in range(n):
            if i < 2 or i >= 28:
                yield nm({k: x for k, x in full.items() if k != "p%d" % i}, "plain")
        for i in range(28, n):
            for j in range(i + 1, n):
                yield nm({k: x for k, x in full.items() if k not in ("p%d" % i, "p%d" % j)}, "plain")
        if sig.nreq: yield nm({k: x for k, x in full.items() if int(k[1:]) < sig.nreq}, "method" if kind != "ctor" else "plain")
        for i in range(sig.nreq, n):
            yield nm({k: x for k, x in full.items() if int(k[1:]) < sig.nreq or int(k[1:]) == i}, "plain")

def block(sig, quick, big):
    out = ["do {\n", sig.source()]
    if sig.kind != "ctor": out.append("o.f = f\n")
    exp, calls_ = [], []
    for e, x in calls(sig, quick, big):
        if sig.kind == "ctor" and "apply" in e and sig.this != "-": continue
        out.append("try { print(rep(%s)) } catch const e { print(\"E\") }\n" % e)
        exp.append(x); calls_.append(e)
    out.append("}\n")
    return "".join(out), exp

def small(quick):
    for n in range(0, 4):
        for nreq in range(n + 1):
            for use in itertools.product(USES, repeat=n):
                if n == 3 and quick and sum(u in "wm" for u in use) > 1: continue
                for ell in "n-rc":
                    for this in ("-", "r", "c") if n <= 1 else (("-",) if n == 3 else ("-", "r")):
                        for kind in ("fun", "gen", "ctor"):
                            if n == 3 and kind != "fun" and (quick or "w" in use): continue
                            yield Sig(nreq, n - nreq, use, ell, this, kind)

def large(quick):
    for n in ([31, 32, 33, 34] if quick else range(29, 37)):
        for nreq in sorted(set([0, 1, 29, 30, 31, 32, 33, n - 3, n - 1, n]) if quick else range(0, n + 1)):
            if nreq > n: continue
            pats = ["r" * n, "c" * n, "-" * (n - 1) + "r", "-" * (n - 2) + "c-", "w" * n, "rc" * (n // 2) + "r" * (n % 2), "r" * (n - 2) + "--"]
            for i in (29, 30, 31, 32, 33):
                if i < n: pats += ["r" * i + "c" + "r" * (n - i - 1), "r" * i + "-" + "m" * (n - i - 1), "c" * i + "r" * (n - i)]
            for use in pats:
                for ell in "n-rc":
                    for kind in ("fun", "gen", "ctor") if not quick else ("fun",):
                        yield Sig(nreq, n - nreq, tuple(use), ell, "-", kind)

def defaults(cs):
    """default values are evaluated once, in order, where the function is created"""
    prog = PRE + r'''
const log = []
const d = fun(x) { log.push(x)
    return x }
const mk = fun { return fun(a, b = d(1), c = d(2), e...) { return [a, b, c, e] } }
const f = mk()
print(rep(log))
print(rep(f(0)), rep(f(0, 5)), rep(f(0, 5, 6, 7)), rep(f(a = 3, c = 9)))
print(rep(log))
const g = mk()
print(rep(log))
const acc = fun(x, l = []) { l.push(x)
    return l.size }
print(acc(1), acc(1), acc(1, [1, 2, 3]), acc(x = 1))
class K { constructor(a = d(7)) { this.a = a }
          fun m(a = d(8)) { return a } }
print(log.size, K().a, K().m(), K().a)
print(log.size)
log.resize(6)
try { const h = fun(a = d(10), b = [][d(11)], c = d(12)) { return c } } catch const e { print("E") }
print(rep(log.slice(6, void)))
const outer = fun(n) { return fun(a = n) { n += 1
    return [a, n] } }
const p = outer(1)
const q = outer(10)
print(rep(p()), rep(q()), rep(p()), rep(p(5)))
'''
    exp = [rep([1, 2]), " ".join([rep([0, 1, 2, []]), rep([0, 5, 2, []]), rep([0, 5, 6, [7]]), rep([3, 1, 9, []])]), rep([1, 2]), rep([1, 2, 1, 2]),
           "1 2 4 3", "6 7 8 7", "6", "E", rep([10, 11]),
           " ".join(rep(x) for x in ([1, 2], [10, 11], [1, 3], [5, 4]))]
    cs.append(("defaults", prog, exp))
    # evaluation order of callee, receiver and arguments, positional, named and spread
    prog = PRE + r'''
const log = []
const d = fun(x, y) { log.push(x)
    return y }
const f = fun(a, b, c = 0, e...) { log.push("call")
    return a + b * 10 + c * 100 + e.size * 1000 }
const ob = { f: f }
const show = fun(x) { print(x, rep(log))
    log.resize(0) }
show(d(1, f)(d(2, 1), d(3, 2)))
show(d(1, ob).f(d(2, 1), d(3, 2)))
show(d(1, ob)[d(2, "f")](d(3, 1), d(4, 2)))
show(f(b = d(1, 2), c = d(2, 3), a = d(3, 1)))
show(f(d(1, 1), d(2, [2, 3])..., d(3, 4), d(4, [5])...))
show(f(d(1, [1])..., d(2, 2)))
try { f(d(1, 1), void.x, d(3, 3)) } catch const e { show("E") }
try { d(0, void)(d(1, 1)) } catch const e { show("E") }
try { f(d(1, 1), d(2, 5)..., d(3, 1)) } catch const e { show("E") }
'''
    s = lambda *a: rep(list(a))
    exp = ["21 " + s(1, 2, 3, "call"), "21 " + s(1, 2, 3, "call"), "21 " + s(1, 2, 3, 4, "call"), "321 " + s(1, 2, 3, "call"),
           "2321 " + s(1, 2, 3, 4, "call"), "21 " + s(1, 2, "call"), "E " + s(1), "E " + s(0, 1), "E " + s(1, 2)]
    cs.append(("order", prog, exp))

def run():
    ck = common.Check("L04")
    b = batch.Batch(preload="import io\n")
    cs = []
    defaults(cs)
    for name, gen, big, per in (("small", small(ck.quick), False, 12), ("large", large(ck.quick), True, 3)):
        it = iter(gen); k = 0
        while True:
            sigs = list(itertools.islice(it, per))
            if not sigs: break
            prog, exp = [PRE], []
            for s in sigs:
                p, e = block(s, ck.quick, big)
                prog.append(p); exp += e
                ck.states += 1
            cs.append(("%s %d (%s)" % (name, k, "".join(sigs[0].use)), "".join(prog), exp)); k += 1
        ck.extra["bounds"] = ck.extra.get("bounds", "") + "%s: %d programs; " % (name, k)
    st = ck.states
    cases.compare(ck, b, cs, chunk=16)
    ck.states = st
    ck.sample({"program": cs[50][1][len(PRE):len(PRE) + 600], "expected": cs[50][2][:8]})
    ck.extra["bounds"] += "signatures of 0-3 parameters with every usage and split, and around the register limit (31-34); every argument count, spread split, name subset and call form"
    ck.assumptions = ["trailing parameters a function never uses are not part of its effective signature (existing behaviour)"]
    ck.finish()
common.main(run)
