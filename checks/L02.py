#!/usr/bin/env python3
"""Constant operands and constant conditions must behave like run-time ones: all operators over boundary values in constant / mixed
forms, all boolean expression trees with constants and effects in every context, and control statements with constant conditions."""
import os, sys, math, itertools, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases, stmts
from kosval import *

INTS = [0, 1, -1, 2, -3, 7, 62, 63, 64, 65, -62, -63, -64, -65, 127, 128, -128, -129, 2**31 - 1, 2**31, 2**53 + 1, 2**62, 2**63 - 1, -2**63, -2**63 + 1, 0x5555555555555555]
FLTS = [0.0, -0.0, 0.5, -0.5, 1.0, -1.5, 2.9, 64.0, 2.0**53, 9.2e18, 2.0**63, -2.0**63, 1e300, 5e-324, 1.7976931348623157e308]
STRS = ["", "a", "b", "\U00010000"]
BINOPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]
UNOPS = ["-", "+", "~", "!", "typeof"]
VALS = [(src(x), x) for x in INTS + FLTS + STRS] + [("void", None), ("true", True), ("false", False)]
FORMS = ["lit-lit", "const-const", "lit-run", "run-lit", "outer-const", "var-var"]

def expect(fn, *a):
    try: r = fn(*a)
    except Err: return "E"
    return rep(r)

def expr(form, op, a, b, k):
    """declarations before, expression"""
    if form == "lit-lit": return "", "(%s) %s (%s)" % (a, op, b)
    if form == "const-const": return "const a%d = %s\nconst b%d = %s\n" % (k, a, k, b), "a%d %s b%d" % (k, op, k)
    if form == "lit-run": return "", "(%s) %s id(%s)" % (a, op, b)
    if form == "run-lit": return "", "id(%s) %s (%s)" % (a, op, b)
    if form == "outer-const": return "const a%d = %s\nvar b%d = %s\n" % (k, a, k, b), "(fun { return a%d %s b%d })()" % (k, op, k)
    return "var a%d = %s\nvar b%d = %s\n" % (k, a, k, b), "a%d %s b%d" % (k, op, k)

PRE = REP + "const id = fun(x) { return x }\n"
def stmt(form, op, a, b, k):
    d, e = expr(form, op, a, b, k)
    return "do {\n%stry { print(rep(%s)) } catch const e { print(\"E\") }\n}\n" % (d, e)

def grid(ck, b):
    groups, singles = [], []
    for op in BINOPS:
        for form in FORMS:
            for sa, a in VALS:
                items = []
                for k, (sb, bv) in enumerate(VALS):
                    if op in ("<", "<=", ">", ">=") and compare(op, a, bv) is None: continue
                    e = expect(binop, op, a, bv)
                    it = ("%s %s %s [%s]" % (sa, op, sb, form), stmt(form, op, sa, sb, k), e)
                    (singles if e == "E" else items).append(it)
                groups.append(items)
        for form in ("lit", "const", "run"):
            pass
    for op in UNOPS:
        for sa, a in VALS:
            e = expect(unop, op, a)
            singles.append(("%s %s" % (op, sa), "try { print(rep(%s (%s))) } catch const e { print(\"E\") }\n" % (op, sa), e))
            singles.append(("%s const %s" % (op, sa), "const a = %s\ntry { print(rep(%s a)) } catch const e { print(\"E\") }\n" % (sa, op), e))
            singles.append(("%s fun const %s" % (op, sa), "const a = %s\nconst f = fun { return %s a }\ntry { print(rep(f())) } catch const e { print(\"E\") }\n" % (sa, op), e))
    res = b.run([PRE + "".join(x[1] for x in g) for g in groups], chunk=8)
    bad = []
    for g, r in zip(groups, res):
        ck.traces += 1; ck.transitions += len(g)
        if r.status != "ok" or r.out.split("\n")[:-1] != [x[2] for x in g]: bad.append(g)
        ck.states += len(g)
    for g in bad[:20]: singles.extend(g)
    res = b.run([PRE + x[1] for x in singles], chunk=64)
    for (key, prog, e), r in zip(singles, res):
        ck.traces += 1; ck.transitions += 1; ck.states += 1
        if r.status == "ok" and r.out == e + "\n": continue
        if e == "E" and r.status == "exc" and "EXC:t:" in r.out: continue          # certain failure reported by the compiler
        ck.violation("operator " + key, "%s %s, expected %s" % (r.status, r.out.strip()[-200:], e), {"program": PRE + prog})
    if bad and not ck.viol:
        ck.violation("operator group", "constants give other results together than alone", {"program": PRE + "".join(x[1] for x in bad[0])})
    ck.sample({"expression": "7 >>> (-65)", "forms": FORMS, "expected": expect(binop, ">>>", 7, -65)})
    return len(groups) + len(singles)

# --- boolean expression trees -------------------------------------------------------------------------------------------
LEAF = [("t", True), ("t", False), ("l", "true", True), ("l", "false", False), ("l", "0", 0), ("l", "\"\"", ""), ("l", "kN", None)]
def trees(depth, leaf):
    if depth == 0:
        yield from leaf; return
    inner = list(trees(depth - 1, leaf))
    for k, n in (("&&", 2), ("||", 2), ("?:", 3), ("!", 1), ("==", 2), ("[]", 2), ("[]i", 2), ("{}", 2), ("typeof", 1), (",", 2), ("fn", 2), ("cls", 2)):
        for pos in range(n):
            for x in inner:
                for oth in itertools.product(leaf, repeat=n - 1):
                    yield ("op", k) + oth[:pos] + (x,) + oth[pos:]

CTX = ["value", "drop", "unused", "if", "ifnot", "while", "return", "assign", "arg"]
class ExprCase:
    def __init__(self, tree, ctx):
        self.tree, self.ctx, self.n, self.out = (ctx, tree), ctx, 0, []
        s, f = self.render(tree)
        self.f = f
        self.lines = {"value": ["o.push(rp(%s))" % s], "drop": ["(void) == (%s)" % s, "t(90)"],
                      "unused": ["const u = %s" % s, "var w = %s" % s, "w = %s" % s, "t(91)"],
                      "if": ["if %s { t(1000) } else { t(2000) }" % s], "ifnot": ["if ! (%s) { t(1000) } else { t(2000) }" % s],
                      "while": ["while %s { t(1000)" % s, "break }", "repeat { t(3000)", "if o.size > 60 { break } } while %s" % s],
                      "return": ["return rp(%s)" % s], "assign": ["var x = 5", "x = %s" % s, "const y = x", "o.push(rp(y))"],
                      "arg": ["const g = fun(p, q) { return q }", "o.push(rp(g(%s, 7)))" % s]}[ctx]
        if ctx == "while": self.lines = self.lines[:2]
    def render(self, t):
        out = self.out
        if t[0] == "t":
            self.n += 1; n = self.n
            def run(): out.append(n); return t[1]
            return "t%s(%d)" % ("T" if t[1] else "F", n), run
        if t[0] == "l":
            return t[1], lambda: t[2]
        k = t[1]
        xs = [self.render(x) for x in t[2:]]
        s = ["(%s)" % x[0] for x in xs]; f = [x[1] for x in xs]
        if k == "&&":
            def run():
                a = f[0](); return f[1]() if truthy(a) else a
            return "%s && %s" % (s[0], s[1]), run
        if k == "||":
            def run():
                a = f[0](); return a if truthy(a) else f[1]()
            return "%s || %s" % (s[0], s[1]), run
        if k == "?:": return "%s ? %s : %s" % tuple(s), lambda: f[1]() if truthy(f[0]()) else f[2]()
        if k == "!": return "! %s" % s[0], lambda: not truthy(f[0]())
        if k == "==":
            def run():
                a = f[0](); b = f[1](); return equal2(a, b)
            return "%s == %s" % (s[0], s[1]), run
        if k == "[]": return "[%s, %s]" % (xs[0][0], xs[1][0]), lambda: [f[0](), f[1]()]
        if k == "[]i":
            def run():
                a = f[0](); return (a, f[1]())[1]
            return "[%s, %s][1]" % (xs[0][0], xs[1][0]), run
        if k == "{}":
            def run():
                a = f[0](); f[1](); return a
            return "{ a: %s, b: %s }.a" % (xs[0][0], xs[1][0]), run
        if k == "typeof":
            def run():
                v = f[0]()
                return "array" if isinstance(v, list) else typ(v)
            return "typeof %s" % s[0], run
        if k == "fn":
            def run():
                f[0](); f[1](); return Obj("f", "function")
            return "fun(p = %s, q = %s) { return p }" % (xs[0][0], xs[1][0]), run
        if k == "cls":
            def run():
                f[0](); f[1](); return Obj("c", "class")
            return "class { var p = %s\n fun m(q = %s) { } }" % (xs[0][0], xs[1][0]), run
        if k == ",":
            def run():
                a = f[0](); b = f[1](); return st2(a) + st2(b)
            return "(\"\\(sv(%s))\\(sv(%s))\")" % (s[0], s[1]), run
    def expected(self):
        out, f = self.out, self.f
        del out[:]
        c = self.ctx
        if c == "value": out.append(rep(f()).replace(" ", ""))
        elif c == "drop": f(); out.append(90)
        elif c == "unused":
            for i in range(3): f()
            out.append(91)
        elif c == "if": out.append(1000 if truthy(f()) else 2000)
        elif c == "ifnot": out.append(2000 if truthy(f()) else 1000)
        elif c == "while":
            if truthy(f()): out.append(1000)
        elif c == "return": out.append("=" + rep(f()).replace(" ", "")); return " ".join(map(str, out))
        elif c == "assign": out.append(rep(f()).replace(" ", ""))
        elif c == "arg": f(); out.append("i7")
        out.append("=void")
        return " ".join(map(str, out))

def equal2(a, b):
    ref = lambda v: isinstance(v, (list, Obj))
    if ref(a) or ref(b): return None if ref(a) and ref(b) else False
    return equal(a, b)
def st2(v): return rep(v).replace(" ", "")

class ExprLang:
    PRE = stmts.PRELUDE + REP + r'''
const tT = fun(n) { o.push(n)
    return true }
const tF = fun(n) { o.push(n)
    return false }
const rp = fun(v) { return [split(rep(v))...] -> joinp }
const kN = void
'''
    @staticmethod
    def valid(t): return True
    @staticmethod
    def group_program(cs):
        out = [ExprLang.PRE]
        for c in cs:
            out.append("do {\nconst f = fun {\n" + "\n".join(c.lines) + "\n}\ntry { done(\"=\", f()) } catch const e { done(\"!\", show(e, 0)) }\n}\n")
        return "".join(out)
ExprLang.PRE = ExprLang.PRE.replace("const rp = fun(v) { return [split(rep(v))...] -> joinp }", '''const rp = fun(v) {
    const r = rep(v)
    var s = ""
    for const i in range(r.size) { if r[i] != " " { s += r[i] } }
    return s
}
const sv = rp''')

TRUE = ["true", "1", "! false", "\"a\" == \"a\"", "! void", "kT", "1 < 2", "typeof 1 == \"integer\"", "true && 1", "c(false) || true", "\"\"", "[]", "{}", "0.5", "! kF", "c(true) && true", "fun { }"]
FALSE = ["false", "0", "! true", "\"a\" == \"b\"", "void", "kF", "2 < 1", "typeof 1 == \"float\"", "true && 0", "c(false) && true", "0.0", "! kT", "false || void", "-0.0", "c(true) && false", "! []"]

def run():
    ck = common.Check("L02")
    b = batch.Batch(preload="import io\n")
    n = grid(ck, b)
    b1 = "%d operand values, all pairs x %d operators x %d constant forms" % (len(VALS), len(BINOPS), len(FORMS))
    if not ck.viol:
        fams = []
        leaf2 = LEAF if not ck.quick else [LEAF[i] for i in (0, 1, 2, 4, 6)]
        for ctx in CTX:
            fams.append((ctx, itertools.chain(trees(0, LEAF), trees(1, LEAF), trees(2, leaf2))))
        ExprLang.valid = staticmethod(lambda t: not has_undef(t))
        cases.statement_families(ck, b, ExprLang, fams, lambda t, ctx: ExprCase(t, ctx), group=40)
        b2 = ck.extra.pop("bounds")
    if not ck.viol:
        styles = max(len(TRUE), len(FALSE))
        def mk(t, name):
            if name.startswith("style"):
                i = int(name.split()[1])
                return stmts.Case(t, cond=lambda c, n: (TRUE[i % len(TRUE)] if c else FALSE[i % len(FALSE)]))
            return stmts.Case(t, cond=lambda c, n: TRUE[n % len(TRUE)] if c else FALSE[n % len(FALSE)])
        stmts.PRELUDE += "const kT = true\nconst kF = false\n"
        stmts.Case.switchval = lambda self, v: str(v)
        hasc = lambda g: (t for t in g if cond_in(t))
        fams = [("style %d" % i, hasc(itertools.chain(stmts.build(1), stmts.build(2, side=[("t",)])))) for i in range(styles)]
        side = [("t",), ("ret",)] if ck.quick else [("t",), ("ret",), ("thr",)]
        lv = [("t",), ("ret",), ("brk",), ("cont",)] + ([] if ck.quick else [("thr",)])
        fams.append(("depth3", hasc(stmts.build(3, leaves=lv, kinds=("for", "loop", "repeat", "try", "switch", "ifx", "if", "zero", "seq", "defer"), side=side))))
        cases.statement_families(ck, b, stmts, fams, mk)
        ck.extra["bounds"] = "%s; expressions: %s; statements: %s" % (b1, b2, ck.extra.get("bounds"))
    ck.assumptions = ["an operation on constants that is certain to throw may be rejected at compile time instead"]
    ck.finish()

def cond_in(t):
    return t[0] in ("if", "ifx", "zero", "elif", "elifx") or t[0] in stmts.SW or any(cond_in(x) for x in t[1:] if isinstance(x, tuple))
def has_undef(t):
    """equality of two arrays is not compared"""
    def maybe(x): return x[0] == "op" and (x[1] in ("[]", "fn", "cls") or x[1] in ("&&", "||", "?:", "[]i", "{}") and any(maybe(y) for y in x[2:]))
    if t[0] != "op": return False
    if t[1] == "==" and maybe(t[2]) and maybe(t[3]): return True
    return any(has_undef(x) for x in t[2:])
common.main(run)
