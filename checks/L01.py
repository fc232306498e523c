#!/usr/bin/env python3
"""All operator applications over boundary values, operands only known at run time, against the reference model."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases
from kosval import *

INTS = [0, 1, -1, 2, -2, 3, -3, 7, 10, -10, 31, 32, 62, 63, 64, 65, -62, -63, -64, -65, 127, 128, -128, -129, 255, 256, 32767, -32768, 65536,
        2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**53 - 1, 2**53, 2**53 + 1, -2**53 - 1, 2**61, 2**62 - 1, 2**62, -2**62, -2**62 - 1,
        2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 0x5555555555555555, -0x123456789ABCDEF]
FLTS = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 2.0, 2.9, -2.1, 63.9, 64.0, -63.5, 1e10, 2.0**53, 2.0**62, -2.0**62, 9.2e18, 2.0**63, -2.0**63, -9.3e18,
        1e300, -1e300, 5e-324, 1.7976931348623157e308]
STRS = ["", "a", "b", "ab", "A", "\x00", "\xe9", "\u0100", "\uffff", "\U00010000", "1", "a\U00010000"]
BINOPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]
UNOPS = ["-", "+", "~", "!", "typeof"]

def values(quick):
    ints = INTS if not quick else INTS
    v = [(src(x), x) for x in ints] + [(src(x), x) for x in FLTS] + [("inf", math.inf), ("-inf", -math.inf), ("nan", math.nan)]
    v += [(src(s), s) for s in STRS]
    v += [("void", None), ("true", True), ("false", False)]
    v += [("o1", Obj("o1", "object")), ("o2", Obj("o2", "object")), ("f1", Obj("f1", "function")), ("c1", Obj("c1", "class"))]
    return v

PRE = 'import math\n' + REP + '''
const inf = math.infinity
const nan = math.nan
const o1 = {}
const o2 = {}
const f1 = fun(x) { return x }
const c1 = class { }
'''

def run():
    ck = common.Check("L01")
    b = batch.Batch(san=False, preload="import io\nimport math\nimport threads\n")
    vs = values(ck.quick)
    arr = "const V = [" + ", ".join("(%s)" % s for s, _ in vs) + "]\n"
    cs = []
    sentinel = [Obj("a1", "array"), Obj("b1", "buffer")]
    def tryrep(fn, *a):
        try: r = fn(*a)
        except Err: return "E"
        return "?" if r is None and fn is compare_ else rep(r)
    def compare_(op, a, b): return compare(op, a, b)
    for op in BINOPS:
        prog = PRE + arr + '''
const op = fun(a, b) { return a %s b }
for const a in V {
    for const b in V {
        try { print(rep(op(a, b))) } catch const e { print("E") }
    }
}
''' % op
        exp = []
        skip = set()
        for sa, a in vs:
            for sb, bb in vs:
                if op in ("<", "<=", ">", ">=") and compare(op, a, bb) is None:
                    skip.add(len(exp)); exp.append("*"); continue
                if op in ("&", "|", "^", "<<", ">>", ">>>") and (isinstance(a, float) and a != a or isinstance(bb, float) and bb != bb) and isnum(a) and isnum(bb):
                    # NaN to integer is not defined by the language
                    skip.add(len(exp)); exp.append("*"); continue
                try: exp.append(rep(binop(op, a, bb)))
                except Err: exp.append("E")
        cs.append(("binary " + op, prog, exp, skip, vs))
    # comparisons deciding a branch must agree with their value
    for op in ["==", "!=", "<", "<=", ">", ">="]:
        prog = PRE + arr + """
for const a in V {
    for const b in V {
        const v = a @ b
        var r = ""
        if a @ b { r += "1" } else { r += "0" }
        if ! (a @ b) { r += "0" } else { r += "1" }
        r += a @ b ? "1" : "0"
        while a @ b { r += "1"
            break }
        if a @ b && true { r += "1" } else { r += "0" }
        if a @ b || false { r += "1" } else { r += "0" }
        const w = ! (a @ b)
        print(v == true && w == false ? r == "111111" : (v == false && w == true ? r == "00000" : false))
    }
}
""".replace("@", op)
        cs.append(("branch " + op, prog, ["true"] * (len(vs) ** 2), set(), vs))
    # order relations are consistent with each other for numbers and strings, including ones built at run time
    # compound assignment forms
    for op in ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>"]:
        sub = [x for x in vs if not (isinstance(x[1], float) and x[1] != x[1])]
        if ck.quick: sub = sub[::2]
        arr2 = "const V = [" + ", ".join("(%s)" % s for s, _ in sub) + "]\n"
        prog = PRE + arr2 + '''
for const a in V {
    for const b in V {
        var x = a
        const o = { p: a }
        const l = [a]
        var r = ""
        try { x %s= b
              r += rep(x) } catch const e { r += "E" }
        try { o.p %s= b
              r += " " + rep(o.p) } catch const e { r += " E" }
        try { l[0] %s= b
              r += " " + rep(l[0]) } catch const e { r += " E" }
        print(r)
    }
}
''' % (op, op, op)
        exp = []
        for sa, a in sub:
            for sb, bb in sub:
                try: r = rep(binop(op, a, bb))
                except Err: r = "E"
                exp.append("%s %s %s" % (r, r, r))
        cs.append(("assign " + op, prog, exp, set(), sub))
    for op in UNOPS:
        prog = PRE + arr + '''
const op = fun(a) { return %s a }
for const a in V { try { print(rep(op(a))) } catch const e { print("E") } }
''' % op
        exp, skip = [], set()
        for sa, a in vs:
            if op == "~" and isinstance(a, float) and a != a: skip.add(len(exp)); exp.append("*"); continue
            try: exp.append(rep(unop(op, a)))
            except Err: exp.append("E")
        cs.append(("unary " + op, prog, exp, skip, None))
    # type conversions
    conv = {"boolean": lambda a: truthy(a)}
    def c_int(a):
        if isnum(a): return toint(a)
        raise Err()
    def c_flt(a):
        if isnum(a): return float(a)
        raise Err()
    def c_num(a):
        if isnum(a): return a
        raise Err()
    nonstr = [x for x in vs if not isinstance(x[1], str) and not (isinstance(x[1], float) and x[1] != x[1])]
    for name, fn in (("boolean", truthy), ("integer", c_int), ("float", c_flt), ("number", c_num)):
        use = vs if name == "boolean" else nonstr
        prog = PRE + "const V = [" + ", ".join("(%s)" % s for s, _ in use) + "]\n" + "for const a in V { try { print(rep(%s(a))) } catch const e { print(\"E\") } }\n" % name
        exp = []
        for s, a in use:
            try: exp.append(rep(fn(a)))
            except Err: exp.append("E")
        cs.append(("convert " + name, prog, exp, set(), None))
    # integer -> string -> integer, and array / buffer comparison by contents (same object must be equal to itself)
    prog = PRE + "const V = [" + ", ".join(src(i) for i in INTS) + "]\nfor const a in V { print(string(a), integer(string(a)) == a, number(string(a)) == a) }\n"
    cs.append(("int to string", prog, ["%d true true" % i for i in INTS], set(), None))
    # conditional operator and conditions see the same truthiness
    prog = PRE + arr + '''
for const a in V {
    var r = a ? "T" : "F"
    if a { r += "T" } else { r += "F" }
    if ! a { r += "F" } else { r += "T" }
    var n = 0
    while a { n += 1
              break }
    r += n ? "T" : "F"
    repeat { n += 1
             if n > 2 { break } } while a
    print(r, n > 2 ? "T" : "F")
}
'''
    exp = []
    for s, a in vs:
        t = "T" if truthy(a) else "F"
        exp.append(t * 4 + " " + t)
    cs.append(("truthiness", prog, exp, set(), None))
    # run; positions whose result the documentation leaves open only need to be the same error/no crash
    res = b.run([c[1] for c in cs], chunk=1)
    outs = set()
    for (key, prog, exp, skip, use), r in zip(cs, res):
        ck.traces += 1
        got = r.out.split("\n")[:-1] if r.out.endswith("\n") else r.out.split("\n")
        if r.status != "ok" or len(got) != len(exp):
            ck.violation(key, "program ended with %s after %d of %d cases: %s" % (r.status, len(got), len(exp), r.out[-200:]), {"program": prog}); continue
        for i, (g, e) in enumerate(zip(got, exp)):
            ck.transitions += 1
            outs.add((key, g))
            if i in skip: continue
            if g != e:
                what = key
                if use: what = "%s: %s, %s" % (key, use[i // len(use)][0], use[i % len(use)][0])
                ck.violation("%s#%d" % (key, i), "%s -> %s, expected %s" % (what, g, e), {"program": prog}); break
    ck.states = len(outs)
    ck.sample({"operators": BINOPS + UNOPS, "values": [s for s, _ in vs][:40]})
    ck.sample({"case": "5 / -2", "expected": rep(binop("/", 5, -2))})
    ck.extra["bounds"] = "%d x %d operand values (all pairs) for %d binary operators, run-time operands, compound assignments to variable/property/element" % (len(vs), len(vs), len(BINOPS))
    ck.assumptions = ["results for NaN converted to integer and for ordering values of unrelated types are not specified and not compared"]
    ck.finish()
common.main(run)
