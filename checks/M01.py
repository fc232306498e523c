#!/usr/bin/env python3
"""Regular expressions: all patterns up to a size against all short subjects, all character classes of a few ranges, all escapes, all
begin/end pairs and all short pattern strings are compared with a reference backtracking matcher and parser."""
import os, sys, itertools, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases

# ---- reference: AST -> matcher in continuation passing style. m(s, p, g, k) -> result of k or None. Alternatives are tried in order,
# greedy loops prefer one more turn, lazy loops prefer to leave; a turn beyond the minimum which consumed nothing is not repeated.
WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
class Subj:
    __slots__ = ("s", "b", "e")
    def __init__(self, s, b, e): self.s, self.b, self.e = s, b, e
def bnd(want):
    def t(s, p):
        pr = p > 0 and s.s[p - 1] in WORD
        nx = p < s.e and s.s[p] in WORD
        return ("n" if pr == nx else "e" if pr else "b") in want
    return t
ASSERT = {"^": lambda s, p: p == s.b or s.s[p - 1] in "\r\n", "$": lambda s, p: p == s.e or s.s[p] in "\r\n",
          "\\b": bnd("be"), "\\B": bnd("n"), "\\<": bnd("b"), "\\>": bnd("e")}
INF = 1 << 30
def comp(n):
    t = n[0]
    if t == "set":
        _, neg, f = n
        def m(s, p, g, k):
            if p < s.e and f(s.s[p]) != neg: return k(p + 1, g)
            return None
    elif t == "as":
        f = ASSERT[n[1]]
        def m(s, p, g, k): return k(p, g) if f(s, p) else None
    elif t == "seq":
        ms = [comp(x) for x in n[1]]
        if len(ms) == 1: return ms[0]
        def m(s, p, g, k, i=0):
            if i == len(ms): return k(p, g)
            return ms[i](s, p, g, lambda p2, g2: m(s, p2, g2, k, i + 1))
    elif t == "alt":
        ms = [comp(x) for x in n[1]]
        if len(ms) == 1: return ms[0]
        def m(s, p, g, k):
            for x in ms:
                r = x(s, p, g, k)
                if r is not None: return r
            return None
    elif t == "grp":
        i = n[1]; x = comp(n[2])
        if i is None: return x
        def m(s, p, g, k):
            return x(s, p, g, lambda p2, g2: k(p2, g2[:i] + ((p, p2),) + g2[i + 1:]))
    else:
        _, x, lo, hi, lazy = n
        x = comp(x)
        def m(s, p, g, k):
            def turn(c, p, g):
                def after(p2, g2):
                    if c + 1 < lo: return turn(c + 1, p2, g2)
                    if c + 1 >= hi or p2 == p: return k(p2, g2)
                    if lazy:
                        r = k(p2, g2)
                        return r if r is not None else turn(c + 1, p2, g2)
                    r = turn(c + 1, p2, g2)
                    return r if r is not None else k(p2, g2)
                return x(s, p, g, after)
            if lo: return turn(0, p, g)
            if lazy:
                r = k(p, g)
                return r if r is not None else turn(0, p, g)
            r = turn(0, p, g)
            return r if r is not None else k(p, g)
    return m
def find(m, ng, s, b=0, e=None):
    e = len(s) if e is None else e
    su = Subj(s, b, e)
    for p in range(b, e + 1):
        r = m(su, p, (None,) * ng, lambda p2, g: (p, p2, g))
        if r is not None: return r
    return None
def show(r):
    if r is None: return "-"
    return "%d,%d" % r[:2] + "".join(";" + ("-" if g is None else "%d,%d" % g) for g in r[2])

# ---- reference parser (the grammar in the documentation). Skip: the documentation and the code leave it open.
class Skip(Exception): pass
class Bad(Exception): pass
DIG = set("0123456789")
ESC = {"t": "\t", "n": "\n", "v": "\v", "f": "\f", "r": "\r"}
def one(c): return ("set", False, lambda x, c=c: x == c)
def parse(pat):
    i = 0; ng = 0
    n = len(pat)
    def peek(): return pat[i] if i < n else ""
    def alt(depth):
        nonlocal i
        r = [seq(depth)]
        while peek() == "|":
            i += 1; r.append(seq(depth))
        return ("alt", r)
    def number():
        nonlocal i
        j = i
        while peek() in DIG and peek(): i += 1
        if i == j: raise Bad
        v = int(pat[j:i])
        if v > 65535: raise Bad
        return v
    def cchar():
        nonlocal i
        c = peek()
        if not c: raise Bad
        i += 1
        if c == "\\":
            c = peek(); i += 1
            if not c: raise Bad
            if c in "]-\\[(^)\"": return c
            if c in ESC: return ESC[c]
            if c in "dDwWsSbBAZ<>" or c in DIG: raise Skip
            raise Bad if c not in ".*+?{$|" else Skip
        if c in "]-": raise Skip
        return c
    def seq(depth):
        nonlocal i, ng
        r = []
        while True:
            c = peek()
            if c in ("", "|"): return ("seq", r)
            if c == ")":
                if depth: return ("seq", r)
                raise Skip                        # the grammar allows it, the parser refuses it
            if c in "*+?{": raise Bad
            i += 1
            if c == ".": x = ("set", False, lambda x: True)
            elif c in "^$": x = ("as", c)
            elif c == "(":
                g = None
                if peek() == "?":
                    i += 1
                    if peek() != ":": raise Bad
                    i += 1
                else:
                    g = ng; ng += 1
                a = alt(depth + 1)
                if peek() != ")": raise Bad
                i += 1
                x = ("grp", g, a)
            elif c == "[":
                neg = peek() == "^"
                if neg: i += 1
                rs = []
                while True:
                    lo = cchar(); hi = lo
                    if peek() == "-":
                        i += 1; hi = cchar()
                    if lo > hi: raise Bad
                    rs.append((lo, hi))
                    if peek() == "]": i += 1; break
                x = ("set", neg, lambda x, rs=tuple(rs): any(lo <= x <= hi for lo, hi in rs))
            elif c == "\\":
                c = peek(); i += 1
                if not c: raise Bad
                if c in ".*+?{^$\\[]|()\"": x = one(c)
                elif c in "bB<>": x = ("as", "\\" + c)
                elif c in "dD": x = ("set", c == "D", lambda x: x in DIG)
                elif c in "wW": x = ("set", c == "W", lambda x: x in WORD)
                elif c in ESC: x = one(ESC[c])
                elif c in "sSAZ" or c in DIG: raise Skip         # in the grammar, not implemented yet
                else: raise Bad
            else: x = one(c)
            c = peek()
            if c and c in "*+?{":
                i += 1
                lo, hi = {"*": (0, INF), "+": (1, INF), "?": (0, 1), "{": (0, 0)}[c]
                if c == "{":
                    lo = hi = number()
                    if peek() == ",":
                        i += 1
                        if peek() == "}": hi = INF
                        else: hi = number()
                    if hi < lo or not hi: raise Bad
                    if peek() != "}": raise Bad
                    i += 1
                lazy = peek() == "?"
                if lazy: i += 1
                x = ("rep", x, lo, hi, lazy)
                if peek() and peek() in "*+?{": raise Bad
            r.append(x)
    a = alt(0)
    return comp(a), ng

# ---- programs
PRE = r'''import re.re
import re.clear_cache
import re.re_uncached
const show = fun(m, s) {
    if m == void { return "-" }
    var r = string(m.begin, ",", m.end)
    if m.match != s[m.begin:m.end] || m.string != s { r += "!" }
    if m.groups.size != m.match_groups.size { r += "#" }
    for const i in range(m.groups.size) {
        const g = m.groups[i]
        if g == void {
            r += ";-"
            if m.match_groups[i] != void { r += "!" }
        }
        else {
            r += string(";", g.begin, ",", g.end)
            if m.match_groups[i] != s[g.begin:g.end] { r += "!" }
        }
    }
    return r
}
const go = fun(p, subjects) {
    var r = void
    try { r = re_uncached(p) } catch const e { return "E" }
    var o = ""
    for const s in subjects {
        if o.size { o += " " }
        try { o += show(r.find(s), s) } catch const e { o += "X" }
    }
    return o
}
'''
def lit(s):
    o = '"'
    for c in s:
        if 32 <= ord(c) < 127 and c not in '"\\': o += c
        else: o += "\\x{%X}" % ord(c)
    return o + '"'
def arr(l): return "[" + ", ".join(lit(x) for x in l) + "]"

def work(a):
    name, i, pats, subjects = a
    exp = []; use = []; tr = 0
    for p in pats:
        try: m, ng = parse(p)
        except Bad: exp.append("E"); use.append(p); continue
        except Skip: exp.append(None); use.append(p); continue
        use.append(p)
        exp.append(" ".join(show(find(m, ng, s)) for s in subjects)); tr += len(subjects)
    prog = PRE + "const S = %s\nfor const p in %s { print(go(p, S)) }\n" % (arr(subjects), arr(use))
    def cmp(r, e=exp, u=use):
        if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
        g = r.out.split("\n")[:-1]
        if len(g) != len(e): return "%d lines instead of %d" % (len(g), len(e))
        for x, y, p in zip(g, e, u):
            if y is None:
                if "X" in x or "!" in x: return "pattern %s: inconsistent result %s" % (p, x)
            elif x != y: return "pattern %s on %s: got %s expected %s" % (p, subjects, x, y)
    return "%s %d" % (name, i), prog, exp, use, tr
_sub = {}
def _w(a):
    name, i, pats = a
    return work((name, i, pats, _sub[name]))

def strings(al, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(al, repeat=k)]

# ---- pattern families, as text by grammar; size = atoms + groups + quantifiers + bars
def gen(atoms, quants, n, ncap=True):
    """all alternations of size <= n"""
    memo = {}
    def single(k):
        key = ("s", k)
        if key not in memo:
            r = list(atoms) if k == 1 else []
            if k > 1:
                for a in alts(k - 1):
                    r.append("(" + a + ")")
                    if ncap: r.append("(?:" + a + ")")
            elif k == 1: r += ["()"]
            memo[key] = r
        return memo[key]
    def term(k):
        key = ("t", k)
        if key not in memo:
            r = list(single(k))
            if k > 1: r += [s + q for s in single(k - 1) for q in quants]
            memo[key] = r
        return memo[key]
    def seqs(k):
        key = ("q", k)
        if key not in memo:
            r = [""] if k == 0 else []
            for i in range(1, k + 1):
                for a in term(i): r += [a + b for b in seqs(k - i)]
            memo[key] = r
        return memo[key]
    def alts(k):
        key = ("a", k)
        if key not in memo:
            r = list(seqs(k))
            for i in range(0, k): r += [a + "|" + b for a in seqs(i) for b in alts(k - 1 - i)]
            memo[key] = r
        return memo[key]
    return [a for k in range(n + 1) for a in alts(k)]

def ranges(al):
    return list(al) + [a + "-" + b for a, b in itertools.combinations(al, 2)]
def classes(al, n):
    for k in range(1, n + 1):
        for t in itertools.product(ranges(al), repeat=k): yield "[" + "".join(t) + "]"

def fams(q):
    Q = ["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{2,}", "{0,2}?", "{1,}?"]
    yield "loops", gen(["a", "b"], ["*", "+", "?", "*?", "??", "{2}", "{0,2}?", "{1,}?", "{2,3}"], 5 if q else 6), strings("ab", 3)
    yield "deep", gen(["a"], ["*", "?", "+?", "{2}"], 6 if q else 7), ["", "a", "aa", "aaa", "ab", "baab"]
    yield "alternatives", gen(["a", "b"], ["*"], 6 if q else 7, False), strings("ab", 3)
    yield "any", gen(["a", ".", "$", "^"], Q, 3 if q else 4), ["", "a", "b", "\n", "ab", "a\nb", "\r\na", "b\na\n"]
    yield "boundaries", gen(["a", ".", "\\b", "\\B", "\\<", "\\>", "\\w", "\\W", "\\d", "\\D"], ["*", "??", "+"], 3), \
          ["", "a", " ", "a b", " a1", "_ ", "9a.", "\xe9a"]
    yield "classes", classes("abcdef", 3), ["a", "b", "c", "d", "e", "f", "g"]
    yield "negated classes", ["[^" + c[1:] for c in classes("abcde", 3)], ["a", "b", "c", "d", "e", "f", "", "\U0001f600"]
    yield "long classes", ["[" + "".join(t) + "]" for t in itertools.product(["a", "c", "e", "g", "b-d", "a-g", "f-h", "d-f"], repeat=4 if q else 5)], list("abcdefghi")
    yield "class permutations", ["[" + "".join(t) + "]" for t in itertools.permutations(["a", "b-c", "d", "f-g", "h", "j"][:6 if q else 6])] + \
          ["[" + "".join(t) + "]" for t in itertools.permutations(["a-c", "e-g", "i-k", "d", "b-j", "z"])], list("abcdefghijkz")
    esc = [chr(c) for c in range(0, 128)] + ["\xe9", "\u2601", "\U0001f600"]
    yield "escapes", ["\\" + c for c in esc] + ["x\\" + c + "*y" for c in esc] + ["[\\" + c + "]" for c in esc] + ["[^a\\" + c + "b]" for c in esc], \
          [chr(c) for c in range(0, 128)] + ["\xe9", "", "xy", "\U0001f600", "x\tty"]
    W = ["a", "\xe9", "\u0101", "\u2601", "\U0001f600", "\uffff"]
    yield "widths", ["".join(t) for k in (1, 2) for t in itertools.product(W, repeat=k)] + ["[" + "".join(t) + "]" for k in (1, 2, 3) for t in itertools.product(W, repeat=k)] + \
          ["[^" + a + "]" for a in W] + ["[%s-%s]" % (a, b) for a, b in itertools.product(W, repeat=2)] + ["(" + a + ")*" + b for a in W for b in W], \
          strings(W, 2)
    yield "syntax", strings("a()|*?{2,}", 4 if q else 5), ["", "a", "aa", "2", "},"]
    yield "class syntax", strings("a-c[]^\\n", 4 if q else 6), ["", "a", "b", "c", "-", "]", "^", "\n"]
    yield "group syntax", ["(" + x for x in strings("?:a|)", 5)], ["", "a", ":", "?"]
    yield "count syntax", ["a{" + x for x in strings("012,}", 4)] + ["a{65535}", "a{65536}", "a{0,65535}", "a{1,65536}", "a{99999999999}", "a{4294967297}", "a{00001}", "a{,2}", "a{ 1}"], ["", "a", "aa", "aaa"]

def positions(q):
    """begin and end arguments"""
    subs = ["", "a", "ab", "\nab", "a\nba", "\u2601a\n"]
    pats = ["a", "^a", "a$", "^", "$", "a*", "(a)|b", ".", ".*", "b??$", "^.$", "\\Bb", "a\\b"]
    idx = list(range(-6, 7)) + [None]
    out = []
    for p in pats:
        m, ng = parse(p)
        lines = []; exp = []
        for s in subs:
            for b in idx:
                for e in idx:
                    if "\\" in p and b not in (None, 0): continue          # whether \b sees the character before begin is not specified
                    n = len(s)
                    bb = 0 if b is None else max(0, min(n, b + n if b < 0 else b))
                    ee = n if e is None else max(bb, min(n, e + n if e < 0 else e))
                    lines.append("[%s, %s, %s]" % (lit(s), "void" if b is None else b, "void" if e is None else e))
                    exp.append(show(find(m, ng, s, bb, ee)))
        prog = PRE + "const r = re(%s)\nfor const x in [%s] { print(show(r.find(x[0], x[1], x[2]), x[0])) }\n" % (lit(p), ",\n".join(lines))
        out.append(("positions " + p, prog, exp))
        out.append(("default arguments " + p, PRE + "for const s in %s { print(show(re(%s).find(s), s), show(re_uncached(%s).find(s, 0), s), show(re_uncached(%s).find(s, void, void), s)) }\n" % (arr(subs), lit(p), lit(p), lit(p)),
                    [" ".join([show(find(m, ng, s))] * 3) for s in subs]))
    return out

def special(q):
    out = []
    def add(k, body, exp): out.append((k, PRE + body, exp))
    # long subjects: up to the longest string
    for ln in [255, 256, 4095, 32767, 32768, 65534, 65535]:
        body = "const s = string(range(%d) -> map(x => \"a\"))\n" % ln
        exp = []
        for p, e in [("a*", "0,%d" % ln), ("(a*)", "0,%d;0,%d" % (ln, ln)), ("a*()", "0,%d;%d,%d" % (ln, ln, ln)), ("(a)*$", "0,%d;%d,%d" % (ln, ln - 1, ln)), (".*?$", "0,%d" % ln),
                     ("b", "-"), ("$", "%d,%d" % (ln, ln)), ("()$", "%d,%d;%d,%d" % (ln, ln, ln, ln)), ("a{%d}" % ln, "0,%d" % ln), ("(?:aa)*$", "%d,%d" % (ln & 1, ln)), ("(x)?a*(a)", "0,%d;-;%d,%d" % (ln, ln - 1, ln))]:
            if ln > 5000 and p in ("b",): continue
            body += "print(show(re_uncached(%s).find(s), s))\n" % lit(p); exp.append(e)
        add("long subject %d" % ln, body, exp)
    # a turn which consumed nothing is not repeated: all of these end quickly
    for p, s, e in [("(a*)*c", "aaaaaa", "-"), ("((?:)*)*c", "", "-"), ("(a*)+$", "aab", "3,3;3,3"), ("(a?)*?c", "aaaaaa", "-"), ("(|a)+", "a", "0,0;0,0"), ("(^)*a", "a", "0,1;0,0"), ("(a|b*)*c", "ababab", "-"),
                    ("((a*)*)*b", "aaa", "-"), ("(?:(?:(?:)*)*)*", "x", "0,0"), ("(\\b)*", "a", "0,0;0,0"), ("(?:$|^)+", "", "0,0"), ("(a*?)*?b", "aaa", "-")]:
        add("empty turns %s" % p, "print(show(re_uncached(%s).find(%s), %s))\n" % (lit(p), lit(s), lit(s)), [e])
    # errors, and that a failure leaves later use alone
    for e in ["re_uncached()", "re_uncached(void)", "re_uncached(1)", "re_uncached(\"a\").find()", "re_uncached(\"a\").find(1)", "re_uncached(\"a\").find(void)", "re_uncached(\"a\").find(\"a\", \"x\")",
              "re_uncached(\"a\").find(\"a\", 0, [])", "re_uncached.prototype.find(\"a\")", "re_uncached(\"a\").find.apply({ }, [\"a\"])", "re_uncached(\"(\")", "re_uncached(\"[\")", "re_uncached(\"\\\\\")", "re(\"(\")", "re(\"*\")"]:
        add("refused " + e, "try { print(%s) } catch const x { print(\"raised\") }\nprint(show(re_uncached(\"(a)b\").find(\"xab\"), \"xab\"))\n" % e, ["raised", "1,3;1,2"])
    # the cached class gives the same results, also after an error, after clearing and for equal strings in another width
    add("cache", '''const ps = ["a", "(a)", "a", "b|a", "\\x{E9}", ("\\x{1F600}a")[1:], "["]
for const i in range(4) {
    for const p in ps {
        try { print(show(re(p).find("xa\\x{E9}"), "xa\\x{E9}"), re(p).string == p) } catch const e { print("E") }
    }
    if i == 1 { clear_cache() }
}
''', ["1,2 true", "1,2;1,2 true", "1,2 true", "1,2 true", "2,3 true", "1,2 true", "E"] * 4)
    # long and deep patterns either work or are refused
    for n in ([1, 10, 1000, 3000, 8000, 8191, 8192, 16000, 20000, 60000] if not q else [1, 10, 1000, 3000, 8191, 8192, 20000]):
        add("nested %d" % n, "const p = string(range(%d) -> map(x => \"(\")) + \"a\" + string(range(%d) -> map(x => \")\"))\nvar o = void\ntry { const m = re_uncached(p).find(\"xa\")\n o = m.begin == 1 && m.groups.size == %d && m.groups[%d].begin == 1 && m.groups[0].end == 2 } catch const e { o = true }\nprint(o)\n" % (n, min(n, 65000 - n) if n > 32000 else n, n, n - 1), ["true"])
        add("sequence %d" % n, "const p = string(range(%d) -> map(x => \"a\"))\nvar o = void\ntry { const m = re_uncached(p).find(\"b\" + p)\n o = m.begin == 1 && m.end == %d } catch const e { o = true }\nprint(o)\n" % (n, n + 1), ["true"])
        add("alternatives %d" % n, "const p = string(range(%d) -> map(x => \"a|\")) + \"b\"\nvar o = void\ntry { const m = re_uncached(p).find(\"xb\")\n o = m.begin == 1 && m.end == 2 } catch const e { o = true }\nprint(o)\n" % (n if n < 30000 else 30000), ["true"])
        add("loops %d" % n, "const p = string(range(%d) -> map(x => \"a?\")) + \"$\"\nvar o = void\ntry { const m = re_uncached(p).find(\"aaa\")\n o = m.begin == %d && m.end == 3 } catch const e { o = true }\nprint(o)\n" % (n if n < 30000 else 30000, 0 if n > 2 else 2), ["true"])
        add("classes %d" % n, "const p = string(range(%d) -> map(x => \"[ab]\"))\nvar o = void\ntry { const m = re_uncached(p).find(string(range(%d) -> map(x => \"b\")))\n o = m.begin == 0 && m.end == %d } catch const e { o = true }\nprint(o)\n" % ((min(n, 16000),) * 3), ["true"])
        add("group open to the end %d" % n, "var o = void\ntry { const m = re_uncached(\"(a|\" + string(range(%d) -> map(x => \"b\")) + \")c\").find(\"ac\")\n o = m.begin == 0 && m.end == 2 && m.groups[0].end == 1 } catch const e { o = true }\nprint(o)\n" % n, ["true"])
    return out

def run():
    ck = common.Check("M01")
    b = batch.Batch(preload="", timeout=20)
    bs = batch.Batch(san=True, preload="", timeout=40)
    q = ck.quick
    tasks = []; bounds = []
    for name, pats, subj in fams(q):
        pats = list(pats)
        _sub[name] = subj
        k = max(40, min(600, 4000 // len(subj)))
        for i in range(0, len(pats), k): tasks.append((name, i, pats[i:i + k]))
        bounds.append("%s: %d patterns x %d subjects" % (name, len(pats), len(subj)))
    with multiprocessing.get_context("fork").Pool() as pool:
        for j in range(0, len(tasks), 400):
            cs = []
            for key, prog, exp, use, tr in pool.imap(_w, tasks[j:j + 400], 4):
                def cmp(r, e=exp, u=use):
                    if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
                    g = r.out.split("\n")[:-1]
                    if len(g) != len(e): return "%d lines instead of %d" % (len(g), len(e))
                    for x, y, p in zip(g, e, u):
                        if y is None:
                            if "X" in x or "!" in x: return "pattern %r: inconsistent result %s" % (p, x)
                        elif x != y: return "pattern %r: got %s expected %s" % (p, x, y)
                cs.append((key, prog, cmp, max(tr, len(use))))
            cases.compare(ck, b, cs, chunk=2)
            if j == 0: ck.sample({"program": cs[0][1][-600:]})
            if ck.viol: break
    if not ck.viol:
        cs = positions(q) + special(q)
        cases.compare(ck, b, cs, chunk=2)
        # memory safety of the same engine: small families again under the sanitizer
        if not ck.viol:
            sm = []
            for name, pats, subj in fams(True):
                pats = list(pats)
                st = max(1, len(pats) // (300 if q else 4000))
                _sub[name] = subj
                pats = pats[::st]
                for i in range(0, len(pats), 100): sm.append((name, i, pats[i:i + 100]))
            with multiprocessing.get_context("fork").Pool() as pool:
                cs = []
                for key, prog, exp, use, tr in pool.imap(_w, sm, 2):
                    def cmp(r, e=exp):
                        if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
                        g = r.out.split("\n")[:-1]
                        if g != [y if y is not None else x for x, y in zip(g, e)]: return "other results under the sanitizer: %s" % g[:3]
                    cs.append(("sanitizer " + key, prog, cmp, max(tr, len(use))))
            cs += [("sanitizer " + c[0],) + tuple(c[1:]) for c in positions(q) + special(True) if not (c[0].startswith("nested") and int(c[0].split()[1]) > 3000)]   # the instrumented frames are several times larger
            cases.compare(ck, bs, cs, chunk=2)
    ck.extra["bounds"] = "; ".join(bounds)
    ck.assumptions = ["an unmatched ) outside of groups, ] or - first in a class, and the escapes which are documented as future are not judged beyond memory safety",
                      "a turn of a loop which consumed nothing is not repeated beyond the minimum count"]
    ck.finish()
if __name__ == "__main__": common.main(run)
