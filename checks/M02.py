#!/usr/bin/env python3
"""JSON: exhaustive bounded enumeration of texts (token sequences, string bodies, number spellings, edits of documents, splits of generator input) and of values,
compared with a reference decoder (Python's json, strict)."""
import os, sys, itertools, json, re, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases
from kosval import src

SHOW = r'''
import json
const codes = fun(v) {
    var s = "s"
    for const i in range(v.size) { s += string(v.code(i)) + "." }
    return s
}
const show = fun(v) {
    switch typeof v {
        case "integer" { return "i" + string(v) }
        case "float" {
            const b = buffer()
            b.pack(">f8", v)
            return "f" + string(b.unpack(">i8")[0])
        }
        case "string" { return codes(v) }
        case "void" { return "v" }
        case "boolean" { return v ? "T" : "F" }
        case "array" {
            var s = "["
            for const e in v { s += show(e) + " " }
            return s + "]"
        }
        case "object" {
            var s = "{"
            const ks = [shallow(v)...]
            ks.sort(kv => kv[0])
            for const kv in ks { s += codes(kv[0]) + ":" + show(kv[1]) + " " }
            return s + "}"
        }
        default { return typeof v }
    }
}
'''
def show(v):
    if v is None: return "v"
    if v is True: return "T"
    if v is False: return "F"
    if isinstance(v, int): return "i%d" % v
    if isinstance(v, float): return "f%d" % struct.unpack(">q", struct.pack(">d", v))[0]
    if isinstance(v, str): return codes(v)
    if isinstance(v, list): return "[" + "".join(show(e) + " " for e in v) + "]"
    return "{" + "".join(codes(k) + ":" + show(v[k]) + " " for k in sorted(v)) + "}"
def codes(v): return "s" + "".join("%d." % ord(c) for c in v)

def bad_const(x): raise ValueError(x)
def has_big(v):
    if isinstance(v, bool): return False
    if isinstance(v, int): return not -(1 << 63) <= v < 1 << 63
    if isinstance(v, float): return math.isinf(v)
    if isinstance(v, list): return any(map(has_big, v))
    if isinstance(v, dict): return any(map(has_big, v.values()))
    return False
REDUNDANT = re.compile(r"[\[{,]\s*,|,\s*[\]}]")
STRS = re.compile(r'"(?:[^"\\]|\\.)*"', re.S)
EXP0 = re.compile(r"[eE][+-]?0[0-9]")
def oracle(t):
    """("v", value), ("e", None), or None for texts whose treatment the property leaves open"""
    try:
        v = json.loads(t, parse_constant=bad_const)
        return None if has_big(v) or any(abs(int(e)) > 300 for e in re.findall(r"[eE]([+-]?[0-9]+)", STRS.sub("s", t))) else ("v", v)
    except ValueError: pass
    except RecursionError: return None
    outside = STRS.sub("s", t)
    if REDUNDANT.search(outside) or re.search("[#/\x0b\x0c\xa0\u2028\u2029\ufeff]", outside): return None   # redundant commas, comments, wider white space
    return ("e", None)

def close(a, b):
    """equal up to one unit in the last place of floats"""
    if a == b: return True
    x, y = re.split(r"f(-?\d+)", a), re.split(r"f(-?\d+)", b)
    if len(x) != len(y): return False
    return all(p == q if i % 2 == 0 else abs(int(p) - int(q)) <= 1 for i, (p, q) in enumerate(zip(x, y)))

def strs(n, alpha): return itertools.chain.from_iterable(map("".join, itertools.product(alpha, repeat=k)) for k in range(n + 1))

def run():
    ck = common.Check("M02")
    q = ck.quick
    b = batch.Batch(preload="import json\n")
    cs = []
    open_ = [0]
    lead0 = [None]
    def parse_texts(name, texts, k=150, how="json.parse(t)"):
        texts = list(texts)
        for i in range(0, len(texts), k):
            part = [(t, oracle(t)) for t in texts[i:i + k]]
            part = [(t, o) for t, o in part if o is not None or open_.__setitem__(0, open_[0] + 1)]
            if not part: continue
            prog = SHOW + "for const t in [\n" + ",\n".join(src(t) for t, o in part) + '\n] {\n    try { print(show(%s)) } catch const e { print("E") }\n}\n' % how
            def cmp(r, part=part):
                if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
                g = r.out.split("\n")[:-1]
                if len(g) != len(part): return "%d results for %d texts" % (len(g), len(part))
                for (t, o), x in zip(part, g):
                    if o[0] == "e": ok = x == "E"
                    else: ok = close(x, show(o[1]))
                    if not ok:
                        if x == "E" and EXP0.search(STRS.sub("s", t)):
                            lead0[0] = lead0[0] or t; continue
                        return "text %r: got %s expected %s" % (t, x[:200], "rejection" if o[0] == "e" else show(o[1])[:200])
            cs.append(("%s %d" % (name, i), prog, cmp, len(part)))

    # token sequences
    T1 = ['[', ']', '{', '}', ',', ':', '"a"', '1', 'true']
    T2 = T1 + ['"b"', '-2', '1.5', 'false', 'null', '"', '-', '$', 'nul', '(', '\\', ';', '=', '{}', '[]', "'", '.', '+', 'r"a"', 'void', '@', '"\n"', '0x1', '1_0']
    n1, n2 = (5, 3) if q else (7, 4)
    # longer sequences: only those a viable prefix leads to, and one token beyond
    def viable(p):
        """p is a prefix of some accepted text (lenient): decided by closing all the open brackets"""
        st = []; want = "v"
        for t in p:
            if t in "[{" and want in ("v", "v]"):
                st.append(t); want = "v]" if t == "[" else "k}"
            elif t in "]}":
                if not st or "[{".index(st[-1]) != "]}".index(t) or want not in (",", "v]" if t == "]" else "k}"): return False
                st.pop(); want = "," if st else "end"
            elif t == ",":
                if want != ",": return False
                want = "v" if st[-1] == "[" else "k"
            elif t == ":":
                if want != ":": return False
                want = "v"
            elif want in ("v", "v]"): want = "," if st else "end"
            elif want in ("k", "k}") and t[0] == '"': want = ":"
            else: return False
        return True
    def grow(n, alpha):
        level = [()]
        for i in range(n):
            nxt = []
            for p in level:
                for t in alpha:
                    yield p + (t,)
                    if viable(p + (t,)): nxt.append(p + (t,))
            level = nxt
    parse_texts("tokens", (" ".join(s) for k in range(n1 + 1) for s in itertools.product(T1, repeat=k)))
    parse_texts("all tokens", (j.join(s) for k in range(n2 + 1) for s in itertools.product(T2, repeat=k) for j in ([" "] if k > 2 else ["", " ", "\n", "\t", "\r\n"])))
    parse_texts("viable", (("" if i % 2 else " ").join(s) for i, s in enumerate(grow(8 if q else 10, ['[', ']', '{', '}', ',', ':', '"a"', '"b"', '1', 'null']))))
    # strings
    atoms = ['\\u0041', '\\ud83d', '\\ude00', '\\u00e9', '\\uD83', '\\u00g0', '\\u-001', '\\\\', '\\"', '\\/', '\\b', '\\f', '\\n', '\\r', '\\t', '\\x41', '\\0', '\\e', '\\v', '\\(', 'a', '\xe9', '\u2601',
             '\U0001F600', '"', '\\', '\\u', '\n', '\x01', '\x1f', '\x7f', '/', '[', '#', '\\u{41}', '0', ' ']
    ba = ['\\u0041', '\\ud83d', '\\uDE00', '\\', 'u', '0', 'd', '"', 'a', '\U0001F600', '\\n', '\\\\'] 
    parse_texts("string", ('"' + "".join(s) + '"' for k in range(3 if q else 4) for s in itertools.product(atoms, repeat=k)))
    parse_texts("string deep", ('"' + "".join(s) + '"' for s in itertools.chain.from_iterable(itertools.product(ba, repeat=k) for k in range(4, 5 if q else 6))))
    parse_texts("string in", (w % ('"' + "".join(s) + '"') for k in range(3) for s in itertools.product(atoms, repeat=k) for w in ('[%s]', '{%s:1}', '{"k":%s}')))
    step = 7 if q else 1
    parse_texts("u escape", ('"\\u%04x"' % c for c in range(0, 0x10000, step)))
    parse_texts("u escape upper", ('"z\\u%04Xz"' % c for c in range(0, 0x10000, step * 16 + 1)))
    sur = [0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0x41]
    parse_texts("surrogates", ('"' + "".join("\\u%04x" % c for c in s) + '"' for k in (2, 3, 4) for s in itertools.product(sur, repeat=k)))
    parse_texts("surrogate pairs", ('"\\u%04x\\u%04x"' % (h, l) for h in range(0xD800, 0xDC00, 1 if not q else 31) for l in (0xDC00, 0xDD55, 0xDFFF)))
    # numbers
    parse_texts("number", strs(6 if q else 7, "01.e-+") if q else strs(7, "01.e-+"))
    parse_texts("number 2", strs(4 if q else 5, "05.eE-+_xb "))
    big = [10**k + d for k in range(0, 21) for d in (-1, 0, 1)] + [2**k + d for k in range(0, 65) for d in (-1, 0, 1)]
    parse_texts("big", (s + str(v) + t for v in big for s in ("", "-") for t in ("", ".0", "e0", "E1", ".5e-3", "e+5", "e-20")))
    parse_texts("exponents", ("%s%se%d" % (s, m, e) for m in ("1", "9.75", "0.001", "123456789012345") for s in ("", "-") for e in range(-310, 296)))
    # documents with every prefix, deletion, duplication and replacement of a character
    docs = ['{"a":[1,-2.5,true,{"b":null}],"c":"x\\n\\u00e9"}', '[[],{},[[[]]],"",{"":{}}]', ' { "k" : [ 1 , 2 ] , "l" : false }\n', '"\\ud83d\\ude00\\\\"', '[-0,0,-0.0,1e5,9223372036854775807,-9223372036854775808]']
    rep_ = ['"', '\\', ',', ':', '[', ']', '{', '}', '0', '-', '.', 'e', 'u', ' ', '$', '\x01', 't', '\U0001F600']
    ed = []
    for d in docs:
        for i in range(len(d) + 1):
            ed.append(d[:i]); ed.append(d[i:]); ed.append(d[:i] + d[i + 1:])
            for c in rep_: ed += [d[:i] + c + d[i + 1:], d[:i] + c + d[i:]]
        if not q:
            for i in range(len(d)):
                for j in range(i + 1, len(d)): ed += [d[:i] + d[i + 1:j] + d[j + 1:], d[:i] + d[j:]]
    parse_texts("edit", ed)
    parse_texts("edit buffer", ed, how="json.parse(buffer(t))")
    # depth
    parse_texts("depth", ("[" * n + m + "]" * k for n in list(range(1, 20)) + [28, 30] for k in (n - 1, n, n + 1) for m in ("", "1")))
    parse_texts("depth2", ('{"a":' * n + "1" + "}" * k for n in list(range(1, 17)) for k in (n - 1, n, n + 1)))
    # arrays element by element, and input in pieces
    arrs = ['[]', '[1]', '[1,2]', '[1,[2,3],{"a":[]}]', '["a","\\u0041",null,true]', '1', '{}', '"[]"', '[1', '[1,', '[1 2]', '[1]]', '[1] 2', '', '[', ']', '[1,2}', '[{"a" 1}]', '[nul]']
    e = []
    for t in arrs:
        o = oracle(t)
        els = []
        if o[0] == "v" and isinstance(o[1], list): els = o[1]
        else:                       # elements before the error are still produced
            m = {'[1': [1], '[1,': [1], '[1 2]': [1], '[1]]': [1], '[1] 2': [1], '[1,2}': [1, 2]}
            els = m.get(t, [])
        e.append("".join(show(x) + ";" for x in els) + ("ok" if o[0] == "v" and isinstance(o[1], list) else "E"))
    cs.append(("parse_array", SHOW + "for const t in [\n" + ",\n".join(map(src, arrs)) + '''
] {
    var s = ""
    try {
        for const x in json.parse_array(t) { s += show(x) + ";" }
        s += "ok"
    } catch const e { s += "E" }
    print(s)
}
''', e))
    toks = ['{', '"a"', ':', '[', '1', ',', '-2.5', ',', 'true', ']', ',', '"b\\n"', ':', 'null', '}']
    # all ways of cutting between tokens (a minus sign stays with its number)
    ways = list(itertools.product((0, 1), repeat=len(toks) - 1))
    if q: ways = [w for w in ways if sum(w) <= 3 or sum(w) >= len(toks) - 3]
    want = show(json.loads("".join(toks)))
    for i in range(0, len(ways), 200):
        lines = []
        for w in ways[i:i + 200]:
            parts = [toks[0]]
            for t, c in zip(toks[1:], w):
                if c: parts.append(t)
                else: parts[-1] += t
            lines.append("[" + ",".join(src(p) for p in parts) + "]")
        cs.append(("pieces %d" % i, SHOW + "for const p in [\n" + ",\n".join(lines) + '''
] {
    const g = fun { for const x in p { yield x } }
    print(show(json.parse(g())))
}
''', [want] * len(ways[i:i + 200])))
    # values: text decoded by the reference, and by the parser
    leaves = [None, True, False, 0, -1, (1 << 63) - 1, -(1 << 63), 1.5, -0.0, 1e15, 123456.789, "", "a", '"', "\\", "\n", "\x00", "\x1f", "\x7f", "\xe9", "\u2028", "\U0001F600", "\ud800", "/", "\\u0041", '\\"', "a\tb\rc\x08\x0c"]
    l2 = [None, 0, 1.5, "", "\\", '"', "\x01\U0001F600", [], {}]
    keys = ["", "a", "map", "iterator", "size", "prototype", '"', "\\", "\n", "\xe9", "\U0001F600", "a b", "value", "token", "reduce", "0"]
    vals = list(leaves) + [[], {}]
    vals += [[a] for a in leaves] + [{k: a} for k in keys for a in leaves]
    vals += [[a, c] for a in leaves for c in leaves] + [{k: a, l: c} for k in keys for l in keys if k < l for a in l2 for c in l2[:4]]
    vals += [[a, c, d] for a in l2 for c in l2 for d in l2] + [{"x": [a, {"y": c}], "z": {"w": [d]}} for a in l2 for c in l2 for d in l2]
    vals += [{k: {l: [a]}} for k in keys for l in keys for a in l2]
    if not q:
        t1 = l2 + [[a] for a in l2] + [{"k": a} for a in l2] + [[a, c] for a in l2 for c in l2]
        vals += [[a, c] for a in t1 for c in t1] + [{"p": a, "q\n": c} for a in t1 for c in t1]
    vals += [[c] for c in (chr(i) for i in range(0, 0x3000))] if not q else [[chr(i)] for i in range(0, 0x180)]
    def deep(n, w):
        v = 1
        for i in range(n): v = [v] if w % 2 == 0 else {"d": v}
        return v
    vals += [deep(n, w) for n in (1, 2, 5, 8, 10) for w in (0, 1)]
    def ksrc(v):
        if isinstance(v, list): return "[" + ", ".join(map(ksrc, v)) + "]"
        if isinstance(v, dict): return "{" + ", ".join("%s: %s" % (src(k), ksrc(x)) for k, x in v.items()) + "}"
        return src(v)
    for i in range(0, len(vals), 60):
        part = vals[i:i + 60]
        prog = SHOW + "for const v in [\n" + ",\n".join(map(ksrc, part)) + '''
] {
    const t = json.dump(v)
    print(codes(t))
    print(show(json.parse(t)))
    print(codes(json.dump(json.parse(t))) == codes(t))
}
'''
        def cmp(r, part=part):
            if r.status != "ok": return "program ended with %s: %s" % (r.status, r.out[-300:])
            g = r.out.split("\n")[:-1]
            if len(g) != 3 * len(part): return "%d lines for %d values" % (len(g), len(part))
            for j, v in enumerate(part):
                t = "".join(chr(int(c)) for c in g[3 * j][1:].split(".")[:-1])
                try: w = json.loads(t, parse_constant=bad_const)
                except ValueError as ex: return "value %r: invalid text %r" % (v, t)
                if show(w) != show(v): return "value %r: text %r" % (v, t)
                if re.search(r"\s", STRS.sub("s", t)): return "value %r: not compact: %r" % (v, t)
                if g[3 * j + 1] != show(v): return "value %r: text %r parsed as %s" % (v, t, g[3 * j + 1][:200])
                if g[3 * j + 2] != "true" and not (isinstance(v, dict) or "{" in t): return "value %r: dump after parse differs" % (v,)
        cs.append(("value %d" % i, prog, cmp, 3 * len(part)))
    cs.append(("generators and refusals", SHOW + '''
const g = fun(n) { for const i in range(n) { yield [i, "\\n"] } }
for const n in range(4) { print(json.dump(g(n)), json.dump({"a": g(n)}), json.dump(range(n))) }
for const v in [buffer(), print, integer, json.parse, [buffer()], {"a": x => x}, [[print]], g] {
    try { print(json.dump(v)) } catch const e { print("E") }
}
print(json.dump([1,2].iterator()), json.dump({}.iterator()))
''', [" ".join((a, '{"a":%s}' % a, json.dumps(list(range(n)), separators=(",", ":")))) for n in range(4) for a in [json.dumps([[i, "\n"] for i in range(n)], separators=(",", ":"))]] + ["E"] * 8 + ["[1,2] []"]))
    cases.compare(ck, b, cs, chunk=4)
    if lead0[0]: ck.violation("valid exponent with leading zero rejected", "text %r" % lead0[0], {"text": lead0[0]})
    for c in cs[::max(1, len(cs) // 6)]: ck.sample({"case": c[0], "program": c[1][-300:]}, 6)
    ck.extra["bounds"] = "token sequences: all up to %d over 9 tokens and up to %d over 33, viable ones up to %d; strings up to %d atoms of 37; numbers up to %d characters; %d edits of 5 documents; %d values" % (n1, n2, 8 if q else 10, 2 if q else 3, 6 if q else 7, len(ed), len(vals))
    ck.extra["open_texts_not_judged"] = open_[0]
    ck.assumptions = ["left open: redundant commas, comments and wider white space (tolerated), integers beyond 64 bits, exponents beyond 300 and floats beyond double range, non-finite floats", "floats compared up to one unit in the last place when parsed, and chosen to have at most 15 digits when dumped"]
    ck.finish()
if __name__ == "__main__": common.main(run)
