#!/usr/bin/env python3
"""Source text: every token sequence and every edit of the grammar's sentences up to a bound is given to the real lexer, parser and
compiler and the verdict compared with a recogniser written from doc/grammar.md; every literal text up to a bound is evaluated and
compared with the value the grammar assigns; operator chains and line breaks are compared with a reference evaluator; every byte edit
of a corpus and every short byte string is compiled under ASan with asserts on."""
import os, sys, itertools, re, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from multiprocessing import Pool
import common, batch, cases, front, syntax, parseref, kosval

EXE = SAN = None

# ---------------------------------------------------------------- verdicts
DEAD = {"=>", "fun", "import", "return", "throw", "break", "continue", "loop", "fallthrough", "assert", "yield", "&&", "||", "?", "if", "while"}


def positions_ok(t, g):
    """an error is located inside the text"""
    lines = re.split("\r\n|\r|\n", t.decode("utf-8", "replace"))
    return 1 <= g[1] <= len(lines) and 1 <= g[2] <= 8 * len(lines[g[1] - 1]) + 2


def judge(items):
    """[(token tuple)] -> (number judged, accepted, [(text, message)])"""
    toks = [list(t) for t in items]
    exp = [parseref.parse(t) for t in toks]
    texts = [syntax.text(t).encode() for t in toks]
    bad = []
    got, why = front.run(EXE, texts, "p")
    if why:
        t, w = front.culprit(EXE, texts, "p")
        return len(got), 0, [(t or texts[-1], "front end dies: %s" % (w or why))]
    again = []
    for k, (t, e, g) in enumerate(zip(texts, exp, got)):
        if g[0] == 3:
            bad.append((t, "neither accepted nor rejected with an error"))
        elif g[0] and not positions_ok(t, g):
            bad.append((t, "error position %d:%d is outside of the text" % g[1:]))
        elif e is True and g[0]:
            bad.append((t, "conforms to the grammar but is rejected at %d:%d" % g[1:]))
        elif e is False and not g[0]:
            again.append(k)
    if again:
        ks = [k for k in again if b"import" not in texts[k]]
        for k in set(again) - set(ks):
            if "_" in {x for x, _ in items[k]}:
                continue
            bad.append((texts[k], "does not conform to the grammar but is accepted"))
        g2, why = front.run(EXE, [texts[k] for k in ks], "c")
        if why:
            t, w = front.culprit(EXE, [texts[k] for k in ks], "c")
            bad.append((t or b"", "compiler dies: %s" % (w or why)))
        for k, g in zip(ks, g2):
            words = {x for x, _ in items[k]}
            if g[0] == 0 and not ("_" in words and words & DEAD):   # "_" in code which is not reached is not diagnosed
                bad.append((texts[k], "does not conform to the grammar but is accepted"))
    return sum(e is not None for e in exp), sum(e is True for e in exp), bad


def edits(s, tokens):
    n = len(s)
    for i in range(n):
        yield s[:i] + s[i + 1:]
        yield s[:i + 1]
        if i + 1 < n:
            yield s[:i] + [s[i + 1], s[i]] + s[i + 2:]
        for t in tokens:
            yield s[:i] + [t] + s[i + 1:]
    for i in range(n + 1):
        for t in tokens + [r"\n"]:
            yield s[:i] + [t] + s[i:]


NL = r"\n"
FEW = ["a", "1", "_", '"s"', "(", ")", "[", "]", "{", "}", ",", ":", "?", ".", "=", "=>", "->", "+", "!", "<", "&&", "&", "...", "fun", "in", NL]
EXPR = ["a", "1", "(", ")", "[", "]", ",", "?", ":", "-", "*", "&", "<<", "==", "&&", "||", "!", "=>", "->", ".", "=", NL]
TINY = ["a", "(", ")", "[", "]", "=", ",", "=>", "...", ":", "?", "+", NL]
STMT = ["a", "{", "}", ";", "if", "else", "while", "loop", "repeat", "for", "in", "try", "catch", "const", "switch", "case", "default", "fun",
        "class", "return", "break", "do", "(", ")", "=", ":", ",", "1"]
CONTEXTS = [("", ""), ("x = ", ""), ("f ( ", " )"), ("fun f { ", " }"), ("class a { ", " }"), ("switch a { ", " }"), ("loop { ", " }"),
            ("class a extends b { constructor { ", " } }"), ("x = [ ", " ]"), ("x = { ", " }"), ("fun f ( ", " ) { }"), ("for ", " { }"),
            ("with ", " { }"), ("try { } catch ", " { }"), ("if a ", ""), ("import ", ""), ("public ", ""), ('x = "p\\( ', ' )r"'),
            ("switch a { case ", " { 1 } }"), ("switch a { case 1 { ", " } }"), ("x = async ", ""), ("x = a [ ", " ]")]


def gen_tokens(quick):
    """families of token sequences: (name, iterable of token lists)"""
    sent = syntax.sentences()
    T = syntax.TOKENS
    yield "edit", ([e] for s in sent for e in itertools.chain([s], edits(s, T)))
    yield "any3", ([list(q)] for n in range(0, 4 if not quick else 3) for q in itertools.product(T + [NL], repeat=n))
    yield "expr", ([list(q)] for n in range(3, 5) for q in itertools.product(EXPR, repeat=n))
    yield "tiny", ([list(q)] for n in range(5, 6 if quick else 7) for q in itertools.product(TINY, repeat=n))
    yield "stmt", ([list(q)] for n in range(3, 4 if quick else 5) for q in itertools.product(STMT, repeat=n))
    for a, b in CONTEXTS:
        pa, pb = a.split(), b.split()
        yield "in " + a, ([pa + list(q) + pb] for n in range(0, 3) for q in itertools.product(T + [NL], repeat=n))
        yield "in3 " + a, ([pa + list(q) + pb] for q in itertools.product(FEW, repeat=3))
        if not quick:
            yield "in4 " + a, ([pa + list(q) + pb] for q in itertools.product(FEW, repeat=4))
    if not quick:
        short = [s for s in sent if len(s) <= 9]
        yield "edit2", ([e2] for s in short for e in edits(s, FEW) for e2 in edits(e, FEW))


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(tuple(syntax.toks(x[0])))
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


# ---------------------------------------------------------------- literals
NUMRE = re.compile(r"(?:(0|[1-9][0-9_]*)(\.[0-9_]*)?(?:([eEpP])([+-]?)(0|[1-9][0-9_]*))?)\Z")


def num_value(t):
    """value of a numeric literal, None if the text is none"""
    if re.fullmatch("0[xX][0-9a-fA-F_]+", t):
        return int(t[2:].replace("_", "") or "0", 16)
    if re.fullmatch("0[bB][01_]+", t):
        return int(t[2:].replace("_", "") or "0", 2)
    if re.search("[eEpP][+-]?_+[0-9]", t):
        return "open"            # accepted, though not documented
    m = NUMRE.match(t)
    if not m:
        # a literal followed by a property
        return "open" if re.search(r"\.[A-Za-z_][A-Za-z0-9_]*(\.[A-Za-z_][A-Za-z0-9_]*)*\Z", t) and any(num_value(t[:k]) is not None and not re.fullmatch("[0-9_]+", t[:k]) for k in range(1, len(t)) if t[k] == ".") else None
    u = t.replace("_", "")
    if not m.group(2) and not m.group(3):
        return int(u)
    m = NUMRE.match(u)
    if m.group(3) and (abs(int(m.group(5))) > 300):
        return "open"            # range limits: see D05
    mant = (m.group(1) + (m.group(2) or "") + "0") if m.group(2) else m.group(1)
    if m.group(3) in ("p", "P"):
        return float(mant) * 2.0 ** int(m.group(4) + m.group(5))
    return float(mant + (("e" + m.group(4) + m.group(5)) if m.group(3) else ""))


def numbers(quick):
    for n in range(1, 6 if quick else 7):
        for q in itertools.product("019_.ex" if n > 4 else "0129_.ePxbaF", repeat=n):
            if q[0] in "0129":
                yield "".join(q)
    for n in range(1, 4):
        for q in itertools.product("019_", repeat=n):
            for m in ("1", "0", "1.5", "12._5", "1_0"):
                for e in "eEpP":
                    for s in ("+", "-"):
                        yield m + e + s + "".join(q)
    for t in ("9223372036854775807", "9_223_372036854775807", "0x7FFF_FFFF_FFFF_FFFF", "0xffffffffffffffff", "0x8000000000000000",
              "0b" + "1" * 63, "0b" + "1" * 64, "123456789012345678", "0.1234567890123456789", "1.7976931348623157e308", "5e-324"):
        yield t


ESC = {"f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, '"': 34, "0": 0}
HEX = "0123456789abcdefABCDEF"


def str_value(body):
    """codes of the string literal `"` + body + `"`; None if it must be rejected (or is no single literal); [] for open"""
    if '"' in body and ("\r" in body or "\n" in body):
        return "open"                # possibly several literals on several lines
    r = []
    i = 0
    while i < len(body):
        c = body[i]
        if c == '"' or c in "\r\n":
            return None
        if c != "\\":
            r.append(ord(c))
            i += 1
            continue
        i += 1
        if i == len(body):
            return None
        c = body[i]
        i += 1
        if c == "(":
            return "open"
        if c in "\r\n":
            return None
        if c == "x":
            if body[i:i + 1] == "{":
                e = body.find("}", i)
                h = body[i + 1:e] if e > 0 else ""
                if not h or len(h) > 6 or any(x not in HEX for x in h):
                    return "open" if "_" in h else None
                if int(h, 16) > 0x1FFFFF:
                    return "open"
                r.append(int(h, 16))
                i = e + 1
            else:
                h = body[i:i + 2]
                if len(h) < 2 or any(x not in HEX for x in h):
                    return None
                r.append(int(h, 16))
                i += 2
        elif c in ESC:
            r.append(ESC[c])
        elif c in "eu":
            return "open"            # undocumented
        else:
            r += [92, ord(c)]        # a backslash before any other character stands for itself
    return r


def raw_value(body):
    if '"' in body and ("\r" in body or "\n" in body):
        return "open"
    i = 0
    while i < len(body):
        if body[i] == '"':
            return None
        if body[i] == "\\":
            i += 1
            if i == len(body):
                return None
        i += 1
    return [ord(c) for c in body]


def strings(quick):
    a1 = '"\\nx{}041A(\r\n\u00e9\u20ac\U0001F600\t'
    for n in range(0, 4):
        for q in itertools.product(a1, repeat=n):
            yield "".join(q)
    for n in (4, 5) if quick else (4, 5, 6):
        for q in itertools.product('\\x{}4' if n > 4 else '\\nx{}4f"', repeat=n):
            yield "".join(q)
    for c in range(1, 256):
        yield "\\" + chr(c)
        yield "a\\" + chr(c) + "b"
        yield "\\x%02x" % c
        yield "\\x%02X1" % c
        yield chr(c)
    for c in (0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff):
        for f in ("\\x{%x}", "\\x{%X}", "\\x{%04x}", "\\x{%06X}", "a\\x{%x}b"):
            yield f % c


def show_codes(codes):
    return " ".join(str(c) for c in codes)


PRE = '''import base
const sh = fun(s) {
    var r = ""
    for const i in range(s.size) { r += (i ? " " : "") + stringify(s.code(i)) }
    return r
}
''' + kosval.REP


def lit_cases(kind, items):
    """verdict by the front end, then the values of the accepted ones in programs of many literals"""
    for src, val in items:
        yield kind, src, val


def check_literals(ck, b, kind, items, wrap, show):
    """items: (source text, expected value or None for rejected)"""
    items = list(dict((s, v) for s, v in items).items())
    texts = [wrap(s).encode("utf-8", "surrogatepass") for s, v in items]
    todo = [(k, texts[k:k + 4000]) for k in range(0, len(texts), 4000)]
    ok = []
    with Pool(8) as pool:
        for (k, ts), (got, why) in zip(todo, pool.imap(_compile, [t for _, t in todo])):
            if why:
                t, w = front.culprit(SAN, ts, "c")
                ck.violation(kind, "the front end dies on %r: %s" % (t, w), {"text": repr(t)})
                return 0
            for (s, v), t, g in zip(items[k:k + 4000], ts, got):
                if v is None and g[0] == 0:
                    ck.violation(kind, "accepted: %r" % s, {"text": repr(t)})
                elif v is not None and g[0]:
                    ck.violation(kind, "rejected: %r" % s, {"text": repr(t)})
                elif g[0] and not positions_ok(t, g):
                    ck.violation(kind, "error position %d:%d outside of %r" % (g[1], g[2], t), {"text": repr(t)})
                elif v is not None and not isinstance(v, str):
                    ok.append((s, v))
    cs = []
    for k in range(0, len(ok), 100):
        part = ok[k:k + 100]
        cs.append(("%s:%d" % (kind, k), PRE + "".join(show[0] % s for s, v in part), [show[1](v) for s, v in part], len(part)))
    cases.compare(ck, b, cs)
    ck.extra.setdefault("families", {})[kind] = len(items)
    return len(items)


def _compile(ts):
    return front.run(SAN, ts, "c")


# ---------------------------------------------------------------- operators: values
BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "==", "!=", "<", ">=", "&&", "||"]
VARS = {"a": 23, "b": 5, "c": 3, "d": 2}
M64 = (1 << 64) - 1


class Err(Exception):
    pass


def wrap64(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x


class Ev:
    """evaluates an accepted operator expression over VARS by the document's precedence levels"""
    def __init__(self, t):
        self.t, self.i = t, 0

    def cur(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def take(self):
        self.i += 1
        return self.t[self.i - 1]

    def cond(self, live=True):
        x = self.logical()
        if self.cur() == "?":
            self.take()
            y = self.cond()
            self.take()
            z = self.cond()
            x = y if truth(x) else z
        return x

    def stream(self):
        x = self.cond()
        while self.cur() == "->":
            self.take()
            f = self.cond()
            x = ("f", x)
        return x

    def logical(self):
        x = self.cmp()
        while self.cur() in ("&&", "||"):
            op = self.take()
            y = self.cmp()
            x = (y if truth(x) else x) if op == "&&" else (x if truth(x) else y)
        return x

    def cmp(self):
        x = self.arith()
        if self.cur() in ("==", "!=", "<", ">="):
            op = self.take()
            y = self.arith()
            if isinstance(x, str) or isinstance(y, str):
                raise Err
            if type(x) is not type(y):
                if op in ("<", ">="):
                    raise Err
                return op == "!="
            return {"==": x == y, "!=": x != y, "<": x < y, ">=": x >= y}[op]
        return x

    def arith(self):
        x = self.unary()
        if self.cur() in ("+", "-", "*", "/", "%"):
            x = self.mul(x)
            while self.cur() in ("+", "-"):
                op = self.take()
                y = self.mul(self.unary())
                x = arith(op, x, y)
        else:
            while self.cur() in ("&", "|", "^", "<<", ">>", ">>>"):
                op = self.take()
                x = arith(op, x, self.unary())
        return x

    def mul(self, x):
        while self.cur() in ("*", "/", "%"):
            op = self.take()
            x = arith(op, x, self.unary())
        return x

    def unary(self):
        c = self.cur()
        if c in ("-", "+", "!", "~", "typeof"):
            self.take()
            x = self.unary()
            if c == "!":
                return not truth(x)
            if c == "typeof":
                return "boolean" if isinstance(x, bool) else "string" if isinstance(x, str) else "integer"
            if isinstance(x, (bool, str)):
                raise Err
            return -x if c == "-" else x if c == "+" else ~x
        if c == "(":
            self.take()
            x = self.stream()
            self.take()
            return x
        v = self.take()
        return VARS[v] if v in VARS else int(v)


def truth(x):
    return bool(x) if not isinstance(x, str) else True


def arith(op, x, y):
    if isinstance(x, (bool, str)) or isinstance(y, (bool, str)):
        raise Err
    if op == "+": return wrap64(x + y)
    if op == "-": return wrap64(x - y)
    if op == "*": return wrap64(x * y)
    if op in "/%":
        if y == 0:
            raise Err
        q = abs(x) // abs(y)
        q = -q if (x < 0) != (y < 0) else q
        return q if op == "/" else x - q * y
    if op == "&": return x & y
    if op == "|": return x | y
    if op == "^": return x ^ y
    if y < 0 or y > 63:
        raise Err             # see L01
    if op == "<<": return wrap64(x << y)
    if op == ">>": return x >> y
    return wrap64((x & M64) >> y)


def chains(quick):
    V = list(VARS)
    for n in (1, 2, 3):
        for ops in itertools.product(BIN, repeat=n):
            base = [V[0]]
            for k, o in enumerate(ops):
                base += [o, V[k + 1]]
            yield base
            if n < 3 or not quick:
                for k in range(n + 1):
                    for u in ("-", "~", "!") if n > 1 else ("-", "~", "!", "+", "typeof"):
                        yield base[:2 * k] + [u] + base[2 * k:]
                for i in range(n + 1):
                    for j in range(i + 1, n + 1):
                        yield base[:2 * i] + ["("] + base[2 * i:2 * j + 1] + [")"] + base[2 * j + 1:]
    two = ["a", "b - c", "a < b", "b && c", "c | d", "- d", "0"]
    for x, y, z in itertools.product(two, repeat=3):
        yield ("%s ? %s : %s" % (x, y, z)).split()
        for w in ("a", "0", "b < c"):
            yield ("%s ? %s : %s ? %s : d" % (x, y, w, z)).split()
            yield ("%s ? %s ? %s : c : d" % (w, x, y)).split()


def check_chains(ck, b, quick):
    good = []
    texts = []
    for e in chains(quick):
        v = parseref.parse(syntax.toks(["x", "="] + e))
        texts.append((e, v))
    seqs = [tuple(syntax.toks(["x", "="] + e)) for e, v in texts]
    with Pool(8) as pool:
        for n, acc, bad in pool.imap(judge, [seqs[k:k + 4000] for k in range(0, len(seqs), 4000)]):
            for t, m in bad:
                ck.violation("chain", "%r: %s" % (t.decode(), m), {"text": t.decode()})
    for e, v in texts:
        if v:
            try:
                r = Ev(e).cond()
                r = {True: "true", False: "false"}[r] if isinstance(r, bool) else str(r)
            except (Err, KeyError, IndexError):
                continue           # operands of other types are the subject of L01
            good.append((" ".join(e), r))
    # comparisons of different types are not part of this property
    cs = []
    pre = "const v = [23, 5, 3, 2]\nvar a = v[0]\nvar b = v[1]\nvar c = v[2]\nvar d = v[3]\nconst t = fun(f) { try { print(stringify(f())) } catch const e { print(\"err\") } }\n"
    for k in range(0, len(good), 60):
        part = good[k:k + 60]
        cs.append(("chain:%d" % k, pre + "".join("t(fun { return %s })\n" % s for s, r in part), [r for s, r in part], len(part)))
    cases.compare(ck, b, cs)
    ck.extra.setdefault("families", {})["operator chains (value)"] = len(good)
    return len(texts)


# ---------------------------------------------------------------- maximal munch
OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>=", "<", ">", "?",
       ".", "...", "<=", ">=", "<<", ">>", ">>>", "!=", "==", "&&", "||", "->", "=>"]
OPSET = set(OPS)


def munch(s):
    r = []
    while s:
        for n in (4, 3, 2, 1):
            if s[:n] in OPSET and len(s) >= n:
                r.append(s[:n])
                s = s[n:]
                break
    return r


def check_munch(ck, quick):
    """characters of operators in a row mean the same as the longest operators separated by blanks"""
    n = 0
    pairs = []
    for L in range(1, 5):
        alpha = "+-*/%&|^!~=<>?." if L < 4 else "-=<>.!&|"
        for q in itertools.product(alpha, repeat=L):
            s = "".join(q)
            if "//" in s or "/*" in s:
                continue
            for pre, post in (("x = a", "b"), ("a", "b")):
                pairs.append(("%s %s %s" % (pre, s, post), "%s %s %s" % (pre, " ".join(munch(s)), post)))
    pairs = [(x, y) for x, y in pairs if ".." not in x.replace("...", "")]
    A = [x.encode() for x, y in pairs]
    B = [y.encode() for x, y in pairs]
    for k in range(0, len(A), 20000):
        ga, w1 = front.run(EXE, A[k:k + 20000], "p")
        gb, w2 = front.run(EXE, B[k:k + 20000], "p")
        if w1 or w2:
            ck.violation("munch", w1 or w2, {})
            return n
        for x, y, g, h in zip(A[k:], B[k:], ga, gb):
            n += 1
            if (g[0] == 0) != (h[0] == 0):
                ck.violation("munch", "%r %s, %r %s" % (x, g, y, h), {"text": x.decode()})
    return n


# ---------------------------------------------------------------- line counting, line breaks, interpolation
PIECES = [("\n", 1), ("\r\n", 1), ("\r", 1), ("/*\n*/", 1), ("/*\r\n\r*/", 2), ("# x\n", 1), ("// y\r\n", 1), ("/**/", 0), (" ", 0),
          ("\u00a0", 0), ("\u2028", 0), ("\ufeff", 0), ("\f", 0), ("\v", 0), ('o(r"\n")\n', 2), ('o(r"\r\n\\"\r")\n', 3), ('o("\\n")\n', 1), (";", 0),
          ("/* * / ** /*\n**/", 1)]


def line_cases(quick):
    pre = "const o = fun(x) { }\n"
    for n in range(0, 3 if quick else 4):
        for q in itertools.product(PIECES, repeat=n):
            body = "".join(p for p, _ in q)
            L = 2 + sum(k for _, k in q) - ("\r\n" in body and 0)
            # a CR at the end of one piece and LF at the start of the next form one line end
            L -= sum(1 for x, y in zip(q, q[1:]) if x[0].endswith("\r") and y[0].startswith("\n"))
            yield ("line:%r" % body, pre + body + "print(__line__)\n", [str(L)])


BREAKS = [
    # text with \n at every place of interest, value of r
    ("r = a NL * b", 115), ("r = a * NL b", 115), ("r = a + NL b", 28), ("r = a - NL b", 18), ("r = a NL / b", 4), ("r = a NL % b", 3),
    ("r = a NL & b", 5), ("r = a NL | b", 23), ("r = a NL ^ b", 18), ("r = c NL << d", 12), ("r = a NL >> d", 5), ("r = a NL == b", "false"),
    ("r = a NL != b", "true"), ("r = a NL < b", "false"), ("r = a NL && b", 5), ("r = a NL || b", 23), ("r = a NL ? b NL : c", 5), ("r = 0 NL ? b NL : c", 3),
    ("r = ( a NL + b )", 28), ("r = ( a NL - b )", 18), ("r = [ a NL - b ] [ 0 ]", 18), ("r = g NL . x", 7), ("r = g . NL x", 7), ("r = g NL . NL x NL + a", None),
    ("r = a NL ( b )", None), ("r = [ 1 ] NL [ 0 ]", None), ("r = a NL + b", None), ("r = a NL - b", None), ("r = f NL ( 1 )", None), ("r = ( f NL ( 1 ) )", 2),
    ("r = [ f NL ( 1 ) ] [ 0 ]", 2), ("r = f ( NL 1 NL )", 2), ("r = f ( [ 4 ] NL [ 0 ] )", 5), ("r = 1 NL -> f", 2), ("r = 1 -> NL f", 2), ("r = x NL => x", "fn"),
    ("r = ( x => x NL + 1 ) ( 4 )", 5), ("r = ( x => NL x NL - 1 ) ( 4 )", 3), ("r = 1 NL ! b", 1), ("r = 1 NL ~ b", 1), ("r = 1 NL typeof b", 1), ("r = 1 NL ; f ( 1 )", 1), ("r = 1 b", None),
    ("r = 1 ; NL var q = 2", 1), ("r NL = 9", 9), ("r = NL 9", 9), ("r NL += NL 4", 4), ("r = fun { return NL 8 } ( )", 8), ("r = fun { return ; NL 8 } ( )", "void"),
    ("r = fun { return NL } ( )", "void"), ("if 1 NL { r = 3 ; } NL else NL { r = 4 ; }", 3), ("if 0 { r = 3 ; } NL else NL if NL 1 { r = 4 ; }", 4),
    ("r = { x : 3 NL , y : 4 NL } NL . x", 3), ("r = \"p\\( NL a NL + b NL )q\"", '"p28q"'), ("repeat { r += 1 ; } NL while NL r < 5", 5),
    ("while NL r < 4 NL { r += 1 ; }", 4), ("for NL const NL i NL in NL [ 1 , 2 ] NL { r += i ; }", 3), ("r = f NL . apply ( NL void , [ 3 ] )", 4),
    ("r = typeof NL a", '"integer"'), ("r = - NL a", -23), ("r = ! NL a", "false"), ("r = a instanceof NL base . integer", "true"), ("r = a NL instanceof base . integer", "true"),
    ("r = \"x\" NL in g", "true"), ("r = \"x\" propertyof NL g", "true"), ("r = a < b NL && c < a", "false"), ("r = a NL ; + b", 23), ("r = a ; ( b )", 23),
]


def break_cases():
    pre = "import base\nvar a = 23\nvar b = 5\nvar c = 3\nvar d = 2\nvar r = 0\nconst g = { x: 7 }\nconst f = fun(x) { return x + 1 }\n"
    post = '\nprint(typeof r == "function" ? "fn" : stringify([r]))\n'
    eols = ["\n", "\r\n", "\r", " # c\n", " // c\n", "\n\n", " /* c\n */ ", "\n# c\n"]
    for t, v in BREAKS:
        for e in eols:
            key = "break:%s:%r" % (t, e)
            prog = pre + t.replace(" NL ", " " + e + " ").replace(" NL", " " + e) + post
            if v is None:
                yield key, prog, (lambda r: None if r.status != "ok" else "accepted, output %s" % r.lines[:2])
            else:
                yield key, prog, ["fn" if v == "fn" else "[%s]" % v]
        # without any line break (where all on one line means the same), and with a blank comment in its place
        for e in (" ", " /* c */ "):
            if v is not None and "r = 1 NL" not in t and "return NL }" not in t and "NL var" not in t or "-> f" in t:
                one = t.replace(" NL ", e)
                if parseref.parse(syntax.toks(one.split())) is True:
                    yield "join:%s:%r" % (t, e), pre + one + post, ["fn" if v == "fn" else "[%s]" % v]


INTER = ["a", "b + a", '"k"', '"m\\(b)n"', "g.x", "[1, 2][1]", "f(3)", "{ y: 8 }.y", "(x => x + 1)(5)", 'fun { return ")" }()', 'a ? "(" : b', "( a )", '"\\("z")"', " a ", "\n a \n",
         "/* ) */ a", "a # )\n"]
INTERV = ["23", "28", "k", "m5n", "7", "2", "4", "8", "6", ")", "(", "23", "z", "23", "23", "23", "23"]


def inter_cases(quick):
    pre = "var a = 23\nvar b = 5\nconst g = { x: 7 }\nconst f = fun(x) { return x + 1 }\n"
    parts = ["", "p", ")", "(", "\\\\", "\\x41", "\\\"", "}"]
    pv = ["", "p", ")", "(", "\\", "A", "\"", "}"]
    for i in range(len(INTER)):
        for x, y in itertools.product(range(len(parts)), repeat=2):
            yield ("inter:%d:%d:%d" % (i, x, y), pre + 'print("%s\\(%s)%s")\n' % (parts[x], INTER[i], parts[y]), [pv[x] + INTERV[i] + pv[y]])
        for j in range(len(INTER)):
            for m in range(0, len(parts)):
                yield ("inter2:%d:%d:%d" % (i, j, m), pre + 'print("<\\(%s)%s\\(%s)>")\n' % (INTER[i], parts[m], INTER[j]), ["<" + INTERV[i] + pv[m] + INTERV[j] + ">"])
    for bad in ('"\\(a"', '"\\()"', '"\\(a b)"', '"\\(a))', '"\\(a;)"', '"\\(a = 1)"', '"\\(a', '"\\(', '"x\\(a)\n"', '"x\\(a)\\("', '"\\(var q = 1)"', '{ "\\(a)": 1 }', 'g."\\(a)"'):
        yield ("inter!:" + bad, pre + "const r = " + bad + "\n", (lambda r: None if r.status != "ok" else "accepted"))


# ---------------------------------------------------------------- malformed bytes
CORPUS = [
    b'var a = 0x1F + 0b1_0 - 1.5e+3 * 2p-1\n', b'const s = "a\\x41\\x{20ac}\\n\\(a + "b\\(c)d")e"\n', b'r"raw\\"q" # c\n/* b\n*/ x => y', b'a\r\n.b\r[1:] = [c..., "\xc3\xa9",]\n',
    b'fun f(a, b = {c: d}, e...) { return yield a }\n', b'class A extends B { constructor { super() } fun m { } var v = 1 }', b'switch a { case 1, 2: { fallthrough } default { break } }',
    b'with const a = b, c { try { throw 1 } catch const e { assert e } }', b'for var i, _ in x -> y { if i && j || ! k { continue } else if 1 { } else { break } }', b'repeat { a >>>= 1; } while async f(x = 1)\n',
    b'import a/b: c, d\nimport e.*\npublic const x = a ? b : c ? d : e\n', b'\xef\xbb\xbfa = b in c\xc2\xa0instanceof d\n', b'defer { delete a.b[?c] } loop { do { typeof -+~a } }']
BYTES = [0, 9, 10, 13, 32, 34, 35, 40, 41, 42, 46, 47, 48, 49, 58, 61, 62, 91, 92, 93, 95, 97, 101, 120, 123, 125, 127, 128, 0xbf, 0xc0, 0xc3, 0xe2, 0xef, 0xf0, 0xf4, 0xff]


def byte_texts(quick):
    for t in CORPUS:
        yield t
        for i in range(len(t) + 1):
            yield t[:i]
            for c in BYTES:
                yield t[:i] + bytes([c]) + t[i:]
                if i < len(t):
                    yield t[:i] + bytes([c]) + t[i + 1:]
            for j in range(i + 1, min(len(t), i + (8 if quick else 40)) + 1):
                yield t[:i] + t[j:]
            if not quick:
                for c, d in itertools.product(BYTES, repeat=2):
                    yield t[:i] + bytes([c, d]) + t[i:]
    for n in range(0, 4):
        for q in itertools.product(BYTES, repeat=n):
            yield bytes(q)
    ctx = [(b'x = "', b'"\n'), (b'r"', b'"'), (b'/*', b'*/a'), (b'#', b'\na'), (b'a.', b''), (b'"\\(a', b')"'), (b'0', b'\n'), (b'"\\x', b'"')]
    for a, z in ctx:
        for n in range(1, 3 if quick else 4):
            for q in itertools.product(BYTES, repeat=n):
                yield a + bytes(q) + z
    pats = [b"(", b"[", b"{", b"{a:", b"-", b"!", b"a(", b"a[", b"x=>", b"do{", b"if a{", b"fun{", b"fun f{", b"class A{fun a{", b'"\\(', b"a->", b"a.b", b"a?b:", b"a&&", b"a+", b"a,", b"loop{", b"try{",
            b"with a{", b"switch a{case 1{", b"for a in b{", b"defer{", b"async ", b"yield ", b"a?", b"/*", b"[[", b"({", b"x=[", b"else if a{}", b"a ", b"a\n", b";", b"fun(a=", b"a=", b"async do{", b"while a{", b"not ", b"typeof ", b"defer{}\n",
            b"if a{}else ", b"a.b(c)[", b".b", b"(1)", b"->f", b"[0]", b"x=1\n", b"var q=1\n", b"fun{}\n", b"x=>y\n", b"(a)", b"try{}catch const e{}\n", b"a=", b"throw ", b"return ", b"=>", b"a,b=", b"yield(",
            b"switch 1{}\n", b"a?b:(", b"[a,", b"{a:1,", b"a...", b"f(a...,", b"||", b"a||", b"a&&!", b"\"\\(a)\\(", b"public const f=fun{"]
    for p in pats:
        for n in (2, 10, 49, 50, 51, 98, 99, 100, 101, 200, 254, 255, 256, 257, 1000, 5000, 70000):
            yield p * n
            yield p * n + b"1"
            yield b"x = " + p * n + b"1"
            yield b"const x = void\nconst a = x" + p * n + b" { }"
            yield b"fun z { " + p * n + b" }"
    for n in (65533, 65534, 65535, 65536, 65537, 70000):
        for t in (b"a" * n, b"1" * n, b'"' + b"b" * n + b'"', b"#" + b"c" * n + b"\n", b" " * n, b"/*" + b"d" * n + b"*/", b"\n" * n + b"@", b"0." + b"0" * n, b'"' + b"\\n" * (n // 2) + b'"'):
            yield t


def _bytes(ts):
    got, why = front.run(SAN, ts, "c", 300)
    bad = []
    if why:
        t, w = front.culprit(SAN, ts, "c")
        return len(got), 0, [((t or b"")[:3000], "the front end dies: %s" % (w or why))]
    acc = 0
    for t, g in zip(ts, got):
        acc += g[0] == 0
        if g[0] == 3:
            bad.append((t[:300], "neither accepted nor rejected with an error"))
        elif g[0] in (1, 2) and not positions_ok(t, g) and len(t) < 60000:
            bad.append((t[:300], "error position %d:%d outside of the text" % g[1:]))
    return len(got), acc, bad


def check_bytes(ck, quick):
    seen = set()
    buf, jobs = [], []
    for t in byte_texts(quick):
        if b"import" in t and b"\n" not in t[:0]:
            if re.search(rb"import", t):
                continue
        if t in seen:
            continue
        if len(t) < 64:
            seen.add(t)
        buf.append(t)
        if len(buf) >= 3000 or sum(map(len, buf[-50:])) > 4000000:
            jobs.append(buf)
            buf = []
    jobs.append(buf)
    n = acc = 0
    with Pool(8) as pool:
        for k, a, bad in pool.imap_unordered(_bytes, jobs):
            n += k
            acc += a
            for t, m in bad:
                ck.violation("bytes", "%r: %s" % (t[:200], m), {"text": repr(t)})
    ck.extra.setdefault("families", {})["malformed bytes"] = {"texts": n, "accepted": acc}
    return n


def run():
    global EXE, SAN
    ck = common.Check("L07")
    q = ck.quick
    EXE = front.build(False)
    SAN = front.build(True)
    fam = ck.extra.setdefault("families", {})
    total = 0
    with Pool(8) as pool:
        for name, it in gen_tokens(q):
            n = acc = seqs = 0
            for k, a, bad in pool.imap_unordered(judge, chunks(it, 3000)):
                n += k
                acc += a
                for t, m in bad[:3]:
                    ck.violation("syntax", "%r: %s" % (t.decode(), m), {"text": t.decode()})
                if ck.viol and len(ck.viol) > 20:
                    break
            fam["tokens " + name] = {"judged": n, "conforming": acc}
            total += n
            if len(ck.viol) > 20:
                break
    b = batch.Batch(timeout=20)
    n = check_munch(ck, q)
    fam["operator characters"] = n
    total += n
    total += check_chains(ck, b, q)
    total += check_literals(ck, b, "numbers", ((t, num_value(t)) for t in numbers(q) if num_value(t) != "open"), lambda s: "const x = %s\n" % s,
                            ("print(rep(%s))\n", lambda v: kosval.rep(wrap64(v) if isinstance(v, int) else v)))
    total += check_literals(ck, b, "strings", ((t, str_value(t)) for t in strings(q) if str_value(t) != "open"), lambda s: 'const x = "%s"\n' % s,
                            ('print(sh("%s"))\n', show_codes))
    total += check_literals(ck, b, "raw strings", ((t, raw_value(t)) for t in strings(True) if raw_value(t) != "open"), lambda s: 'const x = r"%s"\n' % s,
                            ('print(sh(r"%s"))\n', show_codes))
    cs = list(line_cases(q)) + list(break_cases()) + list(inter_cases(q))
    cases.compare(ck, b, cs)
    fam["line breaks, line numbers, interpolation"] = len(cs)
    total += check_bytes(ck, q)
    ck.traces = max(ck.traces, total)
    ck.transitions = total
    ck.states = total
    ck.extra["bounds"] = ("all one-token edits of %d sentences covering every production, all token sequences up to 2 (thorough 3) tokens over the full vocabulary, up to 4 over the expression tokens, 5 (6) over a core set, "
                          "all sequences up to 2 tokens (full) and 3 (4) tokens (core) in %d syntactic contexts; all numeric texts up to 5 (6) characters, all string bodies up to 3 (5) characters; operator chains of up to 3 operators; "
                          "every byte edit of %d texts with %d byte values; all byte strings up to 3 bytes over them; nesting up to 70000" % (len(syntax.sentences()), len(CONTEXTS), len(CORPUS), len(BYTES)))
    ck.assumptions += ["texts on which doc/grammar.md is silent or ambiguous (keywords as imported names, trailing comma in parameter lists, chains of shifts, `{ a }` without a semicolon, a bracket on the line after an operand of a unary operator) are not judged",
                       "a backslash before a character which starts no escape sequence stands for itself, as the project's own tests require"]
    ck.finish()


if __name__ == "__main__":
    common.main(run)
