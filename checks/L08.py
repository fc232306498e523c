#!/usr/bin/env python3
"""Objects, classes, prototypes: (1) all states of a chain of three objects over two keys and all operation sequences on it, (2) all short
set/delete sequences over several keys of one object, (3) all class hierarchies of up to three levels over constructor and member kinds,
created in every way, (4) every value kind against every built-in prototype; all compared with a reference model."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases

# ---------------------------------------------------------------- (1) chains
CHAIN = r'''
const mk_class = fun(p) { const K = class { }
    K.prototype = p
    return K() }
const rd = fun(o, k) {
    var a = "-"
    var b = "-"
    if k == "x" { try { a = o.x } catch const e { } } else { try { a = o.y } catch const e { } }
    try { b = o[k] } catch const e { }
    var c = k == "x" ? o.?x : o.?y
    var d = o[?k]
    if c == void { c = "-" }
    if d == void { d = "-" }
    const s = k == "x" ? "x" in o : "y" in o
    const t = k == "x" ? "x" propertyof o : "y" propertyof o
    var r = "" + stringify(a)
    if stringify(b) != r || stringify(c) != r || stringify(d) != r { r = stringify([a, b, c, d]) }
    return r + (s ? "!" : "") + (t ? "?" : "") + ((k in o) != s ? "#" : "") + ((k propertyof o) != t ? "#" : "")
}
const list = fun(g) {
    const r = []
    for const kv in g { if kv[0] == "x" || kv[0] == "y" { r.push(kv[0] + stringify(kv[1])) } }
    r.sort()
    var s = ""
    for const e in r { s += e }
    return s
}
const dump = fun(os) {
    var s = ""
    for const o in os {
        s += rd(o, "x") + rd(o, "y") + ":" + list(shallow(o)) + ":" + list(deep(o)) + ";"
    }
    return s
}
const ops = [
    fun(o, n) { o.x = n }, fun(o, n) { o.y = n },
    fun(o, n) { delete o.x }, fun(o, n) { delete o.y },
    fun(o, n) { o.x += n }, fun(o, n) { o.y -= n },
    fun(o, n) { o["x"] = n }, fun(o, n) { const k = "y"
        o[k] = n },
    fun(o, n) { const k = "x"
        delete o[k] }, fun(o, n) { delete o["y"] }
]
'''
BUILD = {
 "class": "const build = fun { const a = {}\n const b = mk_class(a)\n const c = mk_class(b)\n return [c, b, a] }\n",
 "extends": "const build = fun { const A = class { var q = 1 }\n const B = class extends A { }\n return [B(), B.prototype, A.prototype] }\n",
 "classobj": "const build = fun { const a = class { }\n return [a] }\n",
}
NOPS = 10
def chain_program(kind, mask, n, depth):
    return CHAIN + BUILD[kind] + r'''
const fresh = fun {
    const os = build()
    for const i in range(%d) { if %d & (1 << i) { if i & 1 { os[i >> 1].y = 10 + i } else { os[i >> 1].x = 10 + i } } }
    return os
}
const rec = fun(prefix, left) {
    const os = fresh()
    var t = ""
    var n = 50
    for const p in prefix {
        try { ops[p %% %d](os[p / %d], n) } catch const e { t += "T" }
        n += 1
    }
    print(t + dump(os))
    if left > 0 { for const i in range(%d) { rec([prefix..., i], left - 1) } }
}
rec([], %d)
''' % (2 * n, mask, NOPS, NOPS, NOPS * n, depth)
def chain_model(mask, n, depth):
    out = []
    def run(prefix, left):
        objs = [dict() for _ in range(n)]
        for i in range(2 * n):
            if mask >> i & 1: objs[i >> 1]["xy"[i & 1]] = 10 + i
        def find(i, k):
            for j in range(i, n):
                if k in objs[j]: return objs[j][k]
            return None
        t = ""; v = 50
        for p in prefix:
            i, op = divmod(p, NOPS)
            k = "xy"[op & 1] if op < 8 else "xy"[op - 8]
            if op in (0, 1, 6, 7): objs[i][k] = v
            elif op in (2, 3, 8, 9): objs[i].pop(k, None)
            else:
                c = find(i, k)
                if c is None: t += "T"
                else: objs[i][k] = c + v if op == 4 else c - v
            v += 1
        s = ""
        for i in range(n):
            for k in "xy":
                c = find(i, k)
                s += ("-" if c is None else str(c)) + ("!" if k in objs[i] else "") + ("?" if c is not None else "")
            s += ":" + "".join(sorted(k + str(w) for k, w in objs[i].items()))
            s += ":" + "".join(k + str(find(i, k)) for k in "xy" if find(i, k) is not None) + ";"
        out.append(t + s)
        if left:
            for q in range(NOPS * n): run(prefix + [q], left - 1)
    run([], depth)
    return out

# ---------------------------------------------------------------- (2) one object, several keys
def keys_program(init, keys, first, depth):
    return r'''
const keys = [%s]
const rec = fun(prefix, left) {
    const o = {%s}
    var n = 0
    for const p in prefix {
        if p & 1 { delete o[keys[p >> 1]] } else { o[keys[p >> 1]] = n }
        n += 1
    }
    var s = ""
    for const k in keys { s += k in o ? stringify(o[k]) : "-" }
    s += " "
    var cnt = 0
    var sum = 0
    for const k, v in o {
        cnt += 1
        sum += v
        if ! (k in o) || o[k] != v { s += "bad " + k }
    }
    s += stringify(cnt) + " " + stringify(sum)
    if left > 0 {
        print(s)
        for const i in range(2 * keys.size) { rec([prefix..., i], left - 1) }
    }
    else { print(s) }
}
rec(%s, %d)
''' % (", ".join('"%s"' % k for k in keys), ", ".join("%s: %d" % (keys[i], 90 + i) for i in init), str(list(first)), depth)
def keys_model(init, keys, first, depth):
    out = []
    def run(prefix, left):
        o = {i: 90 + i for i in init}
        for n, p in enumerate(prefix):
            if p & 1: o.pop(p >> 1, None)
            else: o[p >> 1] = n
        out.append("".join(str(o[i]) if i in o else "-" for i in range(len(keys))) + " %d %d" % (len(o), sum(o.values())))
        if left:
            for i in range(2 * len(keys)): run(prefix + [i], left - 1)
    run(list(first), depth)
    return out

# ---------------------------------------------------------------- (3) class hierarchies
HPRE = r'''
const log = []
const L = fun(x...) { log.push(stringify(x)) }
const flush = fun { var s = ""
    for const e in log { s += e + " " }
    log.resize(0)
    return s }
const props = fun(o) { const r = []
    for const kv in shallow(o) { r.push(kv[0] + "=" + (typeof kv[1] == "function" ? "fun" : stringify(kv[1]))) }
    r.sort()
    return stringify(r) }
const get_m = fun(o, a) {
    try {
        if typeof o.m == "function" { return stringify(o.m(a)) }
        return stringify(o.m)
    }
    catch const e { return "T" }
}
const get_g = fun(o) { try { return stringify(o.g()) } catch const e { return "T" } }
const look = fun(o, cs) {
    var s = props(o) + get_m(o, 1) + get_g(o)
    for const c in cs { s += o instanceof c ? "1" : "0" }
    return s
}
const make = fun(cs, f) {
    try {
        const o = f()
        return [o, flush() + look(o, cs)]
    }
    catch const e { return [void, flush() + "T" + (typeof e.value == "string" && e.value.size == 2 ? e.value : "")] }
}
'''
class T(Exception): pass
# kind -> (parameters, body with {i}; super lines removed when there is no base)
CT = {
 "N": None,
 "E": ("p = 0", ["L(\"E{i}\", p)", "this.c{i} = p"]),
 "S": ("p = 0", ["super(p + 1)", "this.c{i} = p"]),
 "R": ("p", ["super(p)", "L(\"R{i}\", p)", "this.c{i} = p"]),
 "M": ("p = 0, q...", ["this.c{i} = p", "super(q...)", "L(\"M{i}\", \"c0\" in this)"]),
 "I": ("p = 0", ["if p {{ super(p - 1) }}", "this.c{i} = p"]),
 "W": ("p = 0", ["super(p)", "this.c{i} = p", "super(p + 10)"]),
 "H": ("p = 0", ["const r = super(p)", "L(r == this)", "r.c{i} = p", "return this"]),
 "F": ("p = 0", ["const self = this", "const f = () => self", "super(p)", "f().c{i} = p"]),
 "X": ("p = 0", ["super(p)", "this.c{i} = p", "if p == 1 {{ throw \"x{i}\" }}", "return;"]),
 "D": ("p = 0", ["super(p = p + 3)", "this.c{i} = p", "this.set{i} = k => k + p"]),
 "A": ("a...", ["this.n{i} = a.size", "super(a...)"]),
}
MEM = {
 "n": None,
 "m": "fun m(a) {{ return [\"m{i}\", this.?c{i}, a] }}",
 "s": "fun m(a) {{ return [\"s{i}\", super.m(a + 1)] }}",
 "v": "var m = \"v{i}\"",
}
ROOTC = ("N", "E", "R0", "X0")
def ctor_src(i, kind, root):
    kind = kind[0]
    if CT[kind] is None: return ""
    par, body = CT[kind]
    ls = [l.format(i=i) for l in body if not (root and "super" in l)]
    return "constructor(%s) {\n%s\n}\n" % (par, "\n".join(ls))
def body_src(i, ck, mk, root):
    s = "{\n" + ctor_src(i, ck, root)
    if MEM[mk]: s += MEM[mk].format(i=i) + "\n"
    if root: s += "fun g { return [\"g\", typeof this.m == \"function\" ? this.m(2) : this.m] }\n"
    return s + "}"

class Obj:
    def __init__(self, cls=None): self.cls, self.p = cls, {}
def setp(k, this, i, v): this.p["c%d" % i] = v

class H:
    """h: list of (ctor kind, member kind) from the root down"""
    def __init__(self, h): self.h = h; self.log = []; self.proto = [dict() for _ in h]
    def construct(self, lev, this, args, named=False):
        kind = self.h[lev][0][0]
        base = lev > 0
        def sup(*a, **kw):
            if base: self.construct(lev - 1, this, list(a), **kw)
        if kind == "N":
            if base: self.construct(lev - 1, this, args, named)
            return
        if named:
            if kind in "A": raise T("named")
        if kind == "R" and not args: raise T("")
        p = args[0] if args else 0
        c = "c%d" % lev
        L = lambda *a: self.log.append(fmt(list(a)))
        def num(x):
            if not isinstance(x, int): raise T("")
            return x
        if kind == "E": sup(); L("E%d" % lev, p); this.p[c] = p
        elif kind == "S":
            sup(num(p) + 1); this.p[c] = p
        elif kind == "R": sup(p); L("R%d" % lev, p); this.p[c] = p
        elif kind == "M": this.p[c] = p; sup(*args[1:]); L("M%d" % lev, "c0" in this.p)
        elif kind == "I":
            if p: sup(p - 1)
            this.p[c] = p
        elif kind == "W": sup(p); this.p[c] = p; sup(p + 10)
        elif kind == "H":
            sup(p); L(True); this.p[c] = p
        elif kind == "F": sup(p); this.p[c] = p
        elif kind == "X":
            sup(p); this.p[c] = p
            if p == 1: raise T("x%d" % lev)
        elif kind == "D":
            if base: self.construct_named(lev - 1, this, p + 3)
            this.p[c] = p; this.p["set%d" % lev] = "fun"
        elif kind == "A":
            this.p["n%d" % lev] = len(args); sup(*args)
    def construct_named(self, lev, this, v):
        k = self.h[lev][0][0]
        if k == "N":
            # default constructor: takes any arguments, but has no parameter of this name
            raise Unspec()
        if k == "A": raise Unspec()
        self.construct(lev, this, [v])
    def find_m(self, o, lev):
        if "m" in o.p: return ("own", o.p["m"])
        return self.find_proto(lev)
    def find_proto(self, lev):
        for j in range(lev, -1, -1):
            if "m" in self.proto[j]: return self.proto[j]["m"]
        return None
    def call(self, m, o, a):
        if m is None: raise T("")
        if m[0] in ("v", "own"): raise T("")
        if m[0] == "n": return ["new", o.p.get("c0"), a]
        i = m[1]
        if m[0] == "m": return ["m%d" % i, o.p.get("c%d" % i), a]
        return ["s%d" % i, self.call(self.find_proto(i - 1), o, a + 1)]
    def get_m(self, o, lev, a):
        try:
            m = self.find_m(o, lev)
            if m is None: raise T("")
            if m[0] == "v": return "v%d" % m[1]
            if m[0] == "own": return fmt(m[1])
            return fmt(self.call(m, o, a))
        except T: return "T"
    def get_g(self, o, lev):
        try:
            if lev < 0: raise T("")
            m = self.find_m(o, lev)
            if m is None: raise T("")
            if m[0] == "v": return fmt(["g", "v%d" % m[1]])
            if m[0] == "own": return fmt(["g", m[1]])
            return fmt(["g", self.call(m, o, 2)])
        except T: return "T"
    def look(self, o, lev):
        return props(o) + self.get_m(o, lev, 1) + self.get_g(o, lev) + "".join("1" if j <= lev else "0" for j in range(len(self.h)))
    def flush(self):
        s = "".join(e + " " for e in self.log); self.log.clear(); return s
    def make(self, args, into=None):
        o = into or Obj()
        lev = len(self.h) - 1
        try:
            self.construct(lev, o, args)
            return o, self.flush() + self.look(o, -1 if into else lev)
        except T as e:
            x = e.args[0] if e.args[0].startswith("x") else ""
            return None, self.flush() + "T" + x
class Unspec(Exception): pass
def props(o):
    return fmt(sorted(k + "=" + ("fun" if v == "fun" else fmt(v)) for k, v in o.p.items()))
def fmt(x):
    if x is None: return "void"
    if x is True: return "true"
    if x is False: return "false"
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return '"%s"' % x
    return "[" + ", ".join(fmt(e) for e in x) + "]"

STYLES = ("decl", "lit", "arr", "fn")
def hierarchy(h, style, name):
    """returns (source of a function and its call, expected lines) or None"""
    n = len(h); top = n - 1
    cn = ["K[%d]" % i if style == "arr" else "C%d" % i for i in range(n)]
    s = "const %s = fun {\n" % name
    if style == "arr": s += "const K = []\n"
    if style == "fn": s += "const cnt = [0]\n"
    for i, (ck, mk) in enumerate(h):
        b = body_src(i, ck, mk, i == 0)
        ext = "" if i == 0 else " extends " + (cn[i - 1] if style != "fn" else "base")
        if style == "decl": s += "class C%d%s %s\n" % (i, ext, b)
        elif style == "lit": s += "const C%d = class%s %s\n" % (i, ext, b)
        elif style == "arr": s += "K.push(class%s %s)\n" % (ext, b)
        else: s += "const mk%d = fun(base, u = 4) { cnt[0] += 1\n return class%s %s }\nconst C%d = mk%d(%s)\n" % (i, ext, b, i, i, "void" if i == 0 else cn[i - 1])
    C = cn[top]
    s += "const cs = [%s]\n" % ", ".join(cn)
    exp = []
    try:
        m = H(h)
        for i, (ck, mk) in enumerate(h):
            if mk != "n": m.proto[i]["m"] = (mk, i)
        kept = None
        for a in ([], [5], [0], [1], [2, 7], [3, 1, 9]):
            o, line = m.make(a)
            s += "var r = make(cs, () => %s(%s))\nprint(r[1])\n" % (C, ", ".join(map(str, a))) if a == [] else "r = make(cs, () => %s(%s))\nprint(r[1])\n" % (C, ", ".join(map(str, a)))
            exp.append(line)
        o, line = m.make([4, 8])
        s += "r = make(cs, () => %s([4, 8]...))\nprint(r[1])\n" % C; exp.append(line)
        o, line = m.make([6])
        s += "r = make(cs, () => (6 -> %s))\nprint(r[1])\n" % C; exp.append(line)
        into = Obj(); into.p["z"] = 3
        x, line = m.make([5], into)
        s += "const tgt = {z: 3}\nr = make(cs, () => %s.apply(tgt, [5]))\nprint(r[1], r[0] == tgt ? 1 : 0)\n" % C
        exp.append(line + (" 1" if x else " 0"))
        if h[top][0][0] not in "NA":
            o, line = m.make([5])
            s += "r = make(cs, () => %s(p = 5))\nprint(r[1])\n" % C; exp.append(line)
        o, line = m.make([9])
        m.flush()
        if o:
            s += "const o = %s(9)\nflush()\n" % C
            def obs(): exp.append(m.look(o, top))
            s += "print(look(o, cs))\n"; obs()
            s += "const f = o.?m\nvar t = \"-\"\nif typeof f == \"function\" { try { t = stringify(f.apply({c0: 7}, [1])) } catch const e { t = \"T\" } }\nprint(t)\n"
            mm = m.find_m(o, top)
            if mm is None or mm[0] == "v": exp.append("-")
            else:
                oo = Obj(); oo.p["c0"] = 7
                try: exp.append(fmt(m.call(mm, oo, 1)))
                except T: exp.append("T")
            s += "%s.prototype.m = fun(a) { return [\"new\", this.?c0, a] }\nprint(look(o, cs))\n" % cn[0]; m.proto[0]["m"] = ("n", 0); obs()
            s += "delete %s.prototype.m\nprint(look(o, cs))\n" % cn[top]; m.proto[top].pop("m", None); obs()
            s += "o.m = 77\nprint(look(o, cs))\n"; o.p["m"] = 77; obs()
            s += "print(props(%s.prototype))\n" % cn[top]
            pp = sorted(["m=" + ("fun" if v[0] != "v" else "v%d" % v[1]) for k, v in m.proto[top].items()] + (["g=fun"] if top == 0 else []))
            exp.append(fmt(pp))
            s += "delete o.m\nprint(look(o, cs))\n"; o.p.pop("m"); obs()
            s += "%s.prototype = {m: \"other\"}\nprint(look(o, [%s]), o instanceof %s ? 1 : 0, get_m(%s(9), 1), flush().size > 99)\n" % (C, ", ".join(cn[:-1]), C, C)
            l = m.look(o, top)
            exp.append(l[:-1] + " 0 other false")
    except Unspec: return None
    s += "}\n%s()\n" % name
    return s, exp
def hierarchies(thorough):
    cd = [k for k in CT]
    roots = [(c, m) for c in ROOTC for m in ("n", "m", "v")]
    for r in roots: yield (r,)
    lev = [(c, m) for c in cd for m in MEM]
    for r in roots:
        for x in lev: yield (r, x)
    mids = lev if thorough else [(c, "s") for c in cd] + [("N", m) for m in MEM] + [("W", "n"), ("S", "v")]
    tops = lev if thorough else [(c, "s") for c in cd] + [("N", m) for m in MEM]
    rs = roots if thorough else [("E", "m"), ("R0", "v"), ("N", "n"), ("X0", "m")]
    for r in rs:
        for x in mids:
            for y in tops: yield (r, x, y)

# ---------------------------------------------------------------- (4) built-in prototypes
KINDS = {  # value -> classes it is an instance of
 "1": "integer number object", "(1 << 62)": "integer number object", "1.5": "float number object", "true": "boolean object", "\"s\"": "string object",
 "\"\\x{2601}\"": "string object", "[]": "array object", "[1]": "array object", "buffer(3)": "buffer object", "(fun { })": "function object", "((a) => a)": "function object",
 "(class { })": "class function object", "{}": "object", "{a: 1}": "object", "gen()": "generator function object", "range(3)": "generator function object", "print": "function object",
 "object": "class function object", "exc": "exception object", "void": "", "inst": "object C", "C.prototype": "object",
}
CL = ["integer", "float", "number", "boolean", "string", "array", "buffer", "function", "class", "generator", "exception", "object", "C"]
def builtin_cases():
    names = {"class": "mod.class", "C": "C"}
    for i, (v, isa) in enumerate(KINDS.items()):
        isa = isa.split()
        pre = "import base\nconst C = class { }\nconst inst = C()\nconst gen = fun { yield 1 }\nvar exc = void\ntry { throw 1 } catch const e { exc = e }\nconst classes = [%s]\n" % ", ".join(
            "base.class" if c == "class" else c if c == "C" else "base." + c for c in CL)
        own = v in ("(class { })", "{}", "{a: 1}", "inst", "C.prototype", "object", "exc")
        body = "const v = %s\nvar s = \"\"\nfor const c in classes { s += v instanceof c ? \"1\" : \"0\" }\nprint(s)\n" % v
        exp = ["".join("1" if c in isa else "0" for c in CL)]
        body += '''for const c in classes {
    c.prototype.zz = 5
    var t = ""
    try { t += stringify(v.zz) } catch const e { t += "T" }
    t += "zz" propertyof v ? "?" : "-"
    t += "zz" in v ? "!" : "-"
    try { t += v.?zz == 5 ? "5" : "-" } catch const e { t += "T" }
    delete c.prototype.zz
    try { t += stringify(v.zz) } catch const e { t += "T" }
    print(t)
}
'''
        for c in CL:
            vis = c in isa
            exp.append(("5" if vis else "T") + ("?" if vis else "-") + ("!" if v == "C.prototype" and c == "C" else "-") + ("5" if vis else "-") + "T" if not (v == "C.prototype" and c == "C") else "5?!5T")
        body += '''var t = ""
try { v.qq = 6
    t += "set" } catch const e { t += "T" }
try { t += stringify(v.qq) } catch const e { t += "T" }
t += "qq" in v ? "!" : "-"
try { delete v.qq
    t += "D" } catch const e { t += "T" }
try { t += stringify(v.qq) } catch const e { t += "T" }
try { v[%s] = 1
    t += "set" } catch const e { t += "T" }
print(t)
''' % ("void",)
        exp.append(("set6!" if own else "TT-") + "DTT")
        yield "builtin %s" % v, pre + body, exp

def run():
    ck = common.Check("L08")
    b = batch.Batch(san=True, timeout=60)
    th = not ck.quick
    cs = list(builtin_cases())
    for kind, n, depth, masks in (("class", 3, 3 if th else 2, range(64)), ("extends", 3, 2, range(64) if th else (0, 21, 42, 63)), ("classobj", 1, 4 if th else 3, range(4))):
        for m in masks: cs.append(("chain %s %d" % (kind, m), chain_program(kind, m, n, depth), chain_model(m, n, depth)))
    keys = ("a", "bb", "k7", "zq", "long_name_of_key", "k\u00e9y")
    for init in ((), (0, 1, 2, 3), (5, 3), (0, 1, 2, 3, 4)):
        nk = 5
        for f in itertools.product(range(2 * nk), repeat=1):
            cs.append(("keys %s %s" % (init, f), keys_program([i for i in init if i < nk], keys[:nk], f, 4 if th else 3), keys_model([i for i in init if i < nk], keys[:nk], f, 4 if th else 3)))
    hs = []
    for k, h in enumerate(hierarchies(th)):
        for st in (STYLES if th or len(h) < 3 else (STYLES[k % 4],)):
            hs.append((h, st))
    grp = []
    hc = 0
    def emit():
        src = HPRE + "".join(g[1] for g in grp)
        exp = [l for g in grp for l in g[2]]
        cs.append(("classes %s .." % (grp[0][0],), src, exp))
        del grp[:]
    for h, st in hs:
        r = hierarchy(h, st, "H%d" % len(grp))
        if r is None: continue
        hc += 1
        grp.append(("%s %s" % ("/".join(c + m for c, m in h), st), r[0], r[1]))
        if len(grp) == 25: emit()
    if grp: emit()
    cases.compare(ck, b, cs)
    ck.sample({"program": cs[-1][1][:700], "expected": cs[-1][2][:5]})
    ck.extra["bounds"] = ("all 64 states of a chain of 3 objects over 2 keys x all sequences of %d operations out of 30; all set/delete sequences of length %d over 5 keys; %d class hierarchies (up to 3 levels, %d constructor and %d member kinds), %d observations each; %d value kinds x %d built-in prototypes"
             % (3 if th else 2, 5 if th else 4, hc, len(CT), len(MEM), 17, len(KINDS), len(CL)))
    ck.finish()
if __name__ == "__main__": common.main(run)
