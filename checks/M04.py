#!/usr/bin/env python3
"""Modules: every import graph over three modules (all ordered import lists, self and cyclic imports included), one of them possibly missing,
malformed or throwing, loaded in every order statically and dynamically; every import form against every kind of global; every placement
of a module on the search path. The trace of executed bodies, the values seen and the errors are compared with a reference loader."""
import os, sys, itertools, shutil, tempfile, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases, kosbuild

SUBS = [p for n in range(4) for p in itertools.permutations(range(3), n)]     # 16 ordered import lists
SETS = [p for n in range(4) for p in itertools.combinations(range(3), n)]

class Fail(Exception): pass
class Unjudged(Exception): pass

class Loader:
    def __init__(self, names, imports, kinds):
        self.names, self.imports, self.kinds = names, imports, kinds
        self.loaded, self.thrown, self.chain, self.out, self.tried = {}, set(), [], [], set()
    def load(self, m):
        """loads and runs module number m"""
        if m in self.chain: raise Fail('circular dependencies detected for module "%s"' % self.names[m])
        if m in self.thrown: raise Unjudged()          # imported again after its body failed
        if m in self.loaded: return
        k = self.kinds[m]
        if k == "missing": raise Fail('module "%s" not found' % self.names[m])
        if k == "syntax": raise Fail("%s.kos:" % self.names[m])
        self.chain.append(m)
        try:
            for i in self.imports[m]: self.load(i)
        finally: self.chain.pop()
        self.loaded[m] = 1
        seen = " ".join("%d" % (10 + i) for i in self.imports[m])
        self.out.append("run %s%s" % (self.names[m], " " + seen if seen else ""))
        if k == "throw":
            self.thrown.add(m)
            raise Fail("boom " + self.names[m])

def source(names, m, imports, kind):
    s = "import base.print\n" + "".join("import %s\n" % names[i] for i in imports)
    if kind == "syntax": return s + "print(1\npublic const v = 1\n"
    s += "public var v = %d\n" % (20 + m)
    s += "print(\"run %s\"%s)\n" % (names[m], "".join(", %s.v" % names[i] for i in imports))
    if kind == "throw": s += "throw \"boom %s\"\n" % names[m]
    return s + "v = %d\n" % (10 + m)

def graph_cases(root, th):
    """yields (key, program, expected); writes the module files"""
    gid = 0
    graphs = []
    for g in itertools.product(SUBS, repeat=3): graphs.append((g, ("ok",) * 3))
    for m in range(3):
        for k in ("missing", "syntax"):
            for g in itertools.product(SUBS if th else SETS, repeat=2):
                g = list(g); g.insert(m, ())
                graphs.append((tuple(g), tuple(k if i == m else "ok" for i in range(3))))
        for g in itertools.product(SUBS if th else SETS, repeat=3):
            graphs.append((g, tuple("throw" if i == m else "ok" for i in range(3))))
    for gid, (g, kinds) in enumerate(graphs):
        names = ["q%d%s" % (gid, c) for c in "abc"]
        d = os.path.join(root, "g%d" % (gid % 64)); os.makedirs(d, exist_ok=True)
        for m in range(3):
            if kinds[m] != "missing": open(os.path.join(root, names[m] + ".kos"), "w").write(source(names, m, g[m], kinds[m]))
        # dynamic loads
        for ops in ([(0, 1, 2), (2, 1, 0), (1, 1, 0)] if not th else list(itertools.product(range(3), repeat=2)) + list(itertools.permutations(range(3)))):
            L = Loader(names, g, kinds)
            prog = "import base\n"
            err = []
            for o in ops:
                prog += "try { const m = base.module.load(\"%s\")\n print(\"ok\", m.name, m.get(\"v\")) } catch const e { print(\"failed\", e.value.split_lines() -> first) }\n" % names[o]
                try:
                    L.load(o)
                    L.out.append("ok %s %d" % (names[o], 10 + o))
                except Fail as e: L.out.append("failed " + e.args[0]); err.append(len(L.out) - 1)
                except Unjudged: break
            else:
                yield "graph %s %s loads %s" % (g, kinds, ops), prog, L.out
        for st in ([(0,), (1, 2), (2, 0)] if not th else [p for n in (1, 2, 3) for p in itertools.permutations(range(3), n)]):
            L = Loader(names, g, kinds)
            prog = "".join("import %s\n" % names[i] for i in st) + "print(%s)\n" % ", ".join("%s.v" % names[i] for i in st)
            e = None
            try:
                for i in st: L.load(i)
                L.out.append(" ".join(str(10 + i) for i in st))
            except Fail as x: e = x.args[0]
            except Unjudged: continue
            yield "graph %s %s imports %s" % (g, kinds, st), prog, L.out + ([("EXC", e)] if e else [])

def expect(lines):
    """comparison that only requires an error text to contain the model's one"""
    def f(r):
        got = r.out.split("\n")
        if got and got[-1] == "": got.pop()
        exp = list(lines)
        if exp and isinstance(exp[-1], tuple):
            e = exp.pop()[1]
            if r.status != "exc": return "no error reported, expected %s: %s" % (e, r.out[-300:])
            tail = "\n".join(got[len(exp):])
            if e not in tail: return "error %s expected, got %s" % (e, tail[:300])
            got = got[:len(exp)]
        elif r.status != "ok": return "ended with %s: %s" % (r.status, r.out[-300:])
        for i in range(max(len(got), len(exp))):
            g = got[i] if i < len(got) else "<missing>"
            e = exp[i] if i < len(exp) else "<nothing>"
            if g != e and not (e.startswith("failed ") and g.startswith("failed ") and e[7:] in g): return "line %d: got %s expected %s" % (i, g, e)
    return f

# ------------------------------------------------------------- import forms and globals
EXP = '''import base.print
print("run exporter")
public const c1 = [1]
public var v1 = 5
public var v2 = v1 + 1
public fun bump(n = 1) {
    v1 += n
    v2 = v1 * 2
    return v1
}
public class K1 {
    constructor(x) { this.x = x }
    fun get { return [this.x, v1] }
}
const hid1 = 7
var hid2 = 8
fun hidf { hid2 += 1
    return hid2 }
public fun peek { return [v1, v2, hid1, hidf()] }
do {
    const inner = 9
    print("inner", inner)
}
v2 += 100
'''
PUB = {"c1": "[1]", "v1": "5", "v2": "106", "bump": None, "K1": None, "peek": None}
PRIV = ("hid1", "hid2", "hidf", "inner", "print", "nosuch", "n", "base")
FORMS = ("mod", "modidx", "moddyn", "one", "list", "all", "get")
def use(form, name):
    """(import lines, expression)"""
    if form == "mod": return "import qexp\n", "qexp.%s" % name
    if form == "modidx": return "import qexp\n", "qexp[\"%s\"]" % name
    if form == "moddyn": return "import qexp\nconst kk = [\"%s\"][0]\n" % name, "qexp[kk]"
    if form == "one": return "import qexp.%s\n" % name, name
    if form == "list": return "import qexp: c1%s\n" % ("" if name == "c1" else ", " + name), name
    if form == "all": return "import qexp.*\n", name
    return "import base\n", "base.module.load(\"qexp\").get(\"%s\", 99)" % name
def form_cases():
    run = ["run exporter", "inner 9"]
    for form in FORMS:
        for name, val in PUB.items():
            imp, ex = use(form, name)
            p = imp + "print(\"main\")\n"
            exp = run + ["main"] if form != "get" else ["main"] + run
            if val is not None: p += "print(%s)\n" % ex; exp = exp + [val]
            elif name == "bump": p += "print((%s)(), (%s)(4), (%s)(n = 10))\n" % (ex, ex, ex); exp = exp + ["6 10 20"]
            elif name == "peek": p += "print((%s)())\nprint((%s)())\n" % (ex, ex); exp = exp + ["[5, 106, 7, 9]", "[5, 106, 7, 10]"]
            else: p += "const o = (%s)(3)\nprint(o.get(), o instanceof (%s), o.x)\n" % (ex, ex); exp = exp + ["[3, 5] true 3"]
            yield "form %s %s" % (form, name), p, exp
        for name in PRIV:
            imp, ex = use(form, name)
            if name in ("print", "base") and form == "all": continue   # visible from elsewhere in the main program
            p = imp + "const res = [%s]\nprint(\"value\", res)\n" % ex
            def f(r, form=form, name=name):
                if form == "get": return None if r.status == "ok" and r.out == "run exporter\ninner 9\nvalue [99]\n" else "got %s %s" % (r.status, r.out[-200:])
                if r.status != "exc" or "value" in r.out: return "a name that is not public was accepted: %s %s" % (r.status, r.out[-200:])
            yield "private %s %s" % (form, name), p, f
        for name in PUB:
            if form in ("get",): continue
            imp, ex = use(form, name)
            p = "import base\n" + imp + "var how = \"set\"\ntry { %s = 3 } catch const e { how = \"refused\" }\nprint(how, base.module.load(\"qexp\").get(\"v1\"), base.module.load(\"qexp\").get(\"v2\"), base.module.load(\"qexp\").get(\"c1\"))\n" % ex
            def f(r):
                if r.status == "exc": return None if "const variable" in r.out or "not assignable" in r.out else "unexpected error %s" % r.out[-200:]
                return None if r.status == "ok" and r.out.endswith("refused 5 106 [1]\n") else "assignment changed the module: %s %s" % (r.status, r.out[-200:])
            yield "assign %s %s" % (form, name), p, f
    # sharing: two importers with every pair of forms, every order of three steps
    for fa, fb in itertools.product(("mod", "modidx", "one", "all"), repeat=2):
        def imp(f): return {"mod": "import qexp\n", "modidx": "import qexp\n", "one": "import qexp.v1\nimport qexp.v2\nimport qexp.bump\nimport qexp.c1\n", "all": "import qexp.*\n"}[f]
        def e(f, n): return {"mod": "qexp." + n, "modidx": "qexp[\"%s\"]" % n}.get(f, n)
        yield ("mods", fa, fb, imp, e), None, None

def sharing_cases(root):
    for (tag, fa, fb, imp, e), _, _ in [c for c in form_cases() if isinstance(c[0], tuple)]:
        n = "qs_%s_%s" % (fa, fb)
        for x, f in (("x", fa), ("y", fb)):
            open(os.path.join(root, n + x + ".kos"), "w").write("import base.print\n%spublic fun see { return [%s, %s, %s.size] }\npublic fun step(k) { return %s(k) }\npublic fun grow { %s.push(0) }\npublic const early = %s\npublic fun see_late { return () => [%s, %s] }\n"
                % (imp(f), e(f, "v1"), e(f, "v2"), e(f, "c1"), e(f, "bump"), e(f, "c1"), e(f, "v1"), e(f, "v1"), e(f, "v2")))
        for ops in itertools.product(("x1", "y2", "xg", "yg"), repeat=3):
            p = "import %sx\nimport %sy\n" % (n, n)
            p += "const lx = %sx.see_late()\nconst ly = %sy.see_late()\n" % (n, n)
            v1, v2, c = 5, 106, 1
            exp = ["run exporter", "inner 9"]
            for o in ops:
                if o[1] == "g": p += "%s%s.grow()\n" % (n, o[0]); c += 1
                else: p += "%s%s.step(%s)\n" % (n, o[0], o[1]); v1 += int(o[1]); v2 = v1 * 2
                p += "print(%sx.see(), %sy.see(), lx(), ly(), %sx.early, %sy.early)\n" % (n, n, n, n)
                s = "[%d, %d, %d]" % (v1, v2, c); l = "[%d, %d]" % (v1, v2)
                exp.append("%s %s %s %s 5 5" % (s, s, l, l))
            yield "sharing %s %s %s" % (fa, fb, ops), p, exp

def again_cases(root):
    """the same module reached under every kind of name, in every order"""
    os.makedirs(os.path.join(root, "qsub"), exist_ok=True)
    open(os.path.join(root, "qsub", "qonce.kos"), "w").write("import base.print\nprint(\"run once\")\npublic var n = 0\npublic fun up { n += 1\n return n }\n")
    names = [os.path.join(root, ".", "qsub", "qonce.kos"), os.path.join(root, "qsub", "qonce.kos"), os.path.join(root, "qsub", "..", "qsub", "qonce.kos"), "qonce"]
    for seq in itertools.product(range(4), repeat=3):
        loaded = False; n = 0
        p = "import base\n"; exp = []
        for i in seq:
            p += "try { print(base.module.load(\"%s\").get(\"up\")()) } catch const e { print(\"failed\") }\n" % names[i]
            if i == 3 and not loaded: exp.append("failed"); continue
            if not loaded: exp.append("run once"); loaded = True
            n += 1; exp.append(str(n))
        yield "again %s" % (seq,), p, exp
    p = "import qsub/qonce\nimport qsub/qonce.up\nimport base\nprint(qonce.up(), up(), base.module.load(\"qsub/qonce\").get(\"n\"))\n"
    yield "again static", p, ["run once", "1 2 2"]

# ------------------------------------------------------------- search path
def search(ck, root, exe):
    n = 0
    for mask in range(16):                       # in script directory, d1, d2, d3
        for order in itertools.permutations((1, 2, 3)):
            for form in ("import qwhere\nqwhere.f()\n", "import qd/qwhere\nqwhere.f()\n", "import base\nbase.module.load(\"qwhere\").get(\"f\")()\n"):
                d = os.path.join(root, "s%d" % n); n += 1
                sub = "qd" if "qd/" in form else "."
                for i in range(4):
                    os.makedirs(os.path.join(d, "d%d" % i, "qd"), exist_ok=True)
                    if mask >> i & 1: open(os.path.join(d, "d%d" % i, sub, "qwhere.kos"), "w").write("import base.print\npublic fun f { print(\"from d%d\") }\n" % i)
                open(os.path.join(d, "d0", "qmain.kos"), "w").write(form)
                env = dict(os.environ, KOSPATH=os.pathsep.join(os.path.join(d, "d%d" % i) for i in order) + os.pathsep + os.path.join(kosbuild.REPO, "modules"))
                r = subprocess.run([exe, os.path.join(d, "d0", "qmain.kos")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=root, timeout=60)
                out = r.stdout.decode("utf-8", "replace")
                want = [i for i in (0,) + order if mask >> i & 1]
                ck.traces += 1; ck.transitions += 1; ck.states += 1
                if want and out.split("\n")[0] != "from d%d" % want[0] or not want and ("from" in out or "not found" not in out or r.returncode == 0):
                    ck.violation("search mask %d order %s %r" % (mask, order, form), "got %r, expected module from %s" % (out[:200], want[:1]), {"mask": mask, "order": order, "main": form})
                shutil.rmtree(d)

def run():
    ck = common.Check("M04"); th = not ck.quick
    root = tempfile.mkdtemp(prefix="kosmod")
    try:
        open(os.path.join(root, "qexp.kos"), "w").write(EXP)
        b = batch.Batch(san=True, timeout=30, paths=[root])
        cs = [c for c in form_cases() if not isinstance(c[0], tuple)] + list(sharing_cases(root)) + list(again_cases(root))
        cases.compare(ck, b, cs)
        if not ck.viol:
            g = list(graph_cases(root, th))
            ck.sample({"program": g[len(g) // 2][1][:700], "expected": [str(x) for x in g[len(g) // 2][2]][:5]})
            cases.compare(ck, batch.Batch(timeout=30, paths=[root]), [(k, p, expect(e), len(e)) for k, p, e in g], chunk=64)
        if not ck.viol:
            exe = kosbuild.build("interp", [os.path.join(kosbuild.REPO, "interpreter", "kos.c")], flags=["-O2"], hflags=["-O2"])
            search(ck, root, exe)
    finally: shutil.rmtree(root, ignore_errors=True)
    ck.extra["bounds"] = "all %d import graphs over 3 modules with ordered import lists (self and cyclic imports included), one module possibly missing, malformed or throwing, in %d load orders; 7 import forms x 14 names; 16 pairs of importers x 64 step sequences; 16 placements x 6 search orders x 3 forms" % (16 ** 3, 15 + 15 if th else 6)
    ck.assumptions = ["modules are identified by the last component of their name", "a module whose body failed is not imported again in the same run"]
    ck.finish()
if __name__ == "__main__": common.main(run)
