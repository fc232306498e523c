"""Scenario programs of the VM-level schedule explorer (mc/h_prog.c)."""
import os, re, itertools
import kosbuild

HEAD = """import base: stringify
@IMPORTS@const string = fun(x...) { var r = ""
 for const v in x { r += stringify(v) }
 return r }
const res = fun(f) { try { return string(f()) } catch const e { return "!" + string(e.value) } }
"""


class Scen:
    def __init__(self, name, src, allowed, quick=1, thorough=2, free=2, directives=()):
        i = re.findall("^import .*\n", src[len("import base: stringify\n"):], re.M)
        src = re.sub("(?m)^import (?!base: stringify).*\n", "", src).replace("@IMPORTS@", "".join(i))
        self.name, self.src, self.allowed, self.quick, self.thorough, self.free, self.dir = name, src, allowed, quick, thorough, free, directives

    def text(self):
        return "".join("#= %s\n" % a for a in self.allowed) + "".join("#: %s\n" % d for d in self.dir) + self.src


def write(cid, scens):
    """files for the scenarios; returns [(path, scenario)]"""
    d = os.path.join(kosbuild.BUILD, "scen", cid)
    os.makedirs(d, exist_ok=True)
    r = []
    for s in scens:
        p = os.path.join(d, s.name + ".kos")
        with open(p + ".tmp%d" % os.getpid(), "w") as f:
            f.write(s.text())
        os.rename(p + ".tmp%d" % os.getpid(), p)
        r.append((p, s))
    return r


# ------------------------------------------------------------------ threads: C05
def threads():
    def s(name, src, allowed, **k):
        return Scen(name, HEAD + src, allowed, **k)
    body = "const f = fun(a, b) { return [a, b] }\n"
    yield s("value", body + "public fun main { const t = async f(3, 4)\n const r = t.wait()\n return string(r[0], r[1]) }\n", ["34"], quick=2, thorough=3)
    yield s("this", "const o = { k: 5, m: fun(a) { return this.k * 10 + a } }\npublic fun main { const t = async o.m(2)\n return string(t.wait()) }\n", ["52"], quick=2, thorough=3)
    yield s("apply", "const m = fun(a, b) { return this * 100 + a * 10 + b }\npublic fun main { const t = m.async(7, [1, 2])\n return string(t.wait()) }\n", ["712"], quick=2, thorough=3)
    yield s("named", "const m = fun(a, b = 6) { return a * 10 + b }\npublic fun main { const t = async m(a = 2)\n return string(t.wait()) }\n", ["26"])
    yield s("exception", "const m = fun(a) { throw a + 1 }\npublic fun main { const t = async m(2)\n return res(() => t.wait()) }\n", ["!3"], quick=2, thorough=3)
    yield s("exception_here", "const m = fun(a) { throw string(a + 1) }\npublic fun main { const t = async m(2)\n return string(t.wait()) }\n", ["EXC:3"])
    yield s("excobj", "const o = { k: 4 }\nconst m = fun { throw o }\npublic fun main { const t = async m()\n try { t.wait() } catch const e { return string(e.value == o, e.value.k) } return \"\" }\n", ["true4"])
    yield s("twice", "const m = fun(a) { return a }\npublic fun main { const t = async m(2)\n return res(() => t.wait()) + res(() => t.wait()) }\n", ["2!thread already joined"])
    yield s("twiceexc", "const m = fun(a) { throw a }\npublic fun main { const t = async m(2)\n return res(() => t.wait()) + res(() => t.wait()) }\n", ["!2!thread already joined"])
    yield s("two_waiters", "const m = fun(a) { return a }\nconst w = fun(t) { return res(() => t.wait()) }\npublic fun main { const t = async m(7)\n const u = async w(t)\n const a = w(t)\n return a + \" \" + u.wait() }\n",
            ["7 !thread already joined", "!thread already joined 7"], quick=1, thorough=2)
    yield s("three_waiters", "const m = fun(a) { throw a }\nconst w = fun(t) { return res(() => t.wait()) == \"!9\" ? 1 : 0 }\npublic fun main { const t = async m(9)\n const u = async w(t)\n const v = async w(t)\n return string(w(t) + u.wait() + v.wait()) }\n",
            ["1"], quick=0, thorough=1)
    yield s("self", "import threads: semaphore\nconst box = [void]\nconst s = semaphore()\nconst m = fun { s.acquire()\n const t = box[0]\n return res(() => t.wait()) }\n"
            "public fun main { box[0] = async m()\n s.release()\n return box[0].wait() }\n", ["!thread cannot join itself", "!thread already joined"])
    yield s("nested", "const g = fun(a) { return a + 1 }\nconst m = fun(a) { const t = async g(a)\n return t.wait() + 10 }\npublic fun main { const t = async m(2)\n return string(t.wait()) }\n", ["13"])
    yield s("nested_handed", "const g = fun(a) { return a + 1 }\nconst m = fun(a) { return async g(a) }\npublic fun main { const t = async m(2)\n return string(t.wait().wait()) }\n", ["3"])
    yield s("unwaited", "const a = [0]\nconst m = fun { a[0] = 1 }\npublic fun main { async m()\n return \"x\" }\n", ["x"], quick=2, thorough=3)
    yield s("unwaited_two", "const a = [0]\nconst m = fun(k) { a[0] = k }\npublic fun main { async m(1)\n const t = async m(2)\n return \"x\" }\n", ["x"], quick=1, thorough=2)
    yield s("unwaited_keep", "public const box = [void]\nconst m = fun { return [box] }\npublic fun main { box[0] = async m()\n return \"x\" }\n", ["x"], quick=2, thorough=3)
    yield s("unwaited_throw", "const m = fun { throw 5 }\npublic fun main { async m()\n return \"x\" }\n", ["x"], quick=1, thorough=3)
    yield s("unwaited_nested", "const g = fun { }\nconst m = fun { try { async g() } catch const e { } }\npublic fun main { async m()\n return \"x\" }\n", ["x"], quick=1, thorough=2)
    yield s("unwaited_nested_wait", "const g = fun { return 1 }\nconst m = fun { try { const t = async g()\n t.wait() } catch const e { if e.value != \"cannot create threads on exit\" { throw e } } }\npublic fun main { async m()\n return \"x\" }\n", ["x"], quick=1, thorough=2)
    yield s("unwaited_waiting_each_other", "const box = [void]\nconst g = fun { return 1 }\nconst m = fun { const t = box[0]\n try { t.wait() } catch const e { } }\npublic fun main { box[0] = async g()\n async m()\n return \"x\" }\n", ["x"], quick=1, thorough=2)
    yield s("limit", "import threads: semaphore\nconst s = semaphore()\nconst m = fun { s.acquire()\n return 4 }\npublic fun main { const t = async m()\n const r = res(() => async m())\n s.release()\n return r + \" \" + res(() => t.wait()) }\n",
            ["!too many threads 4"], directives=["threads 1"])
    yield s("limit_reuse", "const m = fun(a) { return a }\npublic fun main { var r = \"\"\n for const i in [1, 2, 3] { const t = async m(i)\n r += string(t.wait()) }\n return r }\n", ["123"], directives=["threads 1"])
    yield s("limit_reuse_exc", "const m = fun(a) { throw a }\npublic fun main { var r = \"\"\n for const i in [1, 2, 3] { const t = async m(i)\n r += res(() => t.wait()) }\n return r }\n", ["!1!2!3"], directives=["threads 1"])
    yield s("limit_contended", "import threads: semaphore\nconst s = semaphore()\nconst g = fun { s.acquire()\n return 4 }\nconst q = fun { try { return async g() } catch const e { return e.value } }\n"
            "public fun main { const t = async q()\n const a = q()\n const b = t.wait()\n s.release(2)\n const n = fun(x) { return x == \"too many threads\" ? \"n\" : string(x.wait()) }\n return n(a) + n(b) }\n",
            ["4n", "n4"], directives=["threads 2"], quick=1, thorough=1)
    yield s("many", "const m = fun(a) { return a * a }\npublic fun main { const t = [async m(1), async m(2), async m(3)]\n return string([(t -> map)...]...) }\n".replace("string([(t -> map)...]...)", "string(t[2].wait(), t[0].wait(), t[1].wait())"), ["914"], quick=1, thorough=1)
    yield s("closure", "public fun main { var x = [1][0]\n const t = async (fun { x += 10\n return x })()\n const r = t.wait()\n return string(r, x) }\n", ["1111"], quick=1, thorough=3)
    yield s("wait_in_defer", "const m = fun { return 3 }\npublic fun main { var r = \"\"\n do { const t = async m()\n defer { r += string(t.wait()) }\n r += \"a\" }\n return r }\n", ["a3"])
    yield s("stringify", "const o = { k: 1 }\nconst m = fun { o.k = 2\n return o.k }\npublic fun main { const t = async m()\n const a = stringify(o)\n t.wait()\n return a }\n".replace("stringify(o)", "string(o.k)"), ["1", "2"], quick=2, thorough=3)
    yield s("not_thread", "const m = fun { return 3 }\npublic fun main { const t = async m()\n const w = t.wait\n return res(() => w.apply(5, [])) + res(() => w.apply({}, [])) + string(t.wait()) }\n", ["!object is not a thread!thread already joined3", "!object is not a thread!object is not a thread3"])
    # generators used by two threads
    yield s("generator", "const g = fun { yield 1\n yield 2 }\npublic fun main { const it = g()\n const n = fun { return res(() => it()) }\n const t = async n()\n const a = n()\n const b = t.wait()\n return a + b }\n",
            ["12", "21", "1!generator is running", "!generator is running1"], quick=1, thorough=2)
    yield s("generator_end", "const g = fun { yield 1 }\npublic fun main { const it = g()\n it()\n const n = fun { return res(() => it()) }\n const t = async n()\n const a = n()\n const b = t.wait()\n return (a.starts_with(\"!\") && b.starts_with(\"!\")) ? \"ok\" : a + b }\n",
            ["ok"], quick=1, thorough=2)


# ------------------------------------------------------------------ synchronisation: C06
def mutexes():
    pre = HEAD + "import threads: mutex\nconst a = [0]\nconst mx = mutex()\n"
    cs = {"explicit": "mx.acquire()\n const v = a[0]\n a[0] = v + k\n mx.release()", "with": "with mx { const v = a[0]\n a[0] = v + k }",
          "throw": "try { with mx { const v = a[0]\n a[0] = v + k\n throw 1 } } catch const e { }", "return": "with mx { const v = a[0]\n a[0] = v + k\n return; }",
          "break": "for const i in [1, 2] { with mx { const v = a[0]\n a[0] = v + k\n break } }"}
    for n, c in cs.items():
        yield Scen("mutex_" + n, pre + "const f = fun(k) { %s }\npublic fun main { const t = async f(1)\n f(2)\n t.wait()\n return string(a[0]) }\n" % c, ["3"], quick=1 if n in ("throw", "break") else 2, thorough=3)
        yield Scen("mutex3_" + n, pre + "const f = fun(k) { %s }\npublic fun main { const t = async f(1)\n const u = async f(4)\n f(2)\n t.wait()\n u.wait()\n return string(a[0]) }\n" % c, ["7"], quick=1, thorough=2 if n == "with" else 1)
    yield Scen("mutex_twice", pre + "const f = fun(k) { for const i in [1, 2] { with mx { const v = a[0]\n a[0] = v + k } } }\npublic fun main { const t = async f(1)\n f(10)\n t.wait()\n return string(a[0]) }\n", ["22"], quick=1, thorough=2)
    yield Scen("mutex_two", pre + "const my = mutex()\nconst f = fun(k) { with mx { with my { const v = a[0]\n a[0] = v + k } } }\nconst g = fun(k) { with my { const v = a[0]\n a[0] = v + k } }\n"
               "public fun main { const t = async f(1)\n g(2)\n t.wait()\n return string(a[0]) }\n", ["3"], quick=1, thorough=2)
    yield Scen("mutex_distinct", pre + "const my = mutex()\nconst f = fun(k, m) { with m { a[k] = k } }\na.resize(3)\npublic fun main { mx.acquire()\n const t = async f(1, my)\n t.wait()\n mx.release()\n return string(a[1]) }\n", ["1"], quick=1, thorough=2)
    yield Scen("mutex_this", pre + "public fun main { return string(mx.acquire() == mx, mx.release() == mx) }\n", ["truetrue"])
    yield Scen("mutex_foreign", pre + "const f = fun { mx.release() }\nconst g = fun { with mx { a[0] += 1 } }\npublic fun main { mx.acquire()\n const t = async f()\n t.wait()\n const u = async g()\n const v = a[0]\n a[0] = v + 10\n mx.release()\n u.wait()\n return string(a[0]) }\n", ["11"], quick=1, thorough=2)
    yield Scen("mutex_unheld", pre + "public fun main { mx.release()\n with mx { a[0] = 1 }\n mx.release()\n mx.acquire()\n mx.release()\n return string(a[0]) }\n", ["1"])


def semaphores():
    """every assignment of short acquire/release sequences to two (three) threads which cannot block for ever"""
    seqs = ["a1", "a2", "r1", "r2", "a1r1", "r1a1", "a1a1", "r1r1", "a2r1", "a1r2", "r1a2"]

    def parse(q):
        return [(q[i], int(q[i + 1])) for i in range(0, len(q), 2)]

    def safe(init, ts):
        """no reachable state blocks (units are taken one by one)"""
        start = (init, tuple((0, t[0][1] if t else 0) for t in ts))
        seen, todo = {start}, [start]
        ends = set()
        while todo:
            v, st = todo.pop()
            moved = False
            for i, (pc, left) in enumerate(st):
                t = ts[i]
                if pc >= len(t):
                    continue
                op, n = t[pc]
                if op == "r":
                    nv, npc, nl = v + n, pc + 1, None
                elif v > 0:
                    nv, npc, nl = (v - 1, pc, left - 1) if left > 1 else (v - 1, pc + 1, None)
                else:
                    continue
                if nl is None:
                    nl = t[npc][1] if npc < len(t) else 0
                moved = True
                ns = (nv, st[:i] + ((npc, nl),) + st[i + 1:])
                if ns not in seen:
                    seen.add(ns)
                    todo.append(ns)
            if not moved:
                if any(pc < len(ts[i]) for i, (pc, _) in enumerate(st)):
                    return None
                ends.add(v)
        return ends

    def prog(init, ts):
        fs = ["const f%d = fun { %s }\n" % (i, "\n ".join("s.%s(%d)" % ("acquire" if o == "a" else "release", n) for o, n in t)) for i, t in enumerate(ts)]
        m = "".join("const t%d = async f%d()\n " % (i, i) for i in range(1, len(ts))) + "f0()\n " + "".join("t%d.wait()\n " % i for i in range(1, len(ts)))
        return HEAD + "import threads: semaphore\nconst s = semaphore(%d)\n" % init + "".join(fs) + "public fun main { " + m + "return string(s.value) }\n"
    for init in (0, 1, 2):
        for x, y in itertools.product(seqs, repeat=2):
            ts = [parse(x), parse(y)]
            e = safe(init, ts)
            if e and ("a" in x or "a" in y):
                small = len(x) + len(y) <= 4
                tiny = small and init == 0
                yield Scen("sem%d_%s_%s" % (init, x, y), prog(init, ts), [str(v) for v in e], quick=2 if tiny else 1, thorough=3 if small else 2)
    for init, *q in [(0, "a1", "a1", "r2"), (0, "a1", "r1", "a1r1"), (0, "a2", "r1", "r1"), (1, "a1r1", "a1r1", "a1r1"), (0, "a1", "a2", "r3"), (0, "r3", "a1", "a2"), (0, "r1", "a1r1", "a1"), (2, "a2r2", "a1r1", "a1r1"), (1, "a1", "r1", "a1")]:
        ts = [parse(x) for x in q]
        e = safe(init, ts)
        if e: yield Scen("sem3_%d_%s" % (init, "_".join(q)), prog(init, ts), [str(v) for v in e], quick=1, thorough=1)
    with_ = HEAD + "import threads: semaphore\nconst s = semaphore(1)\nconst a = [0]\nconst f = fun(k) { with s { const v = a[0]\n a[0] = v + k } }\n"
    yield Scen("sem_with", with_ + "public fun main { const t = async f(1)\n f(2)\n t.wait()\n return string(a[0], s.value) }\n", ["31"], quick=2, thorough=2)
    yield Scen("sem_watch", HEAD + "import threads: semaphore\nconst s = semaphore(1)\nconst f = fun { s.acquire()\n s.release(2) }\npublic fun main { const t = async f()\n const v = s.value\n t.wait()\n return string(v, s.value) }\n", ["12", "02", "22"], quick=2, thorough=3)


def queues():
    for cls in ("queue", "stack"):
        pre = HEAD + "import threads.%s\nconst q = %s()\n" % (cls, cls)
        fifo = cls == "queue"

        def s(name, body, allowed, **k):
            return Scen(cls + "_" + name, pre + body, allowed, **k)
        yield s("one", "const f = fun { q.push(1) }\npublic fun main { const t = async f()\n const x = q.pop()\n t.wait()\n return string(x, q.size) }\n", ["10"], quick=2, thorough=3)
        yield s("two", "const f = fun { q.push(1)\n q.push(2) }\npublic fun main { const t = async f()\n const x = q.pop()\n const y = q.pop()\n t.wait()\n return string(x, y, q.size) }\n", ["120"] if fifo else ["120", "210"], quick=1, thorough=2)
        yield s("pushed2", "const f = fun { q.push(1, 2) }\npublic fun main { const t = async f()\n const x = q.pop()\n const y = q.pop()\n t.wait()\n return string(x, y, q.size) }\n", ["120"] if fifo else ["210"], quick=1, thorough=2)
        yield s("pop2", "const f = fun { q.push(1)\n q.push(2) }\npublic fun main { const t = async f()\n const x = q.pop(2)\n t.wait()\n return string(x[0], x[1], x.size, q.size) }\n", ["1220"], quick=1, thorough=2)
        yield s("producers", "const f = fun(a, b) { q.push(a)\n q.push(b) }\npublic fun main { const t = async f(1, 2)\n f(3, 4)\n t.wait()\n return string(q.pop(), q.pop(), q.pop(), q.pop(), q.size) }\n",
                [x + "0" for x in (("1234", "1324", "1342", "3124", "3142", "3412") if fifo else ("4321", "4231", "2431", "4213", "2413", "2143"))], quick=1, thorough=2)
        yield s("consumers", "const f = fun { return q.pop() }\npublic fun main { q.push(1)\n q.push(2)\n const t = async f()\n const x = q.pop()\n const y = t.wait()\n return string(x, y, q.size) }\n", ["120", "210"], quick=1, thorough=2)
        yield s("consumers_wait", "const f = fun { return q.pop() }\npublic fun main { const t = async f()\n const u = async f()\n q.push(1, 2)\n const x = t.wait()\n const y = u.wait()\n return string(x, y, q.size) }\n", ["120", "210"], quick=1, thorough=1)
        yield s("handover", "const p = %s()\nconst f = fun { p.push(q.pop() + 1) }\npublic fun main { const t = async f()\n q.push(4)\n const x = p.pop()\n t.wait()\n return string(x, q.size, p.size) }\n" % cls, ["500"], quick=1, thorough=2)
        yield s("mixed", "const f = fun { q.push(5)\n return q.pop() }\npublic fun main { const t = async f()\n q.push(6)\n const x = q.pop()\n const y = t.wait()\n return string(x, y, q.size) }\n", ["560", "650"], quick=1, thorough=2)
        yield s("popmulti", "const f = fun { return q.pop(2) }\npublic fun main { q.push(1, 2, 3)\n const t = async f()\n const x = q.pop()\n const y = t.wait()\n return string(x, y[0], y[1], y.size, q.size) }\n",
                ["12320", "31220"] if fifo else ["31220", "12320", "12320"], quick=1, thorough=2)
        yield s("long", "const f = fun { for const i in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] { q.push(i) } }\npublic fun main { f()\n const t = async (fun { q.push(13) })()\n var r = 0\n var ok = [true][0]\n for const i in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13] { const x = q.pop()\n r += x\n if x != i { ok = false } }\n"
                " t.wait()\n return string(r, %s, q.size) }\n" % ("ok" if fifo else "true"), ["91true0"], quick=1, thorough=1)
        yield s("push0", "public fun main { q.push()\n q.push(1)\n return string(q.pop(), q.size, q.pop(0)) }\n", ["10void"])


def check(ck, scens):
    import common
    exe = kosbuild.build_mc("h_prog.c", modules=True)
    files = write(ck.id if hasattr(ck, "id") else ck.pid, scens)
    q = ck.quick
    byfree = {}
    for p, s in files:
        byfree.setdefault(s.free, []).append((p, s.quick if q else s.thorough))
    for free, groups in sorted(byfree.items()):
        groups.sort(key=lambda g: -g[1])
        common.run_mc(ck, exe, groups, extra_args=[str(free if q else free + 1), os.path.join(kosbuild.REPO, "modules")], per_scenario_time=150 if q else 1200)
    ck.extra["bounds"] = "%d programs with 2 to 4 threads; each under all schedules with at most 1 or 2 (thorough up to 3) preemptions and %d non-default picks at blocking points, from the call of main to the end of instance destruction" % (len(scens), 2 if q else 3)
    for s in scens[:3] + scens[-2:]:
        ck.sample({"scenario": s.name, "program": s.src, "allowed": s.allowed})
    ck.assumptions += ["sequentially consistent memory", "scheduling points at every access to memory touched by two threads with at least one write and at every synchronisation operation"]
