#!/usr/bin/env python3
"""Collection transparency: every program of the corpus is run without collections and then once per allocation point with a full
collection at exactly that point (and with one at every allocation, every second, ...); outputs, exceptions and the exit must be equal.
One build moves every object at every collection and makes the old pages inaccessible; the other uses the normal retention policy with
assertions. Reclamation: loops of garbage of every kind must not make the collected heap grow."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases, fault, corpus

def byaddr(name):
    # the order of distinct functions and objects is that of their addresses: not defined by the language
    return name.startswith("call range(") or name.startswith("call math.max(") or name.startswith("call math.min(")

def sweep(ck, f, tag, progs, lo, hi, each, sample=False):
    reqs = [(p, lo, hi, 1, each) for n, p in progs]
    res = f.run(reqs)
    pts = 0
    for (n, p), r in zip(progs, res):
        if r is None: continue
        ck.states += r.runs; ck.transitions += r.points; ck.traces += 1; pts += r.points
        if r.bad:
            ck.violation("%s %s" % (tag, n), r.out[r.out.index("==BAD=="):][:600], {"program": p, "report": r.out[:6000], "variant": tag})
        elif r.status not in ("ok", "exc"):
            ck.violation("%s %s" % (tag, n), "undisturbed run ended with " + r.status, {"program": p, "report": r.out[:3000], "variant": tag})
        if len(ck.viol) > 5: break
    if pts == 0: raise RuntimeError("no allocation point was seen: the engine is not attached")
    if sample: ck.sample({"program": progs[1][1][-500:], "points": res[1].points if res[1] else 0, "runs": res[1].runs if res[1] else 0})

GARB = {
  "short strings": "const x = \"a\\(i)b\"", "wide strings": "const x = \"\\x{1F600}\\(i)\" + \"\\x{2601}\"", "long strings": "const x = L(i % 10) + \"q\"", "slices": "const x = (L(1) + string(i))[10:60]",
  "arrays": "const x = [i, [i]]", "grown arrays": "const x = []\n    for const j in range(40) { x.push(j) }", "huge arrays": "const x = array(5000)", "resized arrays": "const x = array(10)\n    x.resize(3000)\n    x.resize(2)",
  "objects": "const x = { a: i, b: { c: i } }", "many properties": "const x = { }\n    for const j in range(30) { x[\"p\\(j)\"] = j }\n    for const j in range(20) { delete x[\"p\\(j)\"] }",
  "buffers": "const x = buffer(100)", "huge buffers": "const x = buffer(20000)", "grown buffers": "const x = buffer()\n    for const j in range(30) { x.resize(x.size + 200) }",
  "closures": "const x = F(i)\n    x()", "finished generators": "for const x in G(i) { const z = i + 1 }", "abandoned generators": "const g = G(i)\n    g()", "lazy pipelines": "const g = A(i) -> map(x => [x]) -> filter(x => true)\n    g()",
  "instances": "const x = C(i)", "exceptions": "try { throw [i] } catch const e { const z = e.value[0] }", "nested exceptions": "try { try { throw [i] } catch const e { throw [e] } } catch const e { const z = i }",
  "array cycle": "const x = [i]\n    x.push(x)", "object cycle": "const x = { }\n    x.a = { b: x }", "closure cycle": "var x = void\n    x = fun { return x }", "instance cycle": "const x = C(i)\n    x.me = [x]",
  "integers": "const x = I(i) * 3", "floats": "const x = D(i) * 1.5", "regular expressions": "const x = re.re_uncached(\"a(b)*\").find(\"ab\\(i)\")", "pipes": "const x = io.pipe()\n    x.read.close()\n    x.write.close()",
  "threads": "if i % 20 == 0 { const t = (fun(a) { return [a] }).async(void, [i])\n    t.wait() }", "mutexes": "const m = threads.mutex()\n    with m { const z = i }", "semaphores": "const s = threads.semaphore(1)\n    s.acquire()", "queues": "const q = threads.queue()\n    q.push([i])",
  "json": "const x = json.parse(\"{\\\"a\\\": [1, 2]}\")", "sorting": "const x = [3, 1, 2].sort(y => [y])", "deep calls": "if i % 20 == 0 { const f = fun(n) { return n ? [f(n - 1)] : 0 }\n    f(50) }", "classes": "const K = class { constructor { this.a = i } }\n    K()",
  "functions": "const f = fun(a, b = [i]) { return [a, b] }\n    f(1)", "bound arguments": "const f = fun(a...) { return a }\n    f(A(1)...)", "iterators": "for const a, b in { q: i, r: [i] } { const z = i }", "random": "const x = random.random(i)", "packed": "const b = buffer()\n    b.pack(\"<u4s4\", i, \"abcd\")",
}
def garbage(n1, n2):
    out = []
    for k, body in GARB.items():
        p = corpus.IMPORT + corpus.MODS + "import io\nimport threads\n" + '''const keep = []
const work = fun(n) {
  for const i in range(n) {
    %s
    if keep.size < 20 { keep.push([S(i), W(i)]) }
  }
}
work(%d)
const a = kos.collect_garbage()
work(%d)
const b = kos.collect_garbage()
print(b.used_heap_size - a.used_heap_size, b.malloc_size - a.malloc_size)
for const i in range(20) { if keep[i] != [S(i), W(i)] && stringify(keep[i]) != stringify([S(i), W(i)]) { print("lost", i) } }
''' % (body, n1, n2)
        def cmp(r, k=k):
            if r.status != "ok": return "%s: %s" % (r.status, r.out[-300:])
            l = r.out.split("\n")
            if len(l) != 2: return "live data changed: %s" % r.out[:300]
            h, m = map(int, l[0].split())
            if h > 24000 or m > 24000: return "heap grew by %d and buffers by %d bytes after %d more turns" % (h, m, n2)
        out.append(("garbage " + k, p, cmp))
    return out

def run():
    ck = common.Check("G01")
    q = ck.quick
    hand = [p for p in corpus.hand_programs()]
    one = [p for p in corpus.call_programs(two=False) if not byaddr(p[0])]
    two = [p for p in corpus.call_programs(two=True) if not byaddr(p[0])]
    start = fault.Fault(fault.build_gc(True), preload=corpus.PRELOAD).run([(corpus.IMPORT + corpus.MODS, 0, 0, 1, 0)])[0].points
    lo = max(0, start - 8)           # imports only: the same for all programs, covered by the hand-written ones
    for mad in (True, False):
        tag = "moving" if mad else "retaining"
        f = fault.Fault(fault.build_gc(mad), preload=corpus.PRELOAD)
        sweep(ck, f, tag, hand, 0, -1, 4, True)
        if ck.viol: break
        sweep(ck, f, tag, one, lo, -1, 2 if q else 3)
        if ck.viol: break
        if not q: sweep(ck, f, tag, two, lo, -1, 2)
        else: sweep(ck, f, tag, two, 0, 0, 1)
        if ck.viol: break
    if not ck.viol:
        b = batch.Batch(preload=corpus.PRELOAD, timeout=60)
        cases.compare(ck, b, garbage(300, 3000) if q else garbage(300, 30000), chunk=1)
    ck.extra["bounds"] = "%d hand-written programs and %d calls: one collection at each allocation point; those and %d further calls: a collection at every allocation%s; %d kinds of garbage" % (
        len(hand), len(one), len(two), "" if q else " and at each single one", len(GARB))
    ck.assumptions = ["the order of distinct functions and objects under < and > is that of their addresses and not judged"]
    ck.finish()
if __name__ == "__main__": common.main(run)
