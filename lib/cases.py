"""Comparison of batches of programs with their expected outputs."""
import hashlib

def compare(ck, b, cases, prefix="", progress=None, chunk=32):
    """cases: (key, program, expected lines list | callable(Res)->error or None [, weight]).
    Each expected line corresponds to one explored case of the model."""
    outs = set()
    res = b.run([c[1] for c in cases], chunk=chunk)
    for c, r in zip(cases, res):
        key, prog, exp = c[0], c[1], c[2]
        ck.traces += 1
        outs.add(hash(r.status))
        for l in r.out.split('\n'): outs.add(hash(l))
        if callable(exp):
            if r.status == "notrun": continue
            ck.transitions += c[3] if len(c) > 3 else 1
            e = exp(r)
            if e:
                ck.violation(prefix + key, e, {"program": prog, "status": r.status, "output": r.out[:2000]})
            continue
        ck.transitions += max(1, len(exp))
        if r.status == "notrun": continue
        if r.status != "ok":
            got = r.out.split("\n")
            ck.violation(prefix + key, "program ended with %s: %s" % (r.status, r.out[-300:].replace("\n", " | ")), {"program": prog, "output": r.out[:2000]})
            continue
        got = r.out.split("\n")
        if got and got[-1] == "": got.pop()
        if got != exp:
            for i in range(max(len(got), len(exp))):
                g = got[i] if i < len(got) else "<missing>"
                e = exp[i] if i < len(exp) else "<nothing>"
                if g != e:
                    ck.violation("%s%s#%d" % (prefix, key, i), "got %s expected %s" % (g[:200], e[:200]), {"program": prog[:4000], "line": i, "got": g, "expected": e})
                    break
    ck.extra["distinct_outcomes"] = ck.extra.get("distinct_outcomes", 0) + len(outs)
    ck.states += len(outs)
    return res

_G = {}
def _work(arg):
    """One task: a list of trees, run in groups; a group that differs is rerun one tree at a time."""
    name, trees = arg
    if _G["stop"].is_set(): return None
    b, stmts, mk, group = _G["b"], _G["stmts"], _G["mk"], _G["group_of"](name)
    cs = [c for c in (mk(t, name) for t in trees) if c]
    if not cs: return 0, 0, 0, [], None
    groups = [cs[i:i + group] for i in range(0, len(cs), group)]
    res = b.run([stmts.group_program(g) for g in groups], chunk=1 << 30)
    viol, trans = [], 0
    for g, r in zip(groups, res):
        exp = [c.expected() for c in g]
        trans += sum(getattr(c, "events", 0) or len(c.out) for c in g)
        if exp == ["ERR"]:          # must be rejected by the compiler, nothing may have run
            if not (r.status == "exc" and r.out.startswith("\nEXC:t:")):
                viol.append(("%s %s" % (name, g[0].tree), "not rejected: %s %s" % (r.status, r.out.strip()[:300]), {"program": stmts.group_program(g)}))
                _G["stop"].set()
            continue
        if r.status == "ok" and r.out.split("\n")[:-1] == exp: continue
        single = b.run([stmts.group_program([c]) for c in g], chunk=1 << 30)
        for c, e, s in zip(g, exp, single):
            if s.status != "ok" or s.out != e + "\n":
                viol.append(("%s %s" % (name, c.tree), "%s: got %s expected %s" % (s.status, s.out.strip()[:300], e[:300]),
                             {"program": stmts.group_program([c]), "expected": e}))
                break
        else:
            viol.append((name + " group", "functions give other results together than alone", {"program": stmts.group_program(g), "expected": exp}))
        _G["stop"].set()
        if len(viol) > 5: break
    c = cs[len(cs) // 3]
    return len(cs), len(groups), trans, viol, {"family": name, "tree": repr(c.tree)[:300], "expected": c.expected()[:200]}

def statement_families(ck, b, stmts, fams, mk, group=24, task=24 * 60):
    import multiprocessing, itertools
    b.ncpu = 1
    _G.update(stop=multiprocessing.get_context("fork").Event(), b=b, stmts=stmts, mk=mk, group=group)
    groups_of = group if callable(group) else lambda name: group
    _G["group_of"] = groups_of
    bounds = []
    with multiprocessing.get_context("fork").Pool() as pool:
        for name, gen in fams:
            def tasks():
                cur = []
                for t in gen:
                    if not stmts.valid(t): continue
                    cur.append(t)
                    if len(cur) >= task: yield name, cur; cur = []
                if cur: yield name, cur
            n = 0
            it = tasks()
            stop = False
            while not stop:
                part = list(itertools.islice(it, 64))
                if not part: break
                smp = None
                for r in pool.imap(_work, part):
                    if r is None: continue
                    k, ng, tr, viol, smp = r
                    n += k; ck.states += k; ck.traces += ng; ck.transitions += tr
                    for v in viol: ck.violation(*v)
                if smp: ck.sample(smp, 8)
                if ck.viol: stop = True
                if ck.left() < 0: ck.exhaustive = False; stop = True
            bounds.append("%s: %d programs" % (name, n))
            if ck.viol: break
    ck.extra["bounds"] = "; ".join(bounds)
