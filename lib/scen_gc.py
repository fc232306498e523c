"""Scenarios for C04 (mc/h_gc.c)."""
import itertools

KINDS = "aobslhft"
# what the collecting thread does after its preparation
COLL = ["gv", "nzogv", "gnzav", "srgv", "ggv", "wx1gv", "gR1zv", "mxgmyv"]
# operations of the other threads; S R: suspend, resume
OPS = ["nzK", "mx", "wx1", "R0z", "R1z", "sr", "g", "p", "e", "dy"]


def two(quick):
    k = itertools.cycle(KINDS)
    for ci, c in enumerate(COLL):
        for oi, (a, b) in enumerate(itertools.product(OPS, repeat=2)):
            if quick and (ci + oi) % 4:
                continue
            if a == b and a not in ("g", "sr"):
                continue
            if ("R" in a and b == "mx") or (c.startswith("m") and "wx" in a + b and "R" in c):
                continue
            body = (a + b).replace("K", next(k))
            g = "t" if "p" in body and ci == 0 else "g"
            yield "%s:0%s|nx%sny%s.%s|nx%sny%s.%sv" % (g, next(k), next(k), next(k), c, next(k), next(k), body), 1
    for ci, c in enumerate(COLL):
        for a in OPS + [""]:
            if quick and ci % 2 and a: continue
            body = a.replace("K", next(k))
            yield "g:0%s|nx%s.%s|Nnx%sny%s%sv" % (next(k), next(k), c, next(k), next(k), body), 1           # late registration
            yield "g:0%s|nx%s.%s|nx%sny%ss.r%sv" % (next(k), next(k), c, next(k), next(k), body), 1         # resumes during the collection
    # repeated suspension and registration around a collection
    for body in ["srsrv", "s.rmxsrv", "s.rwx1v", "s.rR0zsrv", "s.rgv", "srgsrv", "s.rnzasrgv"]:
        yield "g:0a|nxa.gv|nxonya" + ("." if "." not in body else "") + body, 1
        yield "g:0a|nxa.gsrgv|nxonya" + ("." if "." not in body else "") + body, 1


def deep(quick):
    """bound 2"""
    small = ["g:0a|nxa.gv|nxo.srv", "g:0a|nxa.gv|nxos.rv", "g:0a|nxa.gv|nxos.rmxv", "g:0a|nxf.gv|nxf.ev", "g:0a|nxf.gv|NR0zv", "g:0a|.g|.g", "g:0a|.gv|s.rsr",
             "g:0f|.gR0x|.gR0x", "g:0a|nxa.gv|nxo.mxv", "g:0a|.g|N"]
    for s in small if not quick else small[:7]:
        yield s, 2


def three(quick):
    third = ["nyo.srv", "nyos.rv", "Nnyov", "nya.nzov", "nyf.R0zv", "nyb.gv"]
    second = ["nxo.srv", "nxos.rmxv", "NR0xv", "nxo.wx1v", "nxf.gv"]
    for i, (a, b) in enumerate(itertools.product(second, third)):
        if quick and i % 6: continue
        yield "g:0a|nxa.gv|%s|%s" % (a, b), 1


def all_(quick):
    r, seen = [], set()
    for s, b in itertools.chain(three(quick), deep(quick), two(quick)):
        b = b + (0 if quick or "|" in s[s.index("|", s.index("|") + 1) + 1:] else 1)
        if s not in seen:
            seen.add(s)
            r.append((s, b))
    return r
