#!/usr/bin/env python3
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, iomodel

CONTENTS = [b"", "ab\ncd\u017c\r\nef".encode(), b"a\0b\rc\n\r\nlast\n", "\u017c\u20ac\U0001f600\nxx".encode(), None]


def cases(quick):
    keys = list(iomodel.OPS)
    small = [k for k in keys if k not in ("WX", "WY")]
    core = ["W2", "WB", "P", "R2", "R", "L", "LS", "LK", "S0", "S2", "SE", "SX", "S=", "T", "E", "F", "Z3", "Z30", "C", "D"]
    out = []
    for fl in ("rb", "r+b", "w+b", "a+b", "wb", "ab"):
        for c in CONTENTS:
            for n in (1, 2):
                for ops in itertools.product(keys if n == 1 or not quick else small, repeat=n):
                    if fl[0] == "w" and c not in (b"", CONTENTS[1]): continue
                    if c is None and n == 2 and fl[0] == "r": continue
                    out.append((fl, c, ops, "1ES" if quick and n == 2 else "12EIS"))
    for a, b in itertools.product(keys, repeat=2):
        if "WX" in (a, b) or "WY" in (a, b):
            out.append(("r+b", CONTENTS[1], (a, b), "1ES"))
            out.append(("a+b", CONTENTS[1], (a, b), "1E"))
    for ops in itertools.product(core if quick else small, repeat=3):
        out.append(("r+b", CONTENTS[1], ops, "ES" if quick else "12EIS"))
        if not quick:
            out.append(("w+b", None, ops, "1ES"))
            out.append(("a+b", CONTENTS[1], ops, "1E"))
            out.append(("r+b", CONTENTS[3], ops, "1ES"))
    if not quick:
        for ops in itertools.product(["W2", "WX", "P", "R2", "L", "S0", "SE", "T", "F", "Z3", "D"], repeat=4):
            out.append(("r+b", CONTENTS[1], ops, "ES"))
    # lines of all lengths around the sizes of the portions read, at all places of sequences of several bytes
    for pad in list(range(0, 8)) + list(range(4088, 4100)):
        for tail in (b"\n", b"\r\n", b"\r", "\u017c\n".encode(), "\u20ac\r\n".encode(), "\U0001f600".encode(), b""):
            d = b"x" * pad + tail + b"yz\nend"
            for o in ("LS", "LK", "LG", "L", "L2"):
                if pad > 100 and o in ("LK", "LG") and pad % 4: continue
                out.append(("rb", d, (o, o), "S" if pad > 100 else "1ES"))
    return out


def run():
    ck = common.Check("M03")
    cs = cases(ck.quick)
    exe = iomodel.build()
    n = [0, 0, 0]

    def handle(c, points, runs, got):
        n[0] += 1; n[1] += runs; n[2] += points
        bad = iomodel.judge(c, got)
        if bad:
            ck.violation("io:%s:%s:%r" % (c[0], ".".join(c[2]), c[1] if c[1] is None or len(c[1]) < 40 else len(c[1])), "%s %s on %r: %s" % (c[0], " ".join(c[2]), (c[1] or b"")[:40], bad[:500]),
                         {"program": iomodel.program(c[0], c[2]), "content": repr(c[1]), "why": bad})
        return len(ck.viol) < 6
    done = iomodel.drive(exe, cs, handle, ck.left)
    if not done: ck.exhaustive = False
    ck.states, ck.transitions, ck.traces = n[0], n[2], n[0] + n[1]
    ck.extra["bounds"] = "%d of %d programs of up to %d operations over %d; %d disturbed runs: one per system call on the file and kind of disturbance" % (n[0], len(cs), 3 if ck.quick else 4, len(iomodel.OPS), n[1])
    ck.sample({"program": iomodel.program("r+b", ("W2", "S0", "L"))})
    ck.assumptions += ["glibc's stdio; writing after reading continues at the position", "after the end was reported, reading continues only after a change of position"]
    ck.finish()


if __name__ == "__main__":
    common.main(run)
