"""Scenario families for C01-C03 (see mc/h_core.c for the syntax)."""
import itertools

def _pairs(progs):
    return list(itertools.combinations_with_replacement(progs, 2))

def _writes(p, ro):
    return any(x[0] not in ro for x in p.split(","))

def objects(quick):
    # table capacity is 4 initially; 3 used slots force a growth; deleted slots count as used
    inits = ["", "sA1", "sA1,sB2", "sA1,sB2,sC3", "sA1,sB2,dB", "sA1,sB2,sC3,dC,dB"]
    if not quick:
        inits += ["sA1,sB2,sC3,sD4,sE5", "sA1,sB2,sC3,sD4,sE5,sF6,sG7,sH8,sI1,sJ2,sK3"]
    ops1 = ["sA5", "sD6", "gA", "dA", "gD", "w"]
    ops2 = ["sA5,gA", "sD6,gD", "sD6,sE7", "dA,sA7", "dA,sD7", "sD6,dD", "gA,gA", "gA,gD", "sA5,dA", "sA5,sA6"]
    out = []
    for i in inits:
        for a, b in _pairs(ops1):
            if _writes(a, "gw") or _writes(b, "gw"):
                # distinguish the writers' values
                b2 = b.replace("5", "7").replace("6", "8")
                out.append(("o:%s|%s|%s" % (i, a, b2), 3 if not quick else 2))
        for a in ops1:
            for b in ops2:
                b2 = b.replace("5", "3").replace("6", "4").replace("7", "9")
                if _writes(a, "gw") or _writes(b2, "gw"):
                    out.append(("o:%s|%s|%s" % (i, a, b2), 2))
        for a, b in _pairs(ops2):
            b2 = b.replace("5", "3").replace("6", "4").replace("7", "9")
            if quick and i in ("", "sA1", "sA1,sB2,dB"): continue
            out.append(("o:%s|%s|%s" % (i, a, b2), 1 if quick else 2))
        for t in itertools.combinations(["sA5", "sD6", "gA", "dA", "gD"], 3):
            if quick and i not in ("sA1,sB2", "sA1,sB2,sC3"): continue
            out.append(("o:%s|%s" % (i, "|".join(t)), 1 if quick else 2))
    three = ["sD5|sE6|sF7", "sD5|sD6|gD", "sD5|sA6|gA", "sD5|dA|gA", "sD5|sA6|sE7", "sD5|dA|sA6"]
    for i in ("sA1,sB2", "sA1,sB2,sC3"):
        for t in three:
            out.append(("o:%s|%s" % (i, t), 1 if quick else 2))
    return out

def arrays(quick):
    # storage grows in steps of 4 elements
    inits = ["", "p1", "p1,p2,p3", "p1,p2,p3,p4"]
    out = []
    ops1 = ["p5", "r0", "w06", "c017", "z", "R8", "f028", "l03"]
    ops2 = ["p5,r0", "w06,r0", "p5,p6", "c017,r0", "p5,z", "r0,r0", "c017,c071"]
    ro = "rzl"
    def sub(b): return b.replace("w06", "w09").replace("p5", "p8").replace("p6", "p9").replace("c017", "c016").replace("f028", "f029")
    for i in inits:
        for a, b in _pairs(ops1):
            if _writes(a, ro) or _writes(b, ro):
                out.append(("a:%s|%s|%s" % (i, a, sub(b)), 2 if quick else 3))
        for a in ops1:
            for b in ops2:
                if _writes(a, ro) or _writes(b, ro):
                    out.append(("a:%s|%s|%s" % (i, a, sub(b)), 2))
        if not quick:
            for a, b in _pairs(ops2):
                out.append(("a:%s|%s|%s" % (i, a, sub(b)), 2))
        for t in itertools.combinations(["p5", "r0", "w06", "c017", "R8", "p4"], 3):
            if quick and i not in ("p1", "p1,p2,p3,p4"): continue
            out.append(("a:%s|%s" % (i, "|".join(t)), 1 if quick else 2))
    for i in inits:
        for t in ["p5|p6|p7", "c017|c018|c019", "p5|w06|r0", "p5|c017|w06"]:
            out.append(("a:%s|%s" % (i, t), 2))
    # write / cas racing with two storage reallocations
    for i in ("p1", "p1,p2,p3,p4"):
        for t in ["R8|w06|R9", "R8|c017|R9", "R6,R9|w06,r0", "R6,R9|c017,r0", "p5|p6,r0|w07"]:
            out.append(("a:%s|%s" % (i, t), 2))
    return out

def buffers(quick):
    inits = ["", "m1", "m4", "m9"]
    out = []
    ops1 = ["m1", "m4", "m9", "R1", "R3", "R9"]
    ops2 = ["m1,m1", "m1,m9", "m9,m1", "R3,m9", "R9,m1"]
    for i in inits:
        for a, b in _pairs(ops1):
            if "m" in a or "m" in b:
                out.append(("b:%s|%s|%s" % (i, a, b), 2 if quick else 3))
        for a in ops1:
            for b in ops2:
                if quick and (a in ("m4", "R9") or i not in ("", "m4")): continue
                out.append(("b:%s|%s|%s" % (i, a, b), 2))
        for t in itertools.combinations_with_replacement(["m1", "m9", "R3"], 3):
            if quick and i not in ("", "m4"): continue
            out.append(("b:%s|%s" % (i, "|".join(t)), 1 if quick else 2))
    out += [("b:|m1|m9|m1", 1 if quick else 2), ("b:m4|m1|m9|m4", 1 if quick else 2)]
    return out
