#!/usr/bin/env python3
"""All nestings of control statements with all placements of control transfers, against a reference interpreter."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases, stmts

def run():
    ck = common.Check("L03")
    b = batch.Batch(preload="import io\n")
    fams = [("depth1", stmts.build(1)), ("depth1+end", stmts.build(1)), ("depth2+end", stmts.build(2, side=[("t",), ("ret",)])), ("depth2", stmts.build(2, side=[("t",), ("ret",), ("thr",), ("brk",), ("fall",)]))]
    # one side leaf only, transfers at the innermost place
    k3 = ("for", "try", "defer", "with", "switch", "call", "while", "repeat", "loop", "seq", "ifx")
    lv = [("t",), ("ret",), ("thr",), ("brk",), ("cont",)]
    fams.append(("depth3", stmts.build(3, leaves=lv + ([] if ck.quick else [("fall",)]), kinds=k3, side=[("t",), ("ret",)] if ck.quick else [("t",), ("ret",), ("thr",)])))
    if not ck.quick:
        fams.append(("depth4", stmts.build(4, leaves=lv, kinds=("for", "try", "defer", "with", "switch", "call"), side=[("t",)])))
    cases.statement_families(ck, b, stmts, fams, lambda t, name: stmts.Case(t, final=not name.endswith("+end")))
    ck.assumptions = ["a transfer out of a deferred block replaces the pending one, as the innermost statement executed last"]
    ck.finish()
common.main(run)
