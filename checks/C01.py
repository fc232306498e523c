#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, kosbuild, scen_core

def run():
    ck = common.Check("C01")
    exe = kosbuild.build_mc("h_core.c")
    groups = scen_core.objects(ck.quick)
    groups.sort(key=lambda g: g[1])
    for g in groups[:3] + groups[-3:]:
        ck.sample({"scenario": g[0], "preemption_bound": g[1]})
    ck.extra["bounds"] = "all schedules with at most the scenario's preemption bound (1..3) and 2 (quick) / 4 (thorough) non-default picks at blocking points"
    ck.assumptions = ["sequentially consistent memory", "scheduling points at every access to memory touched by two threads with at least one write"]
    common.run_mc(ck, exe, groups, extra_args=["2" if ck.quick else "4"], per_scenario_time=90 if ck.quick else 600)
    ck.finish()

common.main(run)
