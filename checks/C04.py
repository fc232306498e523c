#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, kosbuild, scen_gc


def run():
    ck = common.Check("C04")
    exe = kosbuild.build_mc("h_gc.c")
    groups = scen_gc.all_(ck.quick)
    for g in groups[:3] + groups[-3:]:
        ck.sample({"scenario": g[0], "preemption_bound": g[1]})
    common.run_mc(ck, exe, groups, extra_args=["1" if ck.quick else "2"], per_scenario_time=150 if ck.quick else 600)
    ck.extra["bounds"] = "%d scenarios of 2 or 3 threads; each under all schedules with at most 1 or 2 (thorough up to 3) preemptions and %d non-default picks at blocking points" % (len(groups), 1 if ck.quick else 2)
    ck.assumptions += ["sequentially consistent memory", "scheduling points at every access to memory touched by two threads with at least one write and at every synchronisation call"]
    ck.finish()


if __name__ == "__main__":
    common.main(run)
